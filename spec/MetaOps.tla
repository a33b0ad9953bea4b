------------------------------- MODULE MetaOps -------------------------------
(* How the content of a file is named and described (properties D03, D04).      *)
(* Names are TLA+ strings, taken apart character by character.  Exponents are    *)
(* counted in quarters; units are powers of two, so a unit is its exponent.      *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
InStr(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
IsUp(c) == InStr(Upper, c)
IsLowOrDigit(c) == InStr(Lower, c) \/ InStr("0123456789", c)
LowOf(c) == IF IsUp(c) THEN Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c) ELSE c

RECURSIVE LowerCase(_)
LowerCase(s) == IF s = "" THEN "" ELSE LowOf(Ch(s, 1)) \o LowerCase(SubSeq(s, 2, Len(s)))

\* camel case to snake case: an underscore between a lower case letter or digit and a capital
RECURSIVE Snake(_)
Snake(s) ==
    IF Len(s) <= 1 THEN LowerCase(s)
    ELSE LowOf(Ch(s, 1))
         \o (IF IsLowOrDigit(Ch(s, 1)) /\ IsUp(Ch(s, 2)) THEN "_" ELSE "")
         \o Snake(SubSeq(s, 2, Len(s)))

RECURSIVE Strip(_)      \* without underscores
Strip(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "_" THEN "" ELSE Ch(s, 1)) \o Strip(SubSeq(s, 2, Len(s)))

RECURSIVE Replace(_, _, _)
Replace(s, a, b) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = a THEN b ELSE Ch(s, 1)) \o Replace(SubSeq(s, 2, Len(s)), a, b)

PartNames == [PartType0 |-> "gas", PartType1 |-> "dark_matter", PartType2 |-> "boundary", PartType3 |-> "sinks",
              PartType4 |-> "stars", PartType5 |-> "black_holes", PartType6 |-> "neutrinos", PartType7 |-> "sidm"]
SoapNames == [BoundSubhalo |-> "bound_subhalo", InputHalos |-> "input_halos", InclusiveSphere |-> "inclusive_sphere",
              ExclusiveSphere |-> "exclusive_sphere", SO |-> "spherical_overdensity", SOAP |-> "soap",
              ProjectedAperture |-> "projected_aperture"]

Kind(outtype) ==
    CASE outtype \in {"", "FullVolume", "VolumeSubset"} -> "SWIFTSnapshotMetadata"
      [] outtype = "LineOfSight" -> "SWIFTLineOfSightMetadata"
      [] outtype \in {"SOAP", "SOAPSubset"} -> "SWIFTSOAPMetadata"
      [] outtype \in {"FOF", "FOFSubset"} -> "SWIFTFOFMetadata"
      [] OTHER -> "refused"

FirstPart(p) == IF InStr(p, "/") THEN SubSeq(p, 1, (CHOOSE i \in 1..Len(p) : Ch(p, i) = "/" /\ \A j \in 1..(i-1) : Ch(p, j) # "/") - 1) ELSE p
GroupName(kind, p) ==
    CASE kind = "SWIFTSnapshotMetadata" -> PartNames[p]
      [] kind = "SWIFTLineOfSightMetadata" -> LowerCase(p)
      [] kind = "SWIFTFOFMetadata" -> "fof_groups"
      [] kind = "SWIFTSOAPMetadata" ->
            SoapNames[FirstPart(p)] \o LowerCase(Replace(SubSeq(p, Len(FirstPart(p)) + 1, Len(p)), "/", "_"))

\* column labels: lower case if they look like names (at most one capital each), kept if they
\* have more; lists mixing both are only compared without regard to case
RECURSIVE Caps(_)
Caps(s) == IF s = "" THEN 0 ELSE (IF IsUp(Ch(s, 1)) THEN 1 ELSE 0) + Caps(SubSeq(s, 2, Len(s)))
ColumnOK(cols, k, got) ==
    CASE \A i \in 1..Len(cols) : Caps(cols[i]) <= 1 -> got = LowerCase(cols[k])
      [] \A i \in 1..Len(cols) : Caps(cols[i]) >= 2 -> got = cols[k]
      [] OTHER -> LowerCase(got) = LowerCase(cols[k])

\* base-2 logarithm (in quarters) of a unit with exponents e in a system of units 2^u
RECURSIVE Dot(_, _, _)
Dot(e, u, i) == IF i = 0 THEN 0 ELSE e[i] * u[i] + Dot(e, u, i - 1)
UnitLog(e, u) == Dot(e, u, Len(u))

\* attributes of line-of-sight groups: positions are comoving lengths, the rest plain numbers
AttrExps(name) == IF name \in {"xpos", "ypos", "zpos"} THEN <<4, 0, 0, 0, 0>> ELSE <<0, 0, 0, 0, 0>>
AttrA(name) == IF name \in {"xpos", "ypos", "zpos"} THEN 4 ELSE 0

\* the header and the other metadata groups
NoUnit == <<0, 0, 0, 0, 0>>
GroupDict == [Code |-> "code", Cosmology |-> "cosmology_raw", Header |-> "header", GravityScheme |-> "gravity_scheme",
              HydroScheme |-> "hydro_scheme", InternalCodeUnits |-> "internal_code_units", Parameters |-> "parameters",
              Policy |-> "policy", RuntimePars |-> "runtime_pars", SubgridScheme |-> "subgrid_scheme",
              StarsScheme |-> "stars_scheme", UnusedParameters |-> "unused_parameters"]
Item(names, exps, a) == [names |-> names, exps |-> exps, a |-> a]
HeadSpec(attr, sub) ==
    CASE attr = "BoxSize" -> Item({"boxsize"}, <<4, 0, 0, 0, 0>>, 4)
      [] attr = "Time" -> Item({"time", "t"}, <<0, 0, 4, 0, 0>>, 0)
      [] attr = "Redshift" -> Item({"redshift", "z"}, NoUnit, 0)
      [] attr = "Scale-factor" -> Item({"scale_factor", "a"}, NoUnit, 0)
      [] attr = "Dimension" -> Item({"dimension"}, NoUnit, 0)
      [] attr = "NumPart_ThisFile" -> Item({"n_" \o PartNames[sub]}, NoUnit, 0)
      [] attr = "MassTable" -> Item({"mass_table." \o PartNames[sub]}, <<0, 4, 0, 0, 0>>, 0)
      [] attr = "InitialMassTable" -> Item({"initial_mass_table." \o PartNames[sub]}, <<0, 4, 0, 0, 0>>, 0)
      [] attr = "RunName" -> Item({"run_name"}, NoUnit, 0)
      [] attr = "System" -> Item({"system_name"}, NoUnit, 0)
      [] attr = "SelectOutput" -> Item({"select_output"}, NoUnit, 0)
      [] attr = "OutputType" -> Item({"output_type"}, NoUnit, 0)
      [] attr = "SnapshotDate" -> Item({"snapshot_date"}, NoUnit, 0)
      [] attr = "NumSubhalos_ThisFile" -> Item({"n_subhalos"}, NoUnit, 0)
      [] attr = "Partial" -> Item({"partial_snapshot"}, NoUnit, 0)
      [] attr = "Adiabatic index" -> Item({"gas_gamma"}, NoUnit, 0)
      [] attr = "PhotonGroupEdges" -> Item({"photon_group_edges"}, <<0, 0, -4, 0, 0>>, 0)
      [] attr = "ReducedLightspeed" -> Item({"reduced_lightspeed"}, <<4, 0, -4, 0, 0>>, 0)
      [] attr = "Mapping" -> Item({sub}, NoUnit, 0)
      [] OTHER -> Item({GroupDict[attr] \o "." \o sub}, NoUnit, 0)

\* what an item reads as when the file does not have it ("item"), or when its table is shorter
\* than the list of particle types ("entry")
Nothing == [m |-> 0, e |-> 0, s |-> "(none)"]
Empty == [m |-> 0, e |-> 0, s |-> "(empty)"]
Zero == [m |-> 0, e |-> 0, s |-> ""]
Absent(attr, what) ==
    << CASE attr = "NumPart_ThisFile" -> Zero
         [] attr \in {"MassTable", "InitialMassTable"} -> IF what = "item" THEN Zero ELSE Nothing
         [] attr \in {"RunName", "System", "SelectOutput"} -> Empty
         [] OTHER -> Nothing >>
=============================================================================
