#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None):
    assert len(title) <= 80, (len(title), title)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

S="swiftsimio/"
prop("R01","A masked read returns exactly the selected rows of every field",
 "For every file and every mask, each field read through the masked dataset equals the same field of the unmasked dataset restricted to the selected rows, each selected row exactly once and in file order, with the same dtype, trailing shape, units, cosmology exponent, comoving state and column meaning. This holds whatever the storage layout of the field (chunked or contiguous, of any number of dimensions, named columns, any byte order), and the rows of different fields of one group stay aligned.",
 ["inputs","configurations"],"all selections (contiguous, scattered, empty, all), all row counts, all chunk sizes, ranks, dtypes and byte orders",
 "Tests read a few real snapshots (not available offline) and a handful of hand-picked ranges; chunk-boundary and merge cases are combinatorial.",
 [S+"reader.py",S+"accelerated.py",S+"masks.py"],
 [("lazy getters pass the mask's ranges to the range reader",S+"reader.py:_generate_getter"),("range readers",S+"accelerated.py:read_ranges_from_file"),("ranges and size of mask",S+"masks.py:convert_masks_to_ranges")],
 ["swiftsimio.load(file, mask=m).<group>.<field>"],
 [("ranges","half-open row ranges selected","SWIFTMask._<group>"),("size","number of selected rows","SWIFTMask._<group>_size")])
prop("R02","The range readers return the concatenation of the requested ranges",
 "For any list of half-open row ranges in ascending order (empty and touching ranges included), reading them from a dataset returns the concatenation of those row blocks, independent of the dataset's chunking, of the columns asked for and of whether the dataset is local or remote. Converting a sorted list of row numbers to ranges and back is the identity. For remote datasets the slices requested from the server are sorted, non-empty, disjoint and non-touching, the result comes back in the order requested even if that was not ascending, and overlapping ranges are refused.",
 ["inputs"],"all lists of ranges over datasets of any length with any chunk size; for remote reads all orders of disjoint ranges",
 "The existing tests check three example range lists; index arithmetic at chunk edges, dataset end and adjacent ranges is quantified over all lists.",
 [S+"accelerated.py",S+"_ordered_slices.py"],
 [("chunk-range merging",S+"accelerated.py:get_chunk_ranges"),("running-sum extraction",S+"accelerated.py:extract_ranges_from_chunks"),("slice ordering/merging",S+"_ordered_slices.py:OrderedSlices")],
 ["read_ranges_from_file return value","slices given to request_slices"])
prop("M01","A spatial mask never misses a particle inside the requested region",
 "After constraining a mask to a region, every particle (of every type) whose position, or any periodic image of it, lies strictly inside the region is selected. This holds for regions crossing or given beyond the box edges, for inverted (wrapping) bounds, for axes left unconstrained, for particles that drifted out of their cell but lie within the recorded particle extents (or, when no extents are recorded, within the safety padding), and for cells stored in any order and with any of them empty.",
 ["inputs","configurations"],"all regions accepted by the API, all cell grids, all particle placements consistent with the cell metadata, all storage orders of cells",
 "Tests try a few regions on one or two snapshots that are not even present offline; the periodic/inverted/drifted case analysis is combinatorial.",
 [S+"masks.py"],
 [("cell intersection with three periodic copies",S+"masks.py:_generate_cell_mask"),("cell metadata unpack and sort",S+"masks.py:_unpack_cell_metadata")],
 ["ids read through load(file, mask=m)"],
 [("cell_mask","which top-level cells are selected, per group","SWIFTMask.cell_mask")])
prop("M02","A spatial mask selects whole cells, and only cells touching the region",
 "A spatial mask selects the complete row block of each selected cell and nothing else, and a cell is selected only if its extent (its volume together with its recorded particle extents, or with the safety padding when none are recorded; no padding for group catalogues) touches the region in every axis, allowing for periodicity. Regions with bounds further than half a box outside the box are refused and leave the mask as it was.",
 ["inputs","configurations"],"all regions, cell grids, paddings, and file kinds (snapshot with/without extents, SOAP)",
 "Over-selection is invisible to tests that only check that wanted particles are present.",
 [S+"masks.py"],
 [("cell intersection",S+"masks.py:_generate_cell_mask"),("range construction",S+"masks.py:_update_range_masks")],
 ["ids read through the mask","mask.<group>"])
prop("M03","Mask constraints combine by a fixed protocol and refused calls change nothing",
 "Masks exist only for files whose cells describe their rows: whole snapshots and catalogues, not single files of a distributed snapshot, friends-of-friends groups or lines of sight. Starting from everything selected: property constraints may be applied in any number and to any group and each only ever removes rows of its own group (all groups in a catalogue with shared rows); a spatial constraint must come first and further ones are accepted only as a union with spatial constraints, giving the union of the cells; an index constraint must come first. Any other order is refused with an error and leaves the selection unchanged, and switching between range and boolean representations, at any time and any number of times, never changes the selection or the reported sizes of a range mask.",
 ["histories"],"all sequences of constrain_spatial/constrain_property/constrain_index/constrain_indices/convert_masks_to_bool/convert_masks_to_ranges/load calls, valid and invalid",
 "Tests check a handful of two-step sequences; the protocol is a state machine over histories.",
 [S+"masks.py"],
 [("constraint bookkeeping",S+"masks.py:_constraint"),("representation switches",S+"masks.py:convert_masks_to_bool")],
 ["selection per group after each call","exception class"],
 [("constrained","last kind of constraint applied","SWIFTMask.constrained"),("range_mask","representation flag","SWIFTMask.range_mask")])
prop("M04","A property constraint keeps exactly the rows with lower < value <= upper",
 "Constraining a group by a field keeps exactly those currently selected rows whose value is greater than lower and not greater than upper, comparing physical values: the result does not depend on the unit or on the comoving/physical frame in which the bounds are given. Other groups are unaffected.",
 ["inputs"],"all fields, values, bounds (including equal to values), units and frames of the bounds, earlier selections",
 "Tests use one threshold in the file's own units; boundary equality, other frames and prior selections are not exercised.",
 [S+"masks.py",S+"objects.py"],
 [("comparison in constrain_property",S+"masks.py:constrain_property")],["ids read through the mask"])
prop("M05","Index constraints on catalogues select exactly the requested rows",
 "On a catalogue whose groups share rows, constraining to an index or a list of distinct in-range indices in any order selects exactly these rows, in ascending row order, for every group; on other kinds of files it is refused with an error. An empty list selects nothing.",
 ["inputs","histories"],"all index lists including unsorted, single, empty, full; all following property constraints",
 "Tests use one or two index lists on a catalogue that is not available offline.",
 [S+"masks.py",S+"accelerated.py"],
 [("constrain_indices",S+"masks.py:constrain_indices"),("ranges_from_array",S+"accelerated.py:ranges_from_array")],["rows read through the mask"])
prop("S01","A subset file holds exactly the masked rows and all other contents",
 "Writing a subset produces a file in which every per-row dataset of every particle or catalogue group equals the masked rows of the original, value for value with the same dtype and attributes; the attributes of these groups (their row counts updated), every other top-level group with all its contents, the header's attributes (apart from per-file counts and output type) and soft links at any depth are preserved, and nothing else is added. An unconstrained mask is refused unless explicitly allowed.",
 ["inputs","configurations"],"all masks and files (types, named columns, soft links, empty selections, catalogues)",
 "Tests compare a few metadata entries on downloaded snapshots; preservation is quantified over every dataset/attribute and every mask.",
 [S+"subset_writer.py"],
 [("dataset subsetting",S+"subset_writer.py:_write_datasubset"),("metadata copy",S+"subset_writer.py:_write_metadata"),("link discovery",S+"subset_writer.py:_find_links")],["HDF5 content of the subset file"])
prop("S02","A subset file's cell and count metadata describe its rows, so it can be masked",
 "In a subset file the per-cell counts and offsets of each type describe exactly the rows that belonged to that cell, the counts sum to the number of rows, the header's per-file number of rows equals the number of rows stored, and cell centres/extents stay attached to the right cell. Consequently a spatial mask on the subset selects every retained particle of the region, and a subset of a subset equals the subset by the combined selection.",
 ["inputs","histories"],"all masks (spatial, property, index), all cell storage orders and empty cells, repeated subsetting",
 "Needs masks over arbitrary cell layouts and chains of subset operations; tests do one level on one snapshot.",
 [S+"subset_writer.py",S+"masks.py"],
 [("recomputed counts/offsets",S+"masks.py:_get_masked_counts_offsets"),("cells group writing",S+"subset_writer.py:_write_metadata")],["Cells/* and Header of the subset file","mask of the subset file"])
prop("D01","Fields are loaded lazily once, can be overridden, and are re-read after deletion",
 "For each field (and named column and group attribute) independently: the first access reads the file, later accesses return that same array without reading again, an assigned value is returned until deleted, and deleting makes the next access read the file afresh. A loaded dataset's selection is fixed at load time whatever constraints or conversions are later applied to the mask, and datasets never affect each other.",
 ["histories"],"all interleavings of access, assignment, deletion, mask changes and file changes over several fields and datasets",
 "Tests touch each field once; the property is about histories.",
 [S+"reader.py"],[("getter/setter/deleter properties",S+"reader.py:_generate_getter")],["object identity and values of fields after each step"],
 [("cache","stored array or nothing, per dataset object and field","_<field> attributes")])
prop("D02","Files are opened only when needed and handles belong to whoever opened them",
 "Given a file name, loading, masking, reading fields, subsetting and validating leave no file handle open afterwards, including when they raise. Given an open handle, they use it without opening the file a second time and never close it; once the owner closes it, lazily reading from a file on disk still works by reopening the file.",
 ["histories","fault_sequences"],"all interleavings of API calls on file names and on handles, with handles closed by their owner at any point and with failing calls",
 "Leaks and premature closes show only across call sequences and on error paths.",
 [S+"_handle_provider.py",S+"_file_utils.py",S+"reader.py",S+"masks.py",S+"metadata/objects.py",S+"subset_writer.py"],
 [("handle ownership",S+"_handle_provider.py:HandleProvider")],["number of HDF5 files open in the process","validity of the caller's handle"])
prop("D03","Metadata exposes every group and field of the file under its own name and units",
 "The groups and fields offered are exactly those present in the file under their documented names (camel case to snake case, types to type names, named columns to their labels), and each is read from its own dataset or column. The units, scale-factor exponent, comoving/physical state, convertibility flag, compression and description of a field are exactly those of its attributes, for any exponents, and the kind of metadata object follows the output type of the file, unknown types being refused.",
 ["inputs","configurations"],"all files: any set of types, fields, exponents, flags, unit systems, named columns and output types",
 "Tests inspect a few fields of given files; mapping and exponent handling are quantified over all files.",
 [S+"metadata/objects.py",S+"metadata/field/attr_reader.py",S+"reader.py",S+"metadata/unit/unit_types.py"],
 [("discriminator",S+"metadata/objects.py:_metadata_discriminator"),("attribute readers",S+"metadata/field/attr_reader.py")],["attributes of the loaded dataset"])
prop("D04","Header and run metadata are exposed with the values and units of the file",
 "Every quantity of the header and of the other metadata groups (box size, time, redshift, scale factor, counts per type, mass tables, strings, date, photon group edges, reduced speed of light, mapping tables between named columns, adiabatic index, and the attributes of each metadata group) is available under its documented name with the value, unit and scale-factor exponent it has in the file, in any system of units, with the documented defaults when absent. The astropy cosmology has the file's parameters; neutrino species are listed with their degeneracies and combinations that astropy cannot represent are refused.",
 ["inputs","configurations"],"all unit systems, values, numbers of types, presence/absence of optional items",
 "Tests check a few items of downloaded snapshots in one unit system.",
 [S+"metadata/objects.py",S+"metadata/metadata/metadata_fields.py",S+"conversions.py"],
 [("header unpacking",S+"metadata/objects.py:postprocess_header"),("mass table",S+"metadata/objects.py:MassTable"),("mapping tables",S+"metadata/objects.py:get_mapping_metadata"),("neutrinos",S+"conversions.py:swift_neutrinos_to_astropy")],["attributes of the metadata object"])
prop("D05","swiftsnap and validate_file recognise SWIFT files and report what they state",
 "A file is accepted as SWIFT data exactly if it is an HDF5 file whose Code group is marked SWIFT; anything else (missing, not HDF5, unmarked, of another code) is refused with an IOError by validate_file, and by swiftsnap with the name of the first such file, a failure status and nothing else, before anything is reported about any file. Otherwise swiftsnap reports on every file given, in order, repetitions included, and succeeds: with -r or -a one redshift or scale factor per line to four digits, else run name, date, the policies that are switched on, type, numbers of particles of every type, code and compiler, z, a and time, and the schemes, as the file states them. No file is left open, and a handle given by the caller stays open.",
 ["inputs","configurations"],"all lists of files of any kind, options in any order, contents of the metadata groups",
 "No offline test runs the tool; order, repetition and the place of a bad file among good ones matter.",
 [S+"swiftsnap.py",S+"__init__.py"],[("validation",S+"__init__.py:validate_file"),("summary",S+"swiftsnap.py:swiftsnap")],["standard output and exit status of swiftsnap","result or exception of validate_file"])
prop("W01","The writer refuses inconsistent or incomplete data",
 "A snapshot is written only if every particle type that has any data has all its required fields, all per-particle arrays of a type have the same length, dimensions and scale factors agree with those of the snapshot, and user-supplied particle IDs are positive and unique across types; otherwise an error is raised at the assignment or at the write. A refused assignment leaves the previously assigned value in place.",
 ["histories","inputs"],"all sequences of assignments (valid and invalid), over types and fields, followed by a write",
 "Tests try single errors; the property ranges over all histories of assignments.",
 [S+"snapshot_writer.py"],[("setter checks",S+"snapshot_writer.py:_generate_setter"),("consistency check",S+"snapshot_writer.py:check_consistent"),("ID check",S+"snapshot_writer.py:_generate_ids")],["exceptions","file contents"])
prop("W02","What is written is what is read back",
 "Loading a written snapshot returns, for every field of every type, the same physical values, dimensions, and scale-factor exponent as were assigned, whatever units and frame (comoving or physical) they were assigned in, with the header (box size, number of particles and mass of the first particle per type, scale factor, dimension) describing that content. Writing twice gives the same content.",
 ["inputs","configurations"],"all unit systems, field values and shapes, frames, scale factors, sets of particle types and extra header entries",
 "Round-trip tests use one unit system, one frame, scale factor 1.",
 [S+"snapshot_writer.py",S+"reader.py"],[("writing and unit attributes",S+"snapshot_writer.py:_write_attributes")],["arrays read back with load"])
prop("W03","Generated particle IDs are unique across all types",
 "If the user did not supply IDs for every type, the written snapshot has IDs that are unique over all particles of all types, positive, and of the right count per type; if the user did supply valid IDs for all types they are written unchanged.",
 ["inputs","histories"],"all numbers of particles per type, any subset of types with user IDs, repeated writes",
 "Tests check one or two type combinations.",
 [S+"snapshot_writer.py"],[("ID generation",S+"snapshot_writer.py:_generate_ids")],["ParticleIDs of the written file"])
prop("C01","Frame and unit conversions preserve the physical quantity",
 "Converting an array or scalar between comoving and physical, or between units, in any order and any number of times, in place or by copy, preserves the physical quantity it denotes (stored value times scale factor to the exponent if comoving), and the frame flag tells which is stored. Conversions by copy leave the original unchanged, in-place ones change only it; quantities without a comoving form are never made comoving and raise an error instead; copies, views, slices and pickles keep exponent, frame, convertibility and compression.",
 ["histories","inputs"],"all sequences of conversions, copies, slices, reshapes and pickles over arrays and scalars with any exponent and scale factor",
 "Tests check single conversions; compositions and error paths form a state machine.",
 [S+"objects.py"],[("convert_to_comoving/convert_to_physical",S+"objects.py:cosmo_array"),("array finalisation",S+"objects.py:cosmo_array.__array_finalize__")],["value, units, cosmo_factor, comoving, valid_transform after each step"],
 [("comoving","frame flag","cosmo_array.comoving"),("valid_transform","may be made comoving","cosmo_array.valid_transform")])
prop("C02","Arithmetic does not depend on the frame of its operands",
 "For every arithmetic, comparison or mathematical element-wise operation, the physical value of the result is the operation applied to the physical values of the operands, whatever mixture of comoving and physical operands is given, and the result's exponent is that of the operation (product adds, quotient subtracts, power multiplies, sums and comparisons require equality). Quantities whose scale-factor exponents (or scale factors) differ are never silently added, compared or combined, and a result is marked convertible only if its operands were.",
 ["programs","inputs"],"all expressions over operands of any exponent, frame, unit, shape and kind (array, scalar, plain number), including reductions, output arguments and in-place operators",
 "The tests check each ufunc for crashes and metadata on one example; the value semantics over frames is quantified over all operand combinations.",
 [S+"objects.py",S+"_array_functions.py"],[("ufunc dispatch",S+"objects.py:__array_ufunc__"),("argument preparation",S+"_array_functions.py:_prepare_array_func_args"),("exponent algebra",S+"objects.py:cosmo_factor")],["result value/attributes"])
prop("C03","Numpy functions give frame-independent results with correct attributes",
 "For every supported numpy function the physical value of each result is that of the function applied to the physical values of its arguments, whatever the frames in which they are given, and results that are quantities carry the right exponent, frame and convertibility. Combining arguments whose exponents differ where equality is needed is refused rather than silently giving one of them. (Functions for which unyt itself drops or squares units are out of scope.)",
 ["programs","inputs"],"all handled numpy functions, all frames, exponents and argument forms",
 "Tests call each function once on one set of arguments and mostly check types.",
 [S+"_array_functions.py"],[("handled functions",S+"_array_functions.py:implements"),("result wrapping",S+"_array_functions.py:_return_helper")],["return values"])
prop("C04","Operations never change their inputs",
 "No operation, numpy function, conversion by copy, visualisation, mask constraint, or write modifies the value, units, frame or other attributes of an argument, except the array explicitly named as the target or output.",
 ["programs","histories"],"all operations, argument frames and kinds",
 "Tests look at results, rarely at the arguments afterwards.",
 [S+"objects.py",S+"_array_functions.py",S+"visualisation",S+"masks.py",S+"snapshot_writer.py"],[("copy before conversion",S+"_array_functions.py:_prepare_array_func_args")],["arguments before and after each call"])
prop("V01","Gridding deposits each particle exactly once, serially or in parallel",
 "Every particle contributes its full weight (to the accuracy with which the backend samples the kernel) exactly once to a gridded projection or volume if its kernel lies inside the region, once per periodic copy that reaches into the region when periodic, and nothing where its kernel does not reach; grids are additive over particles and linear in the weights. The result does not depend on the order of particles, on parallel versus serial execution, or on the number of threads.",
 ["inputs","schedules","configurations"],"all particle sets (also fewer particles than threads), resolutions, backends, thread counts",
 "Tests compare a few random configurations with loose tolerance; work partitioning errors appear for specific counts.",
 [S+"visualisation/projection_backends",S+"visualisation/volume_render_backends",S+"visualisation/projection.py",S+"visualisation/volume_render.py"],
 [("work partition",S+"visualisation/projection_backends/fast.py:scatter_parallel")],["pixel grids"])
prop("V02","Images are equivariant under shifts, axis exchange, cropping and rotation",
 "With periodic boundaries, shifting all particles and the region together (by any whole number of pixels or boxes) leaves the image unchanged; an image of a sub-region equals the corresponding crop of a finer image of the larger region; exchanging axes or rotating by a matrix about a centre is the same as transforming the coordinates first. Pixels are indexed [x, y(, z)] in the orientation and with the units and exponent documented.",
 ["inputs","configurations"],"all region bounds, shifts, quarter-turn rotations, resolutions, masks, projected quantities",
 "Tests check a few shifts with one backend.",
 [S+"visualisation/_vistools.py",S+"visualisation/projection.py",S+"visualisation/slice.py",S+"visualisation/volume_render.py",S+"visualisation/rotation.py"],
 [("region handling",S+"visualisation/_vistools.py:_get_region_info"),("coordinate preparation",S+"visualisation/_vistools.py:_get_rotated_and_wrapped_coordinates")],["pixel grids"])
prop("P01","Depositing for power spectra conserves mass and folds periodically",
 "Depositing particles on a mesh puts each particle's weight in exactly the mesh cell that contains it after folding the box the given number of times, for every particle position including the box edges, independent of particle order and parallelism, so that total mass is conserved; the returned density has the right units and exponent.",
 ["inputs","configurations"],"all positions, resolutions, foldings, thread counts",
 "Tests check total mass on one random set.",
 [S+"visualisation/power_spectrum.py"],[("deposition",S+"visualisation/power_spectrum.py:deposit")],["deposition grids"])
prop("P02","Power spectra count every Fourier mode once, in the bin of its wavenumber",
 "For any fields deposited on meshes of any size and folding, each mode of the discrete transform of the overdensity is counted exactly once, in the bin whose edges enclose its wavenumber, and a bin's power is the volume times the mean of the modes' (cross) powers, less the shot noise when asked for, whatever the folding; bin wavenumbers are the mean of the modes' and empty bins are zero. Power has units and exponent of a volume, wavenumbers of an inverse length, in the frame of the box. Stitching spectra of several foldings takes in each bin the power, wavenumber and folding of one of the foldings that is allowed there (enough modes, below the cut of its resolution), the one with most modes.",
 ["inputs","configurations"],"all fields, mesh sizes, foldings, bin edges, cuts, frames of the box",
 "Tests check the slope of one random field and that units exist; which fold wins where depends on the combination of foldings, bins and cuts.",
 [S+"visualisation/power_spectrum.py"],[("modes to bins",S+"visualisation/power_spectrum.py:deposition_to_power_spectrum"),("stitching",S+"visualisation/power_spectrum.py:folded_depositions_to_power_spectrum")],["wavenumbers, powers, counts, folding tracker"])
prop("V03","Generated smoothing lengths reach the requested number of neighbours",
 "For any particles in a periodic box, the generated smoothing length of particle i, times the kernel's gamma, is the distance, the shortest way around the box, to its k-th nearest particle (itself the first), k being the neighbours asked for divided by the speed-up factor, stretched by the speed-up to the power one over the dimension. There is one per particle in the order of the particles, independent of how the work is split into blocks, with the units, frame and exponent of the coordinates, whatever frame or unit the box is given in.",
 ["inputs","configurations"],"all positions, boxes, frames, neighbour numbers, speed-ups, particle numbers around the block size, no particles",
 "Tests compare against lengths in one snapshot (not available offline) to within a tolerance.",
 [S+"visualisation/smoothing_length/generate.py"],[("blocks",S+"visualisation/smoothing_length/generate.py:generate_smoothing_lengths")],["generate_smoothing_lengths(...)"])
prop("V04","Coloured renders and 2D colour maps show the data they are given",
 "Rendering a voxel grid with several functions gives one image per line of sight along the last axis: each layer is the sum over the voxels of that line of its Gaussian (of the given centre and width), normalised over the given or its own range and multiplied by the layer's colour, and layers are combined by maximum or sum; grids need not be cubic. A two-dimensional colour map gives each pair of values (clipped to 0..1) the mean of its colours weighted by closeness, or the picture's pixel there, whatever sequence type or shape the values have.",
 ["inputs","configurations"],"all grids, layers, normalisations and modes; all colours, pictures, and arrays of values",
 "Tests check that a few images are made and the types of the returned objects.",
 [S+"visualisation/volume_render.py",S+"visualisation/tools/cmaps.py"],
 [("lines of sight",S+"visualisation/volume_render.py:render_voxels_to_array"),("layers",S+"visualisation/volume_render.py:visualise_render"),("colour grid",S+"visualisation/tools/cmaps.py:Cmap2D.__call__")],["visualise_render(...)","visualise_render_options(...)","LinearSegmentedCmap2D, LinearSegmentedCmap2DHSV, ImageCmap2D called with values"])
prop("C05","Scale-factor dependences form an exact algebra",
 "For every sequence of multiplications, divisions, powers, sums, differences and copies of scale-factor dependences (cosmo_factor), the exponent of the result is the one arithmetic gives (sums keep it), its scale factor is its operands', and its conversion factor is that power of the scale factor. Dependences at different scale factors, or known with unknown ones, do not combine, and different exponents do not add; equality means same exponent and same scale factor even at a=1, however the exponent is written; order follows the conversion factor. Operands never change.",
 ["inputs","histories"],"all sequences of operations over known and unknown dependences at one or several scale factors",
 "Tests combine a handful of pairs with fixed exponents.",
 [S+"objects.py"],[("the algebra",S+"objects.py:cosmo_factor"),("conversion factor",S+"objects.py:cosmo_factor.a_factor")],["cosmo_factor operators, comparisons, a_factor, redshift, copy, pickle"])
prop("T01","Statistics files are read column by column without loss",
 "For any statistics text file with the documented header, every column is available under its documented name with every row's value in order and with its stated unit.",
 ["inputs"],"all headers (column sets, names, units), numbers of rows, numeric formats",
 "No existing test covers the statistics reader.",
 [S+"statistics.py",S+"accelerated.py"],[("header parser",S+"statistics.py"),("line parser",S+"accelerated.py:list_of_strings_to_arrays")],["attributes of load_statistics(file)"])
prop("N01","Smoothed fields are numerically accurate",
 "Kernel sums, renormalised maps and backends with sub-pixel sampling agree with their continuous definitions to the documented accuracy.",
 ["inputs"],"all particle distributions","Accuracy is asserted on a few random sets only.",
 [S+"visualisation"],[("kernels",S+"visualisation/projection_backends/kernels.py")],["pixel values"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
