From f4a90675d257d2239af78a57fd9c9c4cf2b46653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 01/75] fix: read chunked datasets of non-native byte order
 through a mask

extract_ranges_from_chunks is numba-compiled and cannot handle arrays of
non-native byte order; convert to native order before extracting.
---
 swiftsimio/accelerated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..c3b18c5 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -417,12 +417,12 @@ def read_ranges_from_file_chunked(
 
         already_read += size_of_range
 
+    # Ensure the result is a native endian type (numba can't handle other types)
+    to_native_byteorder_inplace(output)
+
     if handle.chunks is not None:
         output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
 
-    # Ensure the result is a native endian type
-    to_native_byteorder_inplace(output)
-
     return output
 
 
-- 
2.43.0


From 39cbce103348fd6f66d4742c5166533729dccd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 02/75] fix: order cells by the storage order of all groups
 when masking

Sorting by the offsets of the first group alone misplaces cells that are empty
for that group when cells are not stored in index order: the rows of other
groups were then read out of order and the cell counts/offsets of subsets were
wrong.
---
 swiftsimio/masks.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..c0a29a3 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -379,24 +379,22 @@ class SWIFTMask(HandleProvider):
             self.maxpositions["shared"] = (
                 centers_values + (pad_cells + 0.5) * metadata_handle.attrs["size"]
             )
-        # Only want to compute this once (even if it is fast, we do not
-        # have a reliable stable sort in the case where cells do not
-        # contain at least one of each type of particle).
-        self.cell_sort = None
+        # When using MPI, we cannot assume that the cells are sorted. All groups store
+        # their cells in the same order, but the offsets of a single group don't fix
+        # that order: a cell that is empty for one group has the same offset as the cell
+        # stored after it. So use the offsets of all groups (each is non-decreasing in
+        # storage order) and put cells that are empty for all groups first if tied.
+        self.cell_sort = np.lexsort(
+            (
+                np.sum(list(self.counts.values()), axis=0),
+                np.sum(list(self.offsets.values()), axis=0),
+            )
+        )
 
         # Now perform sort:
         for key in self.offsets.keys():
-            offsets = self.offsets[key]
-            counts = self.counts[key]
-
-            # When using MPI, we cannot assume that these are sorted.
-            if self.cell_sort is None:
-                # Only compute once; not stable between particle
-                # types if some datasets do not have particles in a cell!
-                self.cell_sort = np.argsort(offsets, stable=True)
-
-            self.offsets[key] = offsets[self.cell_sort]
-            self.counts[key] = counts[self.cell_sort]
+            self.offsets[key] = self.offsets[key][self.cell_sort]
+            self.counts[key] = self.counts[key][self.cell_sort]
 
         # Also need to sort centers in the same way
         self.centers = cosmo_array(
-- 
2.43.0


From 192d187eabae3ec38aa3b89f0f6e074981a5e615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 03/75] fix: keep range masks two-dimensional when no cells are
 selected

Reading a remote file with an empty spatial mask raised IndexError.
---
 swiftsimio/masks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index c0a29a3..c1df376 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -675,7 +675,8 @@ class SWIFTMask(HandleProvider):
 
                 this_mask = [[o, c + o] for c, o in zip(counts, offsets)]
 
-                setattr(self, data_name, np.array(this_mask))
+                # reshape so that we get an (N, 2) array even if no cells are selected
+                setattr(self, data_name, np.array(this_mask, dtype=int).reshape(-1, 2))
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-- 
2.43.0


From 51d9f995b88274709804fe6b64743cb6032f8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 04/75] fix: union of spatial constraints on a mask converted
 to boolean

After convert_masks_to_bool a spatial union only ever switched rows off, so
the cells added by the union were silently lost.
---
 swiftsimio/masks.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index c1df376..3dce630 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -680,18 +680,18 @@ class SWIFTMask(HandleProvider):
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-                counts = self.counts[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-                offsets = self.offsets[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
+                counts = self.counts[count_name][self.cell_mask[count_name]]
+                offsets = self.offsets[count_name][self.cell_mask[count_name]]
 
                 # We must do the whole boolean mask business.
-                this_mask = getattr(self, data_name)
+                # The cell mask alone defines the selection (only spatial constraints
+                # can have been applied), so cells added by a union are switched on.
+                this_mask = np.zeros_like(getattr(self, data_name))
 
                 for count, offset in zip(counts, offsets):
-                    this_mask[offset : count + offset] = False
+                    this_mask[offset : count + offset] = True
+
+                setattr(self, data_name, this_mask)
 
         return
 
-- 
2.43.0


From a137b05cba4bf15b5db9a7fbfa7d2a0250a14d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 05/75] fix: subset writer keeps nested soft links and unmasked
 datasets

Soft links below the top level were found but discarded, so they became copies
or were lost. Groups and datasets were skipped when a skipped name was contained
anywhere in theirs, and datasets of groups that are not masked made the writer
fail (or were subset with the mask of a catalogue).
---
 swiftsimio/subset_writer.py | 43 +++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..6130890 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -88,6 +88,28 @@ def _get_dataset_size(mask: SWIFTMask, dataset_name: str) -> int | None:
         return None
 
 
+def _is_within(name: str, parents: list[str]) -> bool:
+    """
+    Check whether an object is one of, or lies inside one of, some groups (or links).
+
+    Parameters
+    ----------
+    name : str
+        Path of the object in the file.
+
+    parents : list of str
+        Paths of the groups (or links).
+
+    Returns
+    -------
+    bool
+        ``True`` if ``name`` is or is inside one of ``parents``.
+    """
+    return any(
+        f"{name.strip('/')}/".startswith(f"{parent.strip('/')}/") for parent in parents
+    )
+
+
 def _find_datasets(
     input_file: h5py.File,
     dataset_names: list[str] = [],
@@ -126,6 +148,8 @@ def _find_datasets(
 
     for key in keys:
         subpath = f"{path}/{key}"
+        if is_soft_link(input_file.get(subpath, getlink=True)):
+            continue  # found where it points to, if that is in the file
         if is_dataset(input_file[subpath]):
             dataset_names.append(subpath)
         elif input_file[subpath].keys() is not None:
@@ -181,7 +205,9 @@ def _find_links(
             link_paths.append(dataset.path)
         elif getattr(input_file[subpath], "keys", lambda: None)() is not None:
             # has `keys` so it's not a Dataset
-            _find_links(input_file, link_names, link_paths, subpath)
+            sub_names, sub_paths = _find_links(input_file, path=subpath)
+            link_names += sub_names
+            link_paths += sub_paths
 
     return link_names, link_paths
 
@@ -276,7 +302,7 @@ def _write_metadata(
     skip_list += ["Cells"]
     skip_list += set(group.split("/")[0] for group in mask.metadata.present_groups)
     for field in infile.keys():
-        if not any([substr for substr in skip_list if substr in field]):
+        if not _is_within(field, skip_list):
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
             output_type = infile[field].attrs.get("OutputType", "FullVolume")
@@ -344,11 +370,11 @@ def _write_datasubset(
         Names of links found in the snapshot.
     """
     skip_list = links_list.copy()
-    skip_list.extend(["Cells", "SubgridScheme", "PartTypeNames"])
+    masked_groups = set(group.split("/")[0] for group in mask.metadata.present_groups)
     if mask is not None:
         for name in dataset_names:
-            if any([substr for substr in skip_list if substr in name]):
-                continue
+            if _is_within(name, skip_list) or not _is_within(name, masked_groups):
+                continue  # links and groups that have been copied already
 
             # get output dtype and size
             first_value = infile[name][0]
@@ -391,8 +417,11 @@ def _connect_links(
     paths_list : list of str
         List of paths specifying how to link each soft link.
     """
-    for i in range(len(links_list)):
-        outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
+    for link_name, link_path in zip(links_list, paths_list):
+        group_name, _, name = link_name.rpartition("/")
+        group = outfile.require_group(group_name) if group_name else outfile
+        if name not in list(group):  # links inside copied groups are already there
+            group[name] = h5py.SoftLink(link_path)
 
 
 def write_subset(
-- 
2.43.0


From 9c14551989a8c35d8db38545b05b8953546c1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 06/75] fix: subset writer handles empty and single-column
 datasets

A dataset without rows (e.g. from a previous subset) raised an error since its
first row was read to find the shape, and (N, 1) datasets became (N,).
---
 swiftsimio/subset_writer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 6130890..3e029cf 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -377,13 +377,9 @@ def _write_datasubset(
                 continue  # links and groups that have been copied already
 
             # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From 1150a23dcf09e3e3a05f8740bdc0d3b44d10898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 07/75] fix: subset writer keeps attributes of masked groups
 and counts of absent types

---
 swiftsimio/subset_writer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 3e029cf..fbf10d6 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -257,6 +257,11 @@ def _update_metadata_counts(
             elif _get_swift_name(part_type) in dset:
                 outfile[dset] = particle_offsets[part_type]
 
+    # Types without particles have no mask, keep their (zero) counts
+    for dset in counts_dsets + offsets_dsets:
+        if dset not in outfile:
+            outfile[dset] = infile[dset][...][mask.cell_sort]
+
     # Copy the cell centres and metadata
     infile.copy("/Cells/Centres", outfile, name="/Cells/Centres")
     outfile["/Cells/Centres"][...] = outfile["/Cells/Centres"][...][mask.cell_sort,]
@@ -395,6 +400,17 @@ def _write_datasubset(
             for attr_name, attr_value in infile[name].attrs.items():
                 outfile[name].attrs.create(attr_name, attr_value)
 
+        # Copy the attributes of the groups, all other groups are copied whole
+        for group in masked_groups.union(mask.metadata.present_groups):
+            if group not in infile:
+                continue
+            for attr_name, attr_value in infile[group].attrs.items():
+                if attr_name == "NumberOfParticles":
+                    attr_value = np.full_like(
+                        attr_value, _get_dataset_size(mask, group)
+                    )
+                outfile.require_group(group).attrs.create(attr_name, attr_value)
+
 
 def _connect_links(
     outfile: h5py.File, links_list: list[str], paths_list: list[str]
-- 
2.43.0


From dc3945239d9854aea483654300259d7a06623bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 08/75] fix: subset writer keeps attributes of the file itself

---
 swiftsimio/subset_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index fbf10d6..e98083e 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -471,6 +471,8 @@ def write_subset(
     infile: h5py.File
     with mask.metadata.open_file() as infile, h5py.File(output_file, "w") as outfile:
         # Write metadata and data subset
+        for attr_name, attr_value in infile.attrs.items():
+            outfile.attrs.create(attr_name, attr_value)
         list_of_links, list_of_link_paths = _find_links(infile)
         _write_metadata(infile, outfile, list_of_links, mask)
         _write_datasubset(infile, outfile, mask, _find_datasets(infile), list_of_links)
-- 
2.43.0


From d53fc1196bae88a25baef5d3c038dfac39326f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 09/75] fix: squeezing to a scalar keeps cosmology attributes

A length-one array squeezed to a cosmo_quantity lost its scale factor exponent and
comoving state, so positions of line-of-sight groups (xpos, ...) had none.
---
 swiftsimio/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..f9c07e3 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1400,7 +1400,9 @@ class cosmo_array(unyt_array):
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From ba506468fd2d6bb5108d4b87fc8f5fa5f856ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 10/75] fix: write the scale exponent of fields that do not
 scale

---
 swiftsimio/snapshot_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..a86adad 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -271,8 +271,11 @@ class __SWIFTWriterParticleDataset(object):
                 "U_M exponent": [dim_exponents[mass]],
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
+                # expressions are a**exponent, but sympy writes this as 1 or a if possible
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    0.0
+                    if field.cosmo_factor.expr == 1
+                    else float(getattr(field.cosmo_factor.expr, "exp", 1.0))
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From a8e11aa32d2800d7a97669523d4efac11090ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 11/75] fix: write the comoving box size

---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index a86adad..1289cc1 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -687,6 +687,8 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if isinstance(self.boxsize, cosmo_array):
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From 32e3ecf76ffb985d29e3de914a363fef7f0a14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 12/75] fix: write particle types whose arrays are empty

---
 swiftsimio/snapshot_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 1289cc1..a8c8783 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -776,7 +776,8 @@ class SWIFTSnapshotWriter(object):
                 number_of_particles[_ptype_str_to_int(number)] = getattr(
                     self, name
                 ).n_part
-                mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[0]
+                if getattr(self, name).n_part > 0:
+                    mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[0]
 
         attrs = {
             "BoxSize": self.boxsize,
-- 
2.43.0


From 2d4ffbd70c1bf778c81da70686723875077f7083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 13/75] fix: writer refuses dimensionful values for
 dimensionless fields

---
 swiftsimio/snapshot_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index a8c8783..9f320ba 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -414,6 +414,10 @@ def generate_setter(
             else:
                 raise TypeError(f"Provide {name} as swiftsimio.cosmo_array.")
         else:
+            if getattr(value, "units", unyt.dimensionless).dimensions != dimensions:
+                raise unyt.exceptions.InvalidUnitEquivalence(
+                    f"Convert to {name}", value.units.dimensions, dimensions
+                )
             if name == "particle_ids":
                 if any(value <= 0):
                     raise ValueError(f"{self.particle_name}.particle_ids must be >= 1.")
-- 
2.43.0


From aa98e7135dac1deebd1728ed8404c7415845d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 14/75] fix: writer does not convert the arrays assigned to it
 in place

---
 swiftsimio/snapshot_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 9f320ba..8e2e19f 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -404,6 +404,7 @@ def generate_setter(
         if dimensions != 1:
             if isinstance(value, cosmo_array):
                 if value.units.dimensions == dimensions:
+                    value = value.copy()  # don't convert the caller's array
                     value.convert_to_base(unit_system)
                     value.convert_to_comoving()
                     setattr(self, f"_{name}", value)
-- 
2.43.0


From bd80a134a4fa2c16d26ae00c826bf78fd46e513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:09 +0000
Subject: [PATCH 15/75] fix: compare particle IDs of signed and unsigned types
 exactly

---
 swiftsimio/snapshot_writer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 8e2e19f..95d8f92 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -888,9 +888,14 @@ class SWIFTSnapshotWriter(object):
         if generate_ids:
             self._generate_ids(names_to_write)
         else:
-            all_ids = np.concatenate(
-                [getattr(self, name).particle_ids for name in names_to_write]
-            )
+            ids = [
+                getattr(self, name).particle_ids.view(np.ndarray)
+                for name in names_to_write
+            ]
+            if all(i.dtype.kind in "iu" for i in ids):
+                # numpy mixes signed & unsigned integers as (inexact) floats
+                ids = [i.astype(np.uint64) for i in ids]  # they are positive
+            all_ids = np.concatenate(ids)
             if np.unique(all_ids).size != all_ids.size:
                 raise ValueError(
                     "Particle IDs must be unique across all particle types."
-- 
2.43.0


From f5d3f0b87b2736d3c5659215a97c006ec1605f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 16/75] fix: convert integer arrays between comoving and
 physical

---
 swiftsimio/objects.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index f9c07e3..c430912 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1409,6 +1409,25 @@ class cosmo_array(unyt_array):
     ua = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
     unit_array = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
 
+    def _values_for_conversion(self) -> np.ndarray:
+        """
+        Get a view of the values that can be scaled in place.
+
+        As for unit conversions with :mod:`unyt`, integers become floating point numbers
+        of the same size.
+
+        Returns
+        -------
+        ~numpy.ndarray
+            View of the (floating point) values of this array.
+        """
+        if self.dtype.kind in "ui":
+            new_dtype = f"f{max(2, self.dtype.itemsize)}"
+            float_values = self.d.astype(new_dtype)
+            self.dtype = new_dtype
+            np.copyto(self.d, float_values)
+        return self.d
+
     def convert_to_comoving(
         self,
         units: unyt.Unit | str | None = None,
@@ -1453,8 +1472,9 @@ class cosmo_array(unyt_array):
             raise InvalidConversionError
         # Best to just modify values as otherwise we're just going to have
         # to do a convert_to_units anyway.
-        values = self.d
-        values /= self.cosmo_factor.a_factor
+        if self.cosmo_factor.a_factor != 1.0:
+            values = self._values_for_conversion()
+            values /= self.cosmo_factor.a_factor
         self.comoving = True
 
     def convert_to_physical(
@@ -1502,8 +1522,9 @@ class cosmo_array(unyt_array):
         else:  # self.comoving
             # Best to just modify values as otherwise we're just going to have
             # to do a convert_to_units anyway.
-            values = self.d
-            values *= self.cosmo_factor.a_factor
+            if self.cosmo_factor.a_factor != 1.0:
+                values = self._values_for_conversion()
+                values *= self.cosmo_factor.a_factor
             self.comoving = False
 
     def to_physical(
-- 
2.43.0


From 3e6848ccf1f0fffd6804216f6472f9d397805199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:32 +0000
Subject: [PATCH 17/75] fix: building an array from another does not convert
 the other's values

---
 swiftsimio/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index c430912..ab28b4e 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1192,6 +1192,9 @@ class cosmo_array(unyt_array):
                 # value across to avoid defaulting to None
                 obj.cosmo_factor = input_array.cosmo_factor
 
+            if comoving is not None and comoving != obj.comoving:
+                # convert a copy, the values are shared with input_array
+                obj = obj.copy().view(cls)
             if comoving is True:
                 obj.convert_to_comoving()
             elif comoving is False:
-- 
2.43.0


From fe3241151154c71e0483683bb93e836f16783581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 18/75] fix: building an array from another keeps whether it
 converts to comoving

---
 swiftsimio/objects.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index ab28b4e..b7aef58 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1083,7 +1083,7 @@ class cosmo_array(unyt_array):
         scale_factor: float | None = None,
         scale_exponent: float | None = None,
         comoving: bool = None,
-        valid_transform: bool = True,
+        valid_transform: bool | None = None,
         compression: str | None = None,
     ) -> "cosmo_array":
         """
@@ -1136,7 +1136,8 @@ class cosmo_array(unyt_array):
 
         valid_transform : bool
             Flag to indicate whether this array can be converted to comoving. If
-            ``False``, then ``comoving`` must be ``False`` (or ``None``).
+            ``False``, then ``comoving`` must be ``False`` (or ``None``). Defaults to that
+            of the input if it has one, otherwise ``True``.
 
         compression : str
             Description of the compression filters that were applied to that array in the
@@ -1158,7 +1159,7 @@ class cosmo_array(unyt_array):
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
                 obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
-            obj.valid_transform = valid_transform
+            obj.valid_transform = True if valid_transform is None else valid_transform
             obj.compression = compression
 
             return obj
@@ -1203,7 +1204,8 @@ class cosmo_array(unyt_array):
 
             # only overwrite valid_transform after transforming so that invalid
             # transformations raise:
-            obj.valid_transform = valid_transform
+            if valid_transform is not None:
+                obj.valid_transform = valid_transform
             _verify_valid_transform_validity(obj)
             obj.compression = (
                 compression if compression is not None else obj.compression
@@ -1221,6 +1223,7 @@ class cosmo_array(unyt_array):
                 scale_factor=scale_factor,
                 scale_exponent=scale_exponent,
             )
+            valid_transform = True if valid_transform is None else valid_transform
             valid_transform = valid_transform if comoving is not None else False
 
         elif _iterable(input_array):
@@ -1250,8 +1253,12 @@ class cosmo_array(unyt_array):
             compression = (
                 helper_result["compression"] if compression is None else compression
             )
-            # valid_transform has a non-None default, so we have to decide to always
-            # respect it, unless comoving is None
+            valid_transform = (
+                helper_result["valid_transform"]
+                if valid_transform is None
+                else valid_transform
+            )
+            # always respect valid_transform, unless comoving is None
             valid_transform = valid_transform if comoving is not None else default_vt
         else:
             # if the input isn't even iterable, this is an error
@@ -2438,7 +2445,7 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         scale_factor: float | None = None,
         scale_exponent: float | None = None,
         comoving: bool | None = None,
-        valid_transform: bool = True,
+        valid_transform: bool | None = None,
         compression: str | None = None,
     ) -> "cosmo_quantity":
         """
@@ -2489,7 +2496,8 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
 
         valid_transform : bool
             Flag to indicate whether this array can be converted to comoving. If
-            ``False``, then ``comoving`` must be ``False`` (or ``None``).
+            ``False``, then ``comoving`` must be ``False`` (or ``None``). Defaults to that
+            of the input if it has one, otherwise ``True``.
 
         compression : str
             Description of the compression filters that were applied to that array in the
-- 
2.43.0


From 411f549b909ed00f6ac921f14fe6a359c42592a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 19/75] fix: valid_transform of from_astropy and from_pint,
 scale_factor with bypass_validation

---
 swiftsimio/objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index b7aef58..7b7d24a 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1158,7 +1158,9 @@ class cosmo_array(unyt_array):
             obj.comoving = comoving
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                obj.cosmo_factor = _parse_cosmo_factor_args(
+                    scale_factor=scale_factor, scale_exponent=scale_exponent
+                )
             obj.valid_transform = True if valid_transform is None else valid_transform
             obj.compression = compression
 
@@ -1945,7 +1947,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
@@ -2007,7 +2009,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
-- 
2.43.0


From 13592c3f8e8ea044331f42b9fca5cff817d76fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 20/75] fix: convert the comoving operands when a mix of frames
 is made physical

When one operand cannot be converted to comoving, the others are converted
to physical. The condition selected the operands that were physical already,
so comoving operands were combined with physical ones unconverted.
---
 swiftsimio/_array_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..ca10770 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From ee3a7d5492ce406b832bf2d0fcada449c9af13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 21/75] fix: keep the compression of operands as it is, not
 paired with a flag

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index ca10770..4d4eb50 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -962,7 +962,7 @@ def _prepare_array_func_args(
     ret_vt = all(vts + list(kw_vts.values()))  # if any False, then False
     if len(set(comps + list(kw_comps.values()))) == 1:
         # all compressions identical, preserve it
-        ret_comp = (comps + list(kw_comps.values()))[0]
+        ret_comp = (comps + list(kw_comps.values()))[0][1]
     else:
         # mixed compressions, strip it off
         ret_comp = None
-- 
2.43.0


From 89fa46577f6766b35c1bfecb66c27a26788c071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 22/75] fix: refuse floor division of quantities whose
 scale-factor exponents differ

---
 swiftsimio/_array_functions.py | 37 ++++++++++++++++++++++++++++++++++
 swiftsimio/objects.py          |  3 ++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4d4eb50..0aabc99 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -598,6 +598,43 @@ def _divide_cosmo_factor(
     return _multiply_cosmo_factor(cf1, _reciprocal_cosmo_factor(cf2))
 
 
+def _floor_divide_cosmo_factor(
+    cf1: "objects.cosmo_factor", cf2: "objects.cosmo_factor", **kwargs: dict[str, Any]
+) -> "objects.cosmo_factor":
+    """
+    Floor-divide two :class:`~swiftsimio.objects.cosmo_factor`s.
+
+    Rounding the ratio is only meaningful if it does not depend on the scale factor, so
+    if both inputs have a :class:`~swiftsimio.objects.cosmo_factor` they must match.
+
+    Parameters
+    ----------
+    cf1 : swiftsimio.objects.cosmo_factor
+        Numerator :class:`~swiftsimio.objects.cosmo_factor`.
+
+    cf2 : swiftsimio.objects.cosmo_factor
+        Denominator :class:`~swiftsimio.objects.cosmo_factor`.
+
+    **kwargs : dict[str, Any]
+        Arbitrary kwargs.
+
+    Returns
+    -------
+    ~swiftsimio.objects.cosmo_factor
+        The ratio of the input :class:`~swiftsimio.objects.cosmo_factor`s.
+
+    Raises
+    ------
+    ValueError
+        If both inputs are provided and they do not match.
+    """
+    if (cf1 is not None) and (cf2 is not None) and cf1 != cf2:
+        raise ValueError(
+            f"Arguments have cosmo_factors that differ: {cf1} and {cf2}."
+        )
+    return _divide_cosmo_factor(cf1, cf2)
+
+
 def _reciprocal_cosmo_factor(
     cf: "objects.cosmo_factor", **kwargs: dict[str, Any]
 ) -> "objects.cosmo_factor":
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 7b7d24a..f90a2ee 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -113,6 +113,7 @@ from ._array_functions import (
     _square_cosmo_factor,
     _cbrt_cosmo_factor,
     _divide_cosmo_factor,
+    _floor_divide_cosmo_factor,
     _reciprocal_cosmo_factor,
     _passthrough_cosmo_factor,
     _return_without_cosmo_factor,
@@ -987,7 +988,7 @@ class cosmo_array(unyt_array):
         logaddexp: _return_without_cosmo_factor,
         logaddexp2: _return_without_cosmo_factor,
         true_divide: _divide_cosmo_factor,
-        floor_divide: _divide_cosmo_factor,
+        floor_divide: _floor_divide_cosmo_factor,
         negative: _passthrough_cosmo_factor,
         power: _power_cosmo_factor,
         remainder: _preserve_cosmo_factor,
-- 
2.43.0


From e6bf1787283f1e3c9e8fd754b017e1c1dc20771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 23/75] fix: the zeroth power of a quantity has no scale-factor
 dependence

---
 swiftsimio/objects.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index f90a2ee..598effc 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2401,6 +2401,31 @@ class cosmo_array(unyt_array):
         else:
             return super().__rmul__(b)
 
+    def __pow__(self, p: int | float, mod: None = None, /) -> "cosmo_array":
+        """
+        Raise this :class:`~swiftsimio.objects.cosmo_array` to a power.
+
+        We delegate to :mod:`unyt`, but it handles an exponent of zero without calling
+        the :mod:`numpy` function that processes our cosmology attributes.
+
+        Parameters
+        ----------
+        p : :obj:`int` or :obj:`float`
+            The exponent.
+
+        mod : None
+            Not supported, present for compatibility with the parent class.
+
+        Returns
+        -------
+        ~swiftsimio.objects.cosmo_array
+            This array raised to the power.
+        """
+        result = super().__pow__(p, mod)
+        if np.isscalar(p) and p == 0.0:
+            result.cosmo_factor = _power_cosmo_factor(self.cosmo_factor, None, power=0)
+        return result
+
 
 class cosmo_quantity(cosmo_array, unyt_quantity):
     """
-- 
2.43.0


From 3b9bb3e98c16eac4a0dfb656a5734a3f1100b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 24/75] fix: the quotient of divmod gets the ratio of the
 scale-factor dependences

---
 swiftsimio/objects.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 598effc..86981d2 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2177,10 +2177,10 @@ class cosmo_array(unyt_array):
                     )
                     for o in out
                 )
-                for o in out:
+                for o, o_cf in zip(out, ret_cfs):
                     if isinstance(o, cosmo_array):  # also recognizes cosmo_quantity
                         o.comoving = helper_result["comoving"]
-                        o.cosmo_factor = ret_cf
+                        o.cosmo_factor = o_cf
                         o.valid_transform = helper_result["valid_transform"]
                         o.compression = helper_result["compression"]
         return result
@@ -2248,11 +2248,17 @@ class cosmo_array(unyt_array):
             ufunc, method, *helper_result["args"], **helper_result["kwargs"]
         )
         # if we get a tuple we have multiple return values to deal with
+        # (alike, except that divmod returns a quotient followed by a remainder)
+        ret_cfs = (
+            (_divide_cosmo_factor(*cfs), ret_cf)
+            if ufunc is divmod_
+            else (ret_cf, ret_cf)
+        )
         if isinstance(result, tuple):
-            for r in result:
+            for r, r_cf in zip(result, ret_cfs):
                 if isinstance(r, cosmo_array):  # also recognizes cosmo_quantity
                     r.comoving = helper_result["comoving"]
-                    r.cosmo_factor = ret_cf
+                    r.cosmo_factor = r_cf
                     r.valid_transform = helper_result["valid_transform"]
                     r.compression = helper_result["compression"]
         elif isinstance(result, cosmo_array):  # also recognizes cosmo_quantity
@@ -2270,10 +2276,10 @@ class cosmo_array(unyt_array):
                     out.valid_transform = helper_result["valid_transform"]
                     out.compression = helper_result["compression"]
             else:
-                for o in out:
+                for o, o_cf in zip(out, ret_cfs):
                     if isinstance(o, cosmo_array):  # also recognizes cosmo_quantity
                         o.comoving = helper_result["comoving"]
-                        o.cosmo_factor = ret_cf
+                        o.cosmo_factor = o_cf
                         o.valid_transform = helper_result["valid_transform"]
                         o.compression = helper_result["compression"]
 
-- 
2.43.0


From 070ebae1e2dc567ca78cba457b7ad6eaf99f7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 25/75] fix: keyword operands without a comoving form are
 combined in the physical frame

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0aabc99..335c365 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -971,7 +971,7 @@ def _prepare_array_func_args(
     else:
         # mix of comoving and physical inputs
         if _default_cm:
-            for arg, cm in zip(args, cms):
+            for arg in list(args) + list(kwargs.values()):
                 # None is not the same as False here:
                 if getattr(arg, "valid_transform", None) is False:
                     _default_cm = False
-- 
2.43.0


From d7f629db0252fb9187b3b773d9f29ca02ace4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 26/75] fix: write results into the out argument itself when
 its frame differs from the operands'

---
 swiftsimio/_array_functions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 335c365..f965176 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -934,6 +934,16 @@ def _prepare_array_func_args(
     ValueError
         If the input arrays cannot be coerced to a consistent state of ``comoving``.
     """
+    if "out" in kwargs:
+        # what's in out is overwritten: it isn't an operand (and we mustn't convert a copy)
+        out = kwargs["out"]
+        ret = _prepare_array_func_args(
+            *args,
+            _default_cm=_default_cm,
+            **{k: kwarg for k, kwarg in kwargs.items() if k != "out"},
+        )
+        ret["kwargs"] = dict(ret["kwargs"], out=out)
+        return ret
     cms = [(hasattr(arg, "comoving"), getattr(arg, "comoving", None)) for arg in args]
     cfs = [getattr(arg, "cosmo_factor", None) for arg in args]
     vts = [getattr(arg, "valid_transform", True) for arg in args]
-- 
2.43.0


From b7e84bd7ff9e6e31d8986c942f5c9d2e27294f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 27/75] fix: check that the cosmo_factors match when joining
 arrays

---
 swiftsimio/_array_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index f965176..c801e7a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1310,13 +1310,15 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
             **helper_result["kwargs"],
         )
-        return _return_helper(res, helper_result_oplist, ret_cf)
+        return _return_helper(
+            res, helper_result_oplist, ret_cf, out=kwargs.get("out", None)
+        )
 
     return wrapper
 
-- 
2.43.0


From 17524a841ee97eb4d1c52c27ae243ed8f31767e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 28/75] fix: np.block keeps the cosmo_factor and accepts blocks
 without a comoving form

---
 swiftsimio/_array_functions.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index c801e7a..af66f3a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1632,26 +1632,31 @@ implements(np.stack)(_default_oplist_wrapper(unyt_stack))
 implements(np.around)(_default_unary_wrapper(unyt_around, _preserve_cosmo_factor))
 
 
-def _recursive_to_comoving(lst: list) -> list:
+def _recursive_to_frame(lst: list, comoving: bool) -> list:
     """
-    Recursively convert to comoving coordinates.
+    Recursively convert to comoving or physical coordinates.
 
     Parameters
     ----------
     lst : list[cosmo_array]
         List of arrays (possibly nested lists) to convert.
 
+    comoving : bool
+        Convert to comoving if ``True``, to physical otherwise.
+
     Returns
     -------
     list
-        Matching (nested) lists in comoving units.
+        Matching (nested) lists in comoving or physical units.
     """
     ret_lst = list()
     for item in lst:
         if isinstance(item, list):
-            ret_lst.append(_recursive_to_comoving(item))
-        else:
+            ret_lst.append(_recursive_to_frame(item, comoving))
+        elif comoving:
             ret_lst.append(item.to_comoving())
+        else:
+            ret_lst.append(item.to_physical())
     return ret_lst
 
 
@@ -1684,8 +1689,8 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     cms = [hr["comoving"] for hr in helper_results]
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
-    convert_to_cm = False
+    cfs = [hr["cfs"][0] for hr in helper_results]
+    convert_to_cm = convert_to_ph = False
     if all(cms):
         ret_cm = True
     elif all([cm is None for cm in cms]):
@@ -1699,8 +1704,8 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
         ret_cm = False
     else:
         # mix of True and False only
-        ret_cm = True
-        convert_to_cm = True
+        ret_cm = convert_to_cm = all(vts)
+        convert_to_ph = not convert_to_cm
     ret_vt = all(vts)
     if len(set(comps)) == 1:
         ret_comp = comps[0]
@@ -1710,8 +1715,8 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     for cf in cfs[1:]:
         if cf != ret_cf:
             raise ValueError("Mixed cosmo_factor values in input.")
-    if convert_to_cm:
-        ret_lst = _recursive_to_comoving(lst)
+    if convert_to_cm or convert_to_ph:
+        ret_lst = _recursive_to_frame(lst, comoving=convert_to_cm)
     else:
         ret_lst = lst
     return {
-- 
2.43.0


From d611eb2f19901778fd888fb95dfe7d61b4e3b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 29/75] fix: the variance has the square of the scale-factor
 dependence

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index af66f3a..d3704eb 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1880,7 +1880,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From 89807e7eefe89ff7dac90122378e0c7c61e7f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 30/75] fix: scale-factor dependence of determinants of stacked
 matrices

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index d3704eb..3f1f1a7 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1897,7 +1897,7 @@ implements(np.nanquantile)(
 @implements(np.linalg.det)
 def linalg_det(a):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a)
-    ret_cf = _power_cosmo_factor(helper_result["cfs"][0], None, power=a.shape[0])
+    ret_cf = _power_cosmo_factor(helper_result["cfs"][0], None, power=a.shape[-1])
     res = unyt_linalg_det(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
-- 
2.43.0


From d90f24c2ea611026c1a6221f3b25a5945a97137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 31/75] fix: keep the cosmology attributes of singular values

---
 swiftsimio/_array_functions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 3f1f1a7..f7e963e 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1378,9 +1378,17 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+
+
+@implements(np.linalg.svd)
+def linalg_svd(a, *args, **kwargs):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(a, *args, **kwargs)
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    res = unyt_linalg_svd(*helper_result["args"], **helper_result["kwargs"])
+    if isinstance(res, tuple):
+        # only the singular values have dimensions
+        return (res[0], _return_helper(res[1], helper_result, ret_cf), res[2])
+    return _return_helper(res, helper_result, ret_cf)
 
 
 @implements(np.histogram)
-- 
2.43.0


From ec3fb6166f07e4d5ea483ae2b607e4660036f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 32/75] fix: einsum multiplies the cosmo_factors of its
 operands

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index f7e963e..1b21de7 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2220,7 +2220,7 @@ def einsum(  # noqa numpydoc ignore=GL08
         optimize=optimize,
     )
     helper_result_operands = _prepare_array_func_args(*operands)
-    ret_cf = _preserve_cosmo_factor(*helper_result_operands["cfs"])
+    ret_cf = _multiply_cosmo_factor(*helper_result_operands["cfs"])
     res = unyt_einsum(
         helper_result["args"][0],
         *helper_result_operands["args"],
-- 
2.43.0


From c2cd7c2a96c612ad2d3c9c2e423fd1490d5bb416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 33/75] fix: np.where with a condition only raised IndexError

---
 swiftsimio/_array_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 1b21de7..717f4d6 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2186,8 +2186,7 @@ def clip(  # noqa numpydoc ignore=GL08
 def where(condition, *args):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(condition, *args)
     if len(args) == 0:  # just condition
-        ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return unyt_where(*helper_result["args"], **helper_result["kwargs"])
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From 9b7461707efab24dee6e61510bb2cb5780393fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 34/75] fix: np.choose and np.select bring their choices to a
 common frame

---
 swiftsimio/_array_functions.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 717f4d6..c869930 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1928,11 +1928,10 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
 
 @implements(np.choose)
 def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(a, helper_result_choices["args"], out=out, mode=mode)
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
@@ -2128,14 +2127,12 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-    helper_result_choicelist = _prepare_array_func_args(*choicelist)
-    ret_cf = _preserve_cosmo_factor(*helper_result_choicelist["cfs"])
-    res = unyt_select(
-        helper_result["args"][0],
-        helper_result_choicelist["args"],
-        **helper_result["kwargs"],
-    )
+    helper_result = _prepare_array_func_args(*choicelist, default=default)
+    cfs = helper_result["cfs"]
+    if isinstance(default, objects.cosmo_array):  # also recognizes cosmo_quantity
+        cfs = [*cfs, helper_result["kw_cfs"]["default"]]
+    ret_cf = _preserve_cosmo_factor(*cfs)
+    res = unyt_select(condlist, helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From 011eb7c34d1a9c935c1b75a1b4b9ab9bf0b8cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 35/75] fix: np.average gives the average and the sum of
 weights their own frames

---
 swiftsimio/_array_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index c869930..af0b635 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2324,25 +2324,25 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     # (https://github.com/numpy/numpy/pull/30522)
     # that means we no longer need any special handling here, but to support older
     # versions we need a patch.
-    helper_result = _prepare_array_func_args(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    helper_result = _prepare_array_func_args(a)
+    helper_result_weights = _prepare_array_func_args(weights)
     if NUMPY_VERSION < Version("2.4.1"):
         from unyt._array_functions import average as super_average
 
     else:
         super_average = np.average._implementation
 
+    # the weights don't need to be in the same frame as the data
     res = super_average(
         a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
     )
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-        ret_cf_wsum = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
+        ret_cf_wsum = _preserve_cosmo_factor(helper_result_weights["cfs"][0])
         return (
             _return_helper(avg, helper_result, ret_cf_avg),
-            _return_helper(wsum, helper_result, ret_cf_wsum),
+            _return_helper(wsum, helper_result_weights, ret_cf_wsum),
         )
     else:
         return _return_helper(res, helper_result, ret_cf_avg)
-- 
2.43.0


From a4bd697a29aa0fb0b1f7e4ba5ce845069ab10c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 36/75] fix: np.copyto, put, place, putmask etc. don't convert
 the source array in place

---
 swiftsimio/_array_functions.py | 107 ++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 50 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index af0b635..40ce5f5 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1846,20 +1846,46 @@ implements(np.geomspace)(
 )
 
 
+def _match_frame_of_target(dst: object, src: object) -> object:
+    """
+    Get values to be written into a target in the ``comoving`` state of the target.
+
+    The values are not modified. If they have no comoving form, neither has the target
+    from then on.
+
+    Parameters
+    ----------
+    dst : object
+        The target, that is about to be modified in-place.
+
+    src : object
+        The values to be written to the target.
+
+    Returns
+    -------
+    object
+        The values, converted (as a copy) if needed.
+    """
+    if not (
+        isinstance(src, objects.cosmo_array) and isinstance(dst, objects.cosmo_array)
+    ):
+        return src
+    if dst.comoving:
+        src = src.to_comoving()
+    elif dst.comoving is False:
+        src = src.to_physical()
+    dst.valid_transform = dst.valid_transform and src.valid_transform
+    return src
+
+
 @implements(np.copyto)
 def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(dst, src, casting=casting, where=where)
     if isinstance(src, objects.cosmo_array) and isinstance(dst, objects.cosmo_array):
         # if we're copyting across two
-        _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
+        _preserve_cosmo_factor(dst.cosmo_factor, src.cosmo_factor)
     # must pass dst directly here because it's modified in-place
-    if isinstance(src, objects.cosmo_array):
-        comoving = getattr(dst, "comoving", None)
-        if comoving:
-            src.convert_to_comoving()
-        elif comoving is False:
-            src.convert_to_physical()
-    unyt_copyto(dst, src, **helper_result["kwargs"])
+    src = _match_frame_of_target(dst, src)
+    unyt_copyto(dst, src, casting=casting, where=where)
 
 
 @implements(np.prod)
@@ -2050,15 +2076,12 @@ def apply_over_axes(func, a, axes):  # noqa numpydoc ignore=GL08
 
 @implements(np.fill_diagonal)
 def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, val, wrap=wrap)
-    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
+    _preserve_cosmo_factor(
+        getattr(a, "cosmo_factor", None), getattr(val, "cosmo_factor", None)
+    )
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
-    unyt_fill_diagonal(a, val, **helper_result["kwargs"])
+    val = _match_frame_of_target(a, val)
+    unyt_fill_diagonal(a, val, wrap=wrap)
 
 
 implements(np.isin)(_default_comparison_wrapper(unyt_isin))
@@ -2066,57 +2089,41 @@ implements(np.isin)(_default_comparison_wrapper(unyt_isin))
 
 @implements(np.place)
 def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(arr, mask, vals)
-    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
+    _preserve_cosmo_factor(
+        getattr(arr, "cosmo_factor", None), getattr(vals, "cosmo_factor", None)
+    )
     # must pass arr directly here because it's modified in-place
-    if isinstance(vals, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            vals.convert_to_comoving()
-        elif comoving is False:
-            vals.convert_to_physical()
+    vals = _match_frame_of_target(arr, vals)
     unyt_place(arr, mask, vals)
 
 
 @implements(np.put)
 def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, ind, v, mode=mode)
-    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
+    _preserve_cosmo_factor(
+        getattr(a, "cosmo_factor", None), getattr(v, "cosmo_factor", None)
+    )
     # must pass arr directly here because it's modified in-place
-    if isinstance(v, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            v.convert_to_comoving()
-        elif comoving is False:
-            v.convert_to_physical()
-    unyt_put(a, ind, v, **helper_result["kwargs"])
+    v = _match_frame_of_target(a, v)
+    unyt_put(a, ind, v, mode=mode)
 
 
 @implements(np.put_along_axis)
 def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(arr, indices, values, axis)
-    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
+    _preserve_cosmo_factor(
+        getattr(arr, "cosmo_factor", None), getattr(values, "cosmo_factor", None)
+    )
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+    values = _match_frame_of_target(arr, values)
     unyt_put_along_axis(arr, indices, values, axis)
 
 
 @implements(np.putmask)
 def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, mask, values)
-    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
+    _preserve_cosmo_factor(
+        getattr(a, "cosmo_factor", None), getattr(values, "cosmo_factor", None)
+    )
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+    values = _match_frame_of_target(a, values)
     unyt_putmask(a, mask, values)
 
 
-- 
2.43.0


From 858cb932b15ef4d1e6b41a12f0a87402811b1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 37/75] fix: np.average brings the data and the weights to a
 common frame

---
 swiftsimio/_array_functions.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 40ce5f5..3794b72 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2331,25 +2331,28 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     # (https://github.com/numpy/numpy/pull/30522)
     # that means we no longer need any special handling here, but to support older
     # versions we need a patch.
-    helper_result = _prepare_array_func_args(a)
-    helper_result_weights = _prepare_array_func_args(weights)
+    # the data and the weights are multiplied, so they need a common frame
+    helper_result = _prepare_array_func_args(a, weights=weights)
     if NUMPY_VERSION < Version("2.4.1"):
         from unyt._array_functions import average as super_average
 
     else:
         super_average = np.average._implementation
 
-    # the weights don't need to be in the same frame as the data
     res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
+        helper_result["args"][0],
+        axis=axis,
+        weights=helper_result["kwargs"]["weights"],
+        returned=returned,
+        keepdims=keepdims,
     )
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-        ret_cf_wsum = _preserve_cosmo_factor(helper_result_weights["cfs"][0])
+        ret_cf_wsum = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
         return (
             _return_helper(avg, helper_result, ret_cf_avg),
-            _return_helper(wsum, helper_result_weights, ret_cf_wsum),
+            _return_helper(wsum, helper_result, ret_cf_wsum),
         )
     else:
         return _return_helper(res, helper_result, ret_cf_avg)
-- 
2.43.0


From 7411df860123021dc5df4275986c4c5c6ee792c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 38/75] fix: limits of histograms need the cosmo_factor and the
 frame of the data

---
 swiftsimio/_array_functions.py | 80 ++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 3794b72..2e7f4a0 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -417,6 +417,29 @@ def _preserve_cosmo_factor(
     return reduce(__binary_preserve_cosmo_factor, cfs)
 
 
+def _check_matching_cosmo_factors(*objs: tuple[Any]) -> None:
+    """
+    Check that objects that get combined have the same ``cosmo_factor``.
+
+    Parameters
+    ----------
+    *objs : tuple[Any]
+        The objects to check. Those without a ``cosmo_factor`` are ignored.
+
+    Raises
+    ------
+    ValueError
+        If the :class:`~swiftsimio.objects.cosmo_factor`s of any of the objects differ.
+    """
+    cfs = [getattr(obj, "cosmo_factor", None) for obj in objs]
+    cfs = [cf for cf in cfs if cf is not None]
+    for cf in cfs[1:]:
+        if cf != cfs[0]:
+            raise ValueError(
+                f"Arguments have cosmo_factors that differ: {cfs[0]} and {cf}."
+            )
+
+
 def __binary_preserve_cosmo_factor(
     cf1: "objects.cosmo_factor", cf2: "objects.cosmo_factor", **kwargs: dict[str, Any]
 ) -> "objects.cosmo_factor":
@@ -1349,6 +1372,43 @@ implements(np.outer)(_default_binary_wrapper(unyt_outer, _multiply_cosmo_factor)
 implements(np.kron)(_default_binary_wrapper(unyt_kron, _multiply_cosmo_factor))
 
 
+def _prepare_histogram_limits(a: object, bins: object, range: object) -> tuple:
+    """
+    Prepare the bins and range of a histogram for comparison with the data.
+
+    They need to have the same ``cosmo_factor`` as the data. Values in the range given as
+    several :class:`~swiftsimio.objects.cosmo_quantity` are collected in a single
+    :class:`~swiftsimio.objects.cosmo_array` so that they get converted together with
+    other arguments. The bins are copied (if there are arrays of edges), so that returned
+    edges are not the same object as the input.
+
+    Parameters
+    ----------
+    a : object
+        The data for the histogram.
+
+    bins : object
+        Number of bins, or their edges.
+
+    range : object
+        The lower and upper limits, or ``None``.
+
+    Returns
+    -------
+    tuple
+        The bins and the range.
+    """
+    if isinstance(bins, objects.cosmo_array):
+        bins = bins.copy()
+    if isinstance(range, (tuple, list)) and all(
+        isinstance(limit, objects.cosmo_array) for limit in range
+    ):
+        _check_matching_cosmo_factors(*range)
+        range = objects.cosmo_array(range)
+    _check_matching_cosmo_factors(a, bins, range)
+    return bins, range
+
+
 @implements(np.histogram_bin_edges)
 def histogram_bin_edges(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -1356,16 +1416,15 @@ def histogram_bin_edges(  # noqa: ANN202
     range=None,  # noqa: ANN001
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
+    bins, range = _prepare_histogram_limits(a, bins, range)
     helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
-    if not isinstance(bins, str) and np.ndim(bins) == 1:
-        # we got bin edges as input
-        ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
-    else:
-        # bins based on values in a
-        ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
-        )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    (a,), kwargs = helper_result["args"], helper_result["kwargs"]
+    # unyt attaches the units of the data to the edges without converting limits to them
+    for k in ("bins", "range"):
+        if hasattr(kwargs[k], "units") and hasattr(a, "units"):
+            kwargs[k] = kwargs[k].to_value(a.units)
+    res = unyt_histogram_bin_edges(a, **kwargs)
     return _return_helper(res, helper_result, ret_cf)
 
 
@@ -1399,6 +1458,7 @@ def histogram(  # noqa: ANN202
     density=None,  # noqa: ANN001
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
+    bins, range = _prepare_histogram_limits(a, bins, range)
     helper_result = _prepare_array_func_args(
         a, bins=bins, range=range, density=density, weights=weights
     )
@@ -1443,6 +1503,8 @@ def histogram2d(  # noqa: ANN202
         xbins = ybins = bins
     elif N == 2:
         xbins, ybins = bins
+    xbins, xrange = _prepare_histogram_limits(x, xbins, xrange)
+    ybins, yrange = _prepare_histogram_limits(y, ybins, yrange)
     helper_result_x = _prepare_array_func_args(x, bins=xbins, range=xrange)
     helper_result_y = _prepare_array_func_args(y, bins=ybins, range=yrange)
     if not density:
-- 
2.43.0


From 0096fe87d92624bd727c84d6225f1d752864f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 39/75] fix: attributes of the edges of density histograms in
 several dimensions

---
 swiftsimio/_array_functions.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 2e7f4a0..d971c47 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1584,6 +1584,8 @@ def histogram2d(  # noqa: ANN202
             counts.cosmo_factor = ret_cf_counts
             counts.valid_transform = helper_result["valid_transform"]
             counts.compression = helper_result["compression"]
+        # the samples were brought to a common frame, and so are the edges
+        helper_result_x = helper_result_y = helper_result
     return (
         counts,
         _return_helper(xbins, helper_result_x, ret_cf_x),
@@ -1610,6 +1612,13 @@ def histogramdd(  # noqa: ANN202
     except TypeError:
         # bins is an integer
         bins = D * [bins]
+    bins, ranges = zip(
+        *(
+            _prepare_histogram_limits(s, b, r)
+            for s, b, r in zip(sample, bins, ranges, strict=True)
+        ),
+        strict=True,
+    )
     helper_results = [
         _prepare_array_func_args(s, bins=b, range=r)
         for s, b, r in zip(sample, bins, ranges)
@@ -1650,20 +1659,19 @@ def histogramdd(  # noqa: ANN202
         # now sample and weights must be compatible because they will combine
         # we unpack input to the helper to get everything checked for compatibility
         helper_result = _prepare_array_func_args(
-            *sample, bins=bins, range=range, weights=weights
+            *sample, *bins, *ranges, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        # each sample has edges with its own cosmo_factor
+        ret_cfs = helper_result["cfs"][:D]
         counts, bins = unyt_histogramdd(
-            helper_result["args"],
-            bins=helper_result["kwargs"]["bins"],
-            range=helper_result["kwargs"]["range"],
+            helper_result["args"][:D],
+            bins=helper_result["args"][D : 2 * D],
+            range=None if range is None else helper_result["args"][2 * D :],
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-        if len(helper_result["cfs"]) == 1:
-            ret_cf_sample = _preserve_cosmo_factor(helper_result["cfs"][0])
-        else:
-            ret_cf_sample = _multiply_cosmo_factor(*helper_result["cfs"])
+        helper_results = D * [helper_result]
+        ret_cf_sample = _multiply_cosmo_factor(*ret_cfs)
         if weights is not None:
             ret_cf_w = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
             inv_ret_cf_sample = _reciprocal_cosmo_factor(ret_cf_sample)
-- 
2.43.0


From 5aafaa860813cc5ae1a2166646a1a3c91d153c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 40/75] fix: compare cosmo_factors by their dependence on the
 scale factor

---
 swiftsimio/objects.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 86981d2..b56147c 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -785,17 +785,17 @@ class cosmo_factor(object):
         if not isinstance(b, cosmo_factor):
             raise ValueError("Can only compare cosmo_factor with another cosmo_factor.")
         scale_factor_match = self.scale_factor == b.scale_factor
-        if self.a_factor is None and b.a_factor is None:
-            # guards passing None to isclose
-            a_factor_match = True
-        elif self.a_factor is None or b.a_factor is None:
+        if self.expr is None and b.expr is None:
+            expr_match = True
+        elif self.expr is None or b.expr is None:
             # we know they're not both None from previous case
-            a_factor_match = False
-        elif np.isclose(self.a_factor, b.a_factor, rtol=1e-6):
-            a_factor_match = True
+            expr_match = False
         else:
-            a_factor_match = False
-        return scale_factor_match and a_factor_match
+            # compare away from a=1, where all powers of the scale factor coincide, and
+            # not at small a, where values of different powers are absolutely close
+            ratio = sympy.sympify(self.expr / b.expr).subs(a, 0.5)
+            expr_match = np.isclose(float(ratio), 1.0, rtol=1e-6, atol=0)
+        return bool(scale_factor_match and expr_match)
 
     def __ne__(self, b: "cosmo_factor") -> bool:
         """
-- 
2.43.0


From 94c59bbdefb4216eb607f574dc9a53b2a08d2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 41/75] fix: np.interp, np.pad and np.digitize check the
 cosmo_factors of their arguments

---
 swiftsimio/_array_functions.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index d971c47..f8e250a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -98,6 +98,7 @@ from unyt._array_functions import (
     put_along_axis as unyt_put_along_axis,
     putmask as unyt_putmask,
     searchsorted as unyt_searchsorted,
+    digitize as unyt_digitize,
     select as unyt_select,
     setdiff1d as unyt_setdiff1d,
     sinc as unyt_sinc,
@@ -2017,6 +2018,9 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
     helper_result = _prepare_array_func_args(array, pad_width, mode=mode, **kwargs)
     # the number of options is huge, including user defined functions to handle data
     # let's just preserve the cosmo_factor of the input `array` and trust the user...
+    # except for values that are put in the array
+    for k in ("constant_values", "end_values"):
+        _check_matching_cosmo_factors(array, kwargs.get(k, None))
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
     res = unyt_pad(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
@@ -2202,6 +2206,13 @@ implements(np.searchsorted)(
 )
 
 
+@implements(np.digitize)
+def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
+    _check_matching_cosmo_factors(x, bins)
+    helper_result = _prepare_array_func_args(x, bins, right=right)
+    return unyt_digitize(*helper_result["args"], **helper_result["kwargs"])
+
+
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(*choicelist, default=default)
@@ -2333,6 +2344,8 @@ def unwrap(  # noqa: ANN202
 
 @implements(np.interp)
 def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc ignore=GL08
+    _check_matching_cosmo_factors(x, xp, period)
+    _check_matching_cosmo_factors(fp, left, right)
     helper_result = _prepare_array_func_args(
         x, xp, fp, left=left, right=right, period=period
     )
-- 
2.43.0


From 6c095080ad75e839f5830bc61be130526f101538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 42/75] fix: ranges with units for histograms in several
 dimensions

---
 swiftsimio/_array_functions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index f8e250a..139e5d4 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1517,9 +1517,10 @@ def histogram2d(  # noqa: ANN202
         ):
             safe_range = None
         else:
+            # unyt expects the limits in a flat sequence
             safe_range = (
-                helper_result_x["kwargs"]["range"],
-                helper_result_y["kwargs"]["range"],
+                *helper_result_x["kwargs"]["range"],
+                *helper_result_y["kwargs"]["range"],
             )
         counts, xbins, ybins = unyt_histogram2d(
             helper_result_x["args"][0],
@@ -1559,8 +1560,8 @@ def histogram2d(  # noqa: ANN202
             safe_range = None
         else:
             safe_range = (
-                helper_result["kwargs"]["xrange"],
-                helper_result["kwargs"]["yrange"],
+                *helper_result["kwargs"]["xrange"],
+                *helper_result["kwargs"]["yrange"],
             )
         counts, xbins, ybins = unyt_histogram2d(
             helper_result["args"][0],
@@ -1639,7 +1640,9 @@ def histogramdd(  # noqa: ANN202
             safe_range = None
         else:
             safe_range = [
-                helper_result["kwargs"]["range"] for helper_result in helper_results
+                limit
+                for helper_result in helper_results
+                for limit in helper_result["kwargs"]["range"]
             ]
         counts, bins = unyt_histogramdd(
             [helper_result["args"][0] for helper_result in helper_results],
@@ -1667,7 +1670,11 @@ def histogramdd(  # noqa: ANN202
         counts, bins = unyt_histogramdd(
             helper_result["args"][:D],
             bins=helper_result["args"][D : 2 * D],
-            range=None if range is None else helper_result["args"][2 * D :],
+            range=(
+                None
+                if range is None
+                else [limit for r in helper_result["args"][2 * D :] for limit in r]
+            ),
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-- 
2.43.0


From bcb41658e6c1c1d5dc4aee5d0b29bd61e2614399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 43/75] fix: values already in the frame of the target are
 written as they are

---
 swiftsimio/_array_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 139e5d4..1c4e2b7 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1948,9 +1948,9 @@ def _match_frame_of_target(dst: object, src: object) -> object:
         isinstance(src, objects.cosmo_array) and isinstance(dst, objects.cosmo_array)
     ):
         return src
-    if dst.comoving:
+    if dst.comoving and not src.comoving:
         src = src.to_comoving()
-    elif dst.comoving is False:
+    elif dst.comoving is False and src.comoving is not False:
         src = src.to_physical()
     dst.valid_transform = dst.valid_transform and src.valid_transform
     return src
-- 
2.43.0


From da9c62c4b3748454a73947104a56c6a450d71676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 44/75] fix: functions of cosmo_array and unyt_array operands
 keep the cosmology attributes

---
 swiftsimio/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index b56147c..3c0bab3 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2336,7 +2336,10 @@ class cosmo_array(unyt_array):
             # leaving other arguments a chance to take the lead
             return NotImplemented
 
-        if not all(issubclass(t, cosmo_array) or t is np.ndarray for t in types):
+        if not all(
+            issubclass(t, cosmo_array) or t in (np.ndarray, unyt_array, unyt_quantity)
+            for t in types
+        ):
             # Note: this allows subclasses that don't override
             # __array_function__ to handle cosmo_array objects
             return NotImplemented
-- 
2.43.0


From 7335244578d3142ef207b248f490df3142b41cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 45/75] fix: tolerances and end points need the cosmo_factor of
 the arrays they are used with

---
 swiftsimio/_array_functions.py | 40 ++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 1c4e2b7..eb09acf 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1865,8 +1865,22 @@ implements(np.fft.ifftshift)(
 implements(np.sort_complex)(
     _default_unary_wrapper(unyt_sort_complex, _preserve_cosmo_factor)
 )
-implements(np.isclose)(_default_comparison_wrapper(unyt_isclose))
-implements(np.allclose)(_default_comparison_wrapper(unyt_allclose))
+@implements(np.isclose)
+def isclose(a, b, rtol=1.0e-5, atol=1.0e-8, equal_nan=False):  # noqa numpydoc ignore=GL08
+    _check_matching_cosmo_factors(a, b, atol)
+    return _default_comparison_wrapper(unyt_isclose)(
+        a, b, rtol=rtol, atol=atol, equal_nan=equal_nan
+    )
+
+
+@implements(np.allclose)
+def allclose(a, b, rtol=1.0e-5, atol=1.0e-8, equal_nan=False):  # noqa numpydoc ignore=GL08
+    _check_matching_cosmo_factors(a, b, atol)
+    return _default_comparison_wrapper(unyt_allclose)(
+        a, b, rtol=rtol, atol=atol, equal_nan=equal_nan
+    )
+
+
 implements(np.array_equal)(_default_comparison_wrapper(unyt_array_equal))
 implements(np.array_equiv)(_default_comparison_wrapper(unyt_array_equiv))
 
@@ -2014,8 +2028,26 @@ def linalg_det(a):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-implements(np.diff)(_default_unary_wrapper(unyt_diff, _preserve_cosmo_factor))
-implements(np.ediff1d)(_default_unary_wrapper(unyt_ediff1d, _preserve_cosmo_factor))
+
+
+@implements(np.diff)
+def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):  # noqa numpydoc ignore=GL08
+    _check_matching_cosmo_factors(a, prepend, append)
+    return _default_unary_wrapper(unyt_diff, _preserve_cosmo_factor)(
+        a, n=n, axis=axis, prepend=prepend, append=append
+    )
+
+
+
+
+@implements(np.ediff1d)
+def ediff1d(ary, to_end=None, to_begin=None):  # noqa numpydoc ignore=GL08
+    _check_matching_cosmo_factors(ary, to_end, to_begin)
+    return _default_unary_wrapper(unyt_ediff1d, _preserve_cosmo_factor)(
+        ary, to_end=to_end, to_begin=to_begin
+    )
+
+
 implements(np.ptp)(_default_unary_wrapper(unyt_ptp, _preserve_cosmo_factor))
 # implements(np.cumprod)(...) Omitted because unyt just raises if called.
 
-- 
2.43.0


From 55e7731dd4a07348a0d5b40bf9c7899220410576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 46/75] fix: wrapping coordinates for images does not alter the
 coordinates of the data set

---
 swiftsimio/visualisation/_vistools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..f267257 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,7 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 1d268bd411777224f359d45b0b0ddb704b530196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 47/75] fix: statistics files without rows, with blank lines or
 a single space before the names can be read

---
 swiftsimio/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index 8ba615c..ea41bab 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -50,7 +50,7 @@ class SWIFTStatisticsFile(object):
         regex_name = re.compile(r"# \(([0-9]*)\) +([^\.\n]*)")
         regex_unit = re.compile(r"# *Unit = ([^\s]+) ?(.*)")
 
-        while lines[current_line].startswith("#"):
+        while current_line < len(lines) and lines[current_line].startswith("#"):
             # Regex match each line to see if it is a unit
             # or a name
 
@@ -81,7 +81,7 @@ class SWIFTStatisticsFile(object):
         # The last line will be the names, so extract those here.
         header_snake_case_names = [
             x.replace(".", "").replace(" ", "_").replace("\n", "").lower()
-            for x in re.split(r"\s{2,}", lines[current_line - 1][1:])
+            for x in re.split(r"\s{2,}", lines[current_line - 1][1:].strip())
             if x != ""
         ]
 
@@ -89,7 +89,7 @@ class SWIFTStatisticsFile(object):
         self.header_units = header_units
         self.header_snake_case_names = header_snake_case_names
 
-        self.raw_lines = lines[current_line:]
+        self.raw_lines = [line for line in lines[current_line:] if line.strip()]
 
         return
 
-- 
2.43.0


From 0b799350a368d4f3aace2d91328aa0a890a8e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 48/75] fix: columns of statistics files that share a
 description keep their own units

---
 swiftsimio/statistics.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index ea41bab..dcead60 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -44,6 +44,8 @@ class SWIFTStatisticsFile(object):
 
         header_names = []
         header_units = {}
+        # Several columns may share the same description.
+        column_units = []
         current_name = None
 
         # Regex for matching
@@ -63,12 +65,13 @@ class SWIFTStatisticsFile(object):
                 current_name = name_match.group(2)
                 header_units[current_name] = unyt.dimensionless
                 header_names.append(current_name)
+                column_units.append(unyt.dimensionless)
 
                 continue
 
             unit_match = regex_unit.match(current_string)
 
-            if unit_match:
+            if unit_match and column_units:
                 if unit_match.group(1) != "dimensionless":
                     header_units[current_name] = unyt.unyt_quantity(
                         float(unit_match.group(1)), unit_match.group(2)
@@ -76,6 +79,8 @@ class SWIFTStatisticsFile(object):
                 else:
                     header_units[current_name] = unyt.dimensionless
 
+                column_units[-1] = header_units[current_name]
+
                 continue
 
         # The last line will be the names, so extract those here.
@@ -87,6 +92,7 @@ class SWIFTStatisticsFile(object):
 
         self.header_names = header_names
         self.header_units = header_units
+        self._column_units = column_units
         self.header_snake_case_names = header_snake_case_names
 
         self.raw_lines = [line for line in lines[current_line:] if line.strip()]
@@ -97,15 +103,16 @@ class SWIFTStatisticsFile(object):
         """Process the raw string lines read out of the header."""
         arrays = list_of_strings_to_arrays(lines=self.raw_lines)
 
-        for array, header_name, header_snake_case_name in zip(
-            arrays, self.header_names, self.header_snake_case_names
+        for array, header_name, units, header_snake_case_name in zip(
+            arrays,
+            self.header_names,
+            self._column_units,
+            self.header_snake_case_names,
         ):
             setattr(
                 self,
                 header_snake_case_name,
-                unyt.unyt_array(
-                    array, units=self.header_units[header_name], name=header_name
-                ),
+                unyt.unyt_array(array, units=units, name=header_name),
             )
 
         return
-- 
2.43.0


From e4f96c1bc7b9db45fef4d4610e951b877ca43d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 49/75] fix: the type of a statistics file's column is decided
 by all of its values

---
 swiftsimio/accelerated.py | 25 +++++++++----------------
 swiftsimio/statistics.py  |  7 ++++++-
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index c3b18c5..d81c3d8 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -4,6 +4,8 @@ Define functions that can be accelerated by numba.
 Numba does not use classes, unfortunately.
 """
 
+from itertools import zip_longest
+
 import numpy as np
 
 from h5py._hl.dataset import Dataset
@@ -557,24 +559,15 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
     -----
     Currently not suitable for :mod:`numba` acceleration due to mixed datatype usage.
     """
-    # Calculate types and set up arrays.
-
+    # A column contains integers only if all of its values are integers.
     arrays = []
-    dtypes = []
-    number_of_lines = len(lines)
-
-    for item in lines[0].split():
-        if "." in item or "e" in item:
-            dtype = np.float64
-        else:
-            dtype = np.int64
-
-        dtypes.append(dtype)
 
-        arrays.append(np.zeros(number_of_lines, dtype=dtype))
+    for column in zip_longest(*(line.split() for line in lines), fillvalue="0"):
+        try:
+            array = np.array([int(value) for value in column], dtype=np.int64)
+        except (ValueError, OverflowError):
+            array = np.array([float(value) for value in column], dtype=np.float64)
 
-    for index, line in enumerate(lines):
-        for dtype, (array, value) in zip(dtypes, enumerate(line.split())):
-            arrays[array][index] = dtype(value)
+        arrays.append(array)
 
     return arrays
diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index dcead60..70630bc 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -1,5 +1,6 @@
 """Reader for the statistics file."""
 
+import numpy as np
 import unyt
 import re
 
@@ -101,7 +102,11 @@ class SWIFTStatisticsFile(object):
 
     def _process_raw_lines(self) -> None:
         """Process the raw string lines read out of the header."""
-        arrays = list_of_strings_to_arrays(lines=self.raw_lines)
+        if self.raw_lines:
+            arrays = list_of_strings_to_arrays(lines=self.raw_lines)
+        else:
+            # No output has been written yet.
+            arrays = [np.zeros(0) for _ in self.header_names]
 
         for array, header_name, units, header_snake_case_name in zip(
             arrays,
-- 
2.43.0


From 5ef6fde5debc91434260d42364edb33fb8d00bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 50/75] fix: particles at the edges of the box are deposited
 inside the mesh

---
 swiftsimio/visualisation/power_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..4d0ad1c 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -89,10 +89,11 @@ def deposit(
         y_pos_scaled = (y_pos % box_over_fold_y) * inv_box_over_fold_y
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
-        # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        # Convert to grid position. The scaled positions can round up to 1, which is
+        # the same place as 0.
+        x_pix = np.int32(x_pos_scaled * float_res) % res
+        y_pix = np.int32(y_pos_scaled * float_res) % res
+        z_pix = np.int32(z_pos_scaled * float_res) % res
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From 30ec1d5ff2e64fd672b64ce5f5ac35823a6bd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 51/75] fix: the box of a deposition is in the frame of the
 positions

---
 swiftsimio/visualisation/power_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 4d0ad1c..5089efc 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -242,6 +242,9 @@ def render_to_deposit(
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
 
+    # The box has to be in the same frame as the positions
+    boxsize = boxsize.to_comoving() if positions.comoving else boxsize.to_physical()
+
     # Deposit the particles
     arguments = dict(
         x=positions[:, 0].v,
@@ -263,10 +266,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From a61a7fcd6587c1097bc867e1a1a2489972622659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 52/75] fix: projections of regions that are not square have
 the right normalisation

---
 swiftsimio/visualisation/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..96d9c87 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,8 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    # the backends make square images, so the pixels are max_range / resolution wide
+    norm = region_info["max_range"] ** 2
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From e2149b3d514d1e07042159664a6e8ecf753b54de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 53/75] fix: no rotation is needed to look along the axis of
 the projection

---
 swiftsimio/visualisation/rotation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..88cffc9 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -45,17 +45,18 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
 
     cross_product = np.cross(original_direction, normed_vector)
     mod_cross_product = np.linalg.norm(cross_product)
-    cross_product = cross_product / mod_cross_product
+    cos_theta = np.dot(original_direction, normed_vector)
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+
+        if cos_theta < 0.0:
+            # We point the vector in the exact opposite direction (e.g. flip z).
+            output[switch[axis], switch[axis]] = -1.0
 
         return output
     else:
-        cos_theta = np.dot(original_direction, normed_vector)
+        cross_product = cross_product / mod_cross_product
         sin_theta = np.sin(np.arccos(cos_theta))
 
         # Skew symmetric matrix for cross product
-- 
2.43.0


From 4c7cd30aef88b995365faaa3553b98637df90088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 54/75] fix: volume renders and slices visit all of the cells
 that a kernel overlaps

---
 swiftsimio/visualisation/slice_backends/sph.py     |  7 +++++--
 .../volume_render_backends/scatter.py              | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..66f1057 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,9 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(
+                            particle_cell_x + cells_spanned + 1, maximal_array_index + 1
+                        ),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +211,8 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             distance_y = (
diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..1e5d795 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,8 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +189,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +200,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +402,8 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +416,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +427,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From b127559242b23f7dd5deb0d033276ab2c5c31b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 55/75] fix: the renormalised backend normalises over all of
 the cells it deposits in

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From 3c57c27994187d50ac9b9d7c07c8bf2a6a34f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 56/75] fix: small kernels in the subsampled backends overlap
 pixels to both sides

---
 .../visualisation/projection_backends/subsampled.py       | 8 ++++----
 .../projection_backends/subsampled_extreme.py             | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..d2dd7fb 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
@@ -204,7 +204,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -220,7 +220,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..2be1de7 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
@@ -205,7 +205,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -221,7 +221,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
-- 
2.43.0


From 97d75795fa51c026a7885c76046e672f099b5190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 57/75] fix: rounding does not add a pixel to images of regions
 that are not square

---
 swiftsimio/visualisation/_vistools.py  | 27 ++++++++++++++++++++++++++
 swiftsimio/visualisation/projection.py |  8 ++------
 swiftsimio/visualisation/slice.py      |  4 ++--
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index f267257..5503ba5 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -121,6 +121,33 @@ def _get_region_info(
     }
 
 
+def _get_effective_resolution(resolution: int, region_info: dict) -> tuple[int, int]:
+    """
+    Determine the effective number of pixels for each dimension.
+
+    Parameters
+    ----------
+    resolution : int
+        The number of pixels along the longer side of the image.
+
+    region_info : dict
+        The region information from :func:`_get_region_info`.
+
+    Returns
+    -------
+    tuple[int, int]
+        The number of pixels along the x and y axes.
+    """
+    # the ratio is only known to within rounding, don't let that add a pixel
+    return tuple(
+        int(np.ceil(np.round(float(resolution * (axis_range / max_range)), 6)))
+        for axis_range, max_range in (
+            (region_info["x_range"], region_info["max_range"]),
+            (region_info["y_range"], region_info["max_range"]),
+        )
+    )
+
+
 def _get_rotated_and_wrapped_coordinates(
     data: __SWIFTGroupDataset,
     rotation_matrix: np.ndarray,
diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 96d9c87..e5fecb9 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -7,6 +7,7 @@ from swiftsimio.reader import __SWIFTGroupDataset
 from swiftsimio.visualisation.projection_backends import backends, backends_parallel
 from swiftsimio.visualisation.smoothing_length import backends_get_hsml
 from swiftsimio.visualisation._vistools import (
+    _get_effective_resolution,
     _get_projection_field,
     _get_region_info,
     _get_rotated_and_wrapped_coordinates,
@@ -152,12 +153,7 @@ def project_pixel_grid(
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
     # determine the effective number of pixels for each dimension
-    xres = int(
-        np.ceil(resolution * (region_info["x_range"] / region_info["max_range"]))
-    )
-    yres = int(
-        np.ceil(resolution * (region_info["y_range"] / region_info["max_range"]))
-    )
+    xres, yres = _get_effective_resolution(resolution, region_info)
 
     # trim the image to remove empty pixels
     return image[:xres, :yres]
diff --git a/swiftsimio/visualisation/slice.py b/swiftsimio/visualisation/slice.py
index df58b8f..79e213b 100644
--- a/swiftsimio/visualisation/slice.py
+++ b/swiftsimio/visualisation/slice.py
@@ -6,6 +6,7 @@ from swiftsimio.reader import __SWIFTGroupDataset
 from swiftsimio.visualisation.slice_backends import backends, backends_parallel
 from swiftsimio.visualisation.smoothing_length import backends_get_hsml
 from swiftsimio.visualisation._vistools import (
+    _get_effective_resolution,
     _get_projection_field,
     _get_region_info,
     _get_rotated_and_wrapped_coordinates,
@@ -117,8 +118,7 @@ def slice_pixel_grid(
     mask = mask if mask is not None else np.s_[...]
 
     # determine the effective number of pixels for each dimension
-    xres = int(np.ceil(resolution * region_info["x_range"] / region_info["max_range"]))
-    yres = int(np.ceil(resolution * region_info["y_range"] / region_info["max_range"]))
+    xres, yres = _get_effective_resolution(resolution, region_info)
 
     normed_x = (x[mask] - region_info["x_min"]) / region_info["max_range"]
     normed_y = (y[mask] - region_info["y_min"]) / region_info["max_range"]
-- 
2.43.0


From 13d563f0261c4eb5cacade0d4c695dd68b327643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 58/75] fix: projections through the whole depth of the box do
 not depend on rounding

---
 swiftsimio/visualisation/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index e5fecb9..9ed222b 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -110,11 +110,14 @@ def project_pixel_grid(
     mask = mask if mask is not None else np.s_[...]
     if region_info["region_includes_z"]:
         if periodic:
-            if region_info["z_range"] > data.metadata.boxsize[2]:
+            if np.isclose(region_info["z_range"], data.metadata.boxsize[2]):
+                # the whole depth of the box, don't let rounding decide what is inside
+                z_mask = np.ones(z.shape, dtype=bool)
+            elif region_info["z_range"] > data.metadata.boxsize[2]:
                 raise ValueError(
                     "Projection depth of more than the box depth is not supported."
                 )
-            if (region_info["z_max"] % data.metadata.boxsize[2]) <= (
+            elif (region_info["z_max"] % data.metadata.boxsize[2]) <= (
                 region_info["z_min"] % data.metadata.boxsize[2]
             ):
                 z_mask = np.logical_or(
-- 
2.43.0


From 736d1eb0cdbfcd7b4f40cc24026b86113b235d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 59/75] fix: looking along the opposite direction is a
 rotation, not a reflection

---
 swiftsimio/visualisation/rotation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index 88cffc9..e7a4e85 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -51,8 +51,10 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
         output = np.identity(3)
 
         if cos_theta < 0.0:
-            # We point the vector in the exact opposite direction (e.g. flip z).
+            # We point the vector in the exact opposite direction: half a turn about
+            # another axis (flipping one axis alone would be a reflection).
             output[switch[axis], switch[axis]] = -1.0
+            output[(switch[axis] + 1) % 3, (switch[axis] + 1) % 3] = -1.0
 
         return output
     else:
-- 
2.43.0


From 4881c4cf560303d12ee9829120737139a3cfdbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 60/75] fix: stitched power spectra scale as a volume

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 5089efc..16e372f 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -388,7 +388,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From 678a7886b651bc1f69ac6a815f3a531c10597404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 61/75] fix: stitch power spectra when a fold has too few modes
 in every bin

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 16e372f..444b26a 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -432,7 +432,7 @@ def folded_depositions_to_power_spectrum(
                 2.0**folding * np.min(depositions[folding].shape) / np.min(boxsize)
             )
 
-            if cutoff_above_wavenumber_fraction is not None:
+            if cutoff_above_wavenumber_fraction is not None and np.any(use_bins):
                 maximally_sampled_wavenumber = np.max(
                     folded_wavenumber_centers[use_bins]
                 )
-- 
2.43.0


From 995daededa626400a542d18cb4bab97f81a9f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 62/75] fix: stitched power spectra convert between frames

---
 swiftsimio/visualisation/power_spectrum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 444b26a..5e9acc9 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -452,10 +452,15 @@ def folded_depositions_to_power_spectrum(
             # bins wins.
             prefer_bins = np.logical_and(folded_counts > contributed_counts, use_bins)
 
-            power_spectrum[prefer_bins] = folded_power_spectrum[prefer_bins]
+            power_spectrum[prefer_bins] = folded_power_spectrum[prefer_bins].to(
+                power_spectrum.units, comoving=power_spectrum.comoving
+            )
             corrected_wavenumber_centers[prefer_bins] = folded_wavenumber_centers[
                 prefer_bins
-            ].to(corrected_wavenumber_centers.units)
+            ].to(
+                corrected_wavenumber_centers.units,
+                comoving=corrected_wavenumber_centers.comoving,
+            )
             folding_tracker[prefer_bins] = 2.0**folding
 
             contributed_counts[prefer_bins] = folded_counts[prefer_bins]
-- 
2.43.0


From 972efdbfb141bd0147f27115bf9826c56b51d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 63/75] fix: smoothing lengths are generated with the box in
 the frame of the coordinates

---
 swiftsimio/visualisation/smoothing_length/generate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..fa7b919 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,11 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    # The box edges must be in the same frame as the coordinates.
+    if isinstance(coordinates, cosmo_array) and isinstance(boxsize, cosmo_array):
+        if coordinates.comoving is not None and boxsize.comoving is not None:
+            boxsize = boxsize.to(comoving=coordinates.comoving)
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 7d8c468e60f70b202853b552a721ef3c7209ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 64/75] fix: generate smoothing lengths when there are no
 particles

---
 swiftsimio/visualisation/smoothing_length/generate.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index fa7b919..d37ab31 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -72,7 +72,6 @@ def generate_smoothing_lengths(
     )
 
     smoothing_lengths = np.empty(number_of_parts, dtype=np.float32)
-    smoothing_lengths[-1] = -0.1
 
     # Include speedup_fac stuff here:
     neighbours_search = neighbours // speedup_fac
-- 
2.43.0


From ee5ab511bd9613326a4232527866917741163718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 65/75] fix: initial values of reductions in another frame, or
 with another exponent

np.max, np.min and np.sum of a physical array with a comoving initial value
gave the values of the comoving result marked as physical. Initial values
with another scale factor exponent were silently combined.
---
 swiftsimio/_array_functions.py | 41 +++++++++++++++++++++++++++++++---
 swiftsimio/objects.py          |  4 ++++
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index eb09acf..2df378a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -13,6 +13,7 @@ are documented to assist in maintenance and development of swiftsimio.
 
 import warnings
 from functools import reduce
+from inspect import signature
 import numpy as np
 from typing import Callable, Any
 import unyt
@@ -1186,6 +1187,40 @@ def _default_unary_wrapper(
     return wrapper
 
 
+def _default_reduction_wrapper(func: Callable) -> Callable:
+    """
+    Wrap reductions that keep the attributes of their input.
+
+    If the reduction is given an ``initial`` value that takes part like one of the elements
+    of the input, so it is brought to a common frame with them first.
+
+    Parameters
+    ----------
+    func : callable
+        The :mod:`numpy` implementation of the reduction.
+
+    Returns
+    -------
+    Callable
+        The wrapped function.
+    """
+    keep_attributes = _propagate_cosmo_array_attributes_to_result(func)
+    parameters = signature(func)
+
+    def wrapper(*args: tuple[Any], **kwargs: dict[str, Any]) -> object:  # noqa numpydoc ignore=GL08
+        # omit docstring so that sphinx picks up docstring of wrapped function
+        arguments = parameters.bind(*args, **kwargs).arguments
+        a = arguments.pop("a")
+        if isinstance(arguments.get("initial"), objects.cosmo_array):
+            _check_matching_cosmo_factors(a, arguments["initial"])
+            helper_result = _prepare_array_func_args(a, initial=arguments["initial"])
+            (a,) = helper_result["args"]
+            arguments.update(helper_result["kwargs"])
+        return keep_attributes(a, **arguments)
+
+    return wrapper
+
+
 def _default_binary_wrapper(
     unyt_func: Callable, cosmo_factor_handler: Callable
 ) -> Callable:
@@ -2480,8 +2515,8 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
         return _return_helper(res, helper_result, ret_cf_avg)
 
 
-implements(np.max)(_propagate_cosmo_array_attributes_to_result(np.max._implementation))
-implements(np.min)(_propagate_cosmo_array_attributes_to_result(np.min._implementation))
+implements(np.max)(_default_reduction_wrapper(np.max._implementation))
+implements(np.min)(_default_reduction_wrapper(np.min._implementation))
 implements(np.mean)(
     _propagate_cosmo_array_attributes_to_result(np.mean._implementation)
 )
@@ -2491,7 +2526,7 @@ implements(np.median)(
 implements(np.sort)(
     _propagate_cosmo_array_attributes_to_result(np.sort._implementation)
 )
-implements(np.sum)(_propagate_cosmo_array_attributes_to_result(np.sum._implementation))
+implements(np.sum)(_default_reduction_wrapper(np.sum._implementation))
 implements(np.partition)(
     _propagate_cosmo_array_attributes_to_result(np.partition._implementation)
 )
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3c0bab3..4773b40 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -112,6 +112,7 @@ from ._array_functions import (
     _power_cosmo_factor,
     _square_cosmo_factor,
     _cbrt_cosmo_factor,
+    _check_matching_cosmo_factors,
     _divide_cosmo_factor,
     _floor_divide_cosmo_factor,
     _reciprocal_cosmo_factor,
@@ -2242,6 +2243,9 @@ class cosmo_array(unyt_array):
         ):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
+            if method == "reduce":
+                # an initial value is combined with the input
+                _check_matching_cosmo_factors(*inputs, kwargs.get("initial"))
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
 
         result = _ensure_result_is_cosmo_array_or_quantity(super().__array_ufunc__)(
-- 
2.43.0


From a9520d18a190828de4648947c8ffdff14ba05ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 66/75] fix: convertibility of reductions with an initial value

---
 swiftsimio/_array_functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 2df378a..70e2958 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1216,6 +1216,12 @@ def _default_reduction_wrapper(func: Callable) -> Callable:
             helper_result = _prepare_array_func_args(a, initial=arguments["initial"])
             (a,) = helper_result["args"]
             arguments.update(helper_result["kwargs"])
+            return _return_helper(
+                func(a, **arguments),
+                helper_result,
+                helper_result["cfs"][0],
+                out=arguments.get("out"),
+            )
         return keep_attributes(a, **arguments)
 
     return wrapper
-- 
2.43.0


From baf53a65c35eb247b492871d347f93cb29d54b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 67/75] fix: the factors of divmod results in the ufunc hook
 for newer unyt

---
 swiftsimio/objects.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 4773b40..b9c5be4 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2120,6 +2120,12 @@ class cosmo_array(unyt_array):
         else:
             ret_cf = cls._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
         # if we get a tuple we have multiple return values to deal with
+        # (alike, except that divmod returns a quotient followed by a remainder)
+        ret_cfs = (
+            (_divide_cosmo_factor(*cfs), ret_cf)
+            if ufunc is divmod_
+            else (ret_cf, ret_cf)
+        )
         if isinstance(result, tuple):
             result = tuple(
                 (
@@ -2133,10 +2139,10 @@ class cosmo_array(unyt_array):
                 )
                 for r in result
             )
-            for r in result:
+            for r, r_cf in zip(result, ret_cfs):
                 if isinstance(r, cosmo_array):  # also recognizes cosmo_quantity
                     r.comoving = helper_result["comoving"]
-                    r.cosmo_factor = ret_cf
+                    r.cosmo_factor = r_cf
                     r.valid_transform = helper_result["valid_transform"]
                     r.compression = helper_result["compression"]
         elif isinstance(result, unyt_array):  # also recognizes cosmo_quantity
-- 
2.43.0


From ca48ab3ec15e82a47a21323c7614bb179db50a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 68/75] fix: accept a dimensionless cosmo_quantity as exponent

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 70e2958..afded42 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -543,9 +543,7 @@ def _power_cosmo_factor(
     if hasattr(power, "units"):
         if not power.units.is_dimensionless:
             raise ValueError("Exponent must be dimensionless.")
-        elif power.units is not unyt.dimensionless:
-            power = power.to_value(unyt.dimensionless)
-        # else power.units is unyt.dimensionless, do nothing
+        power = power.to_value(unyt.dimensionless)
     exp_afactor = getattr(cf2, "a_factor", None)
     if (exp_afactor is not None) and (exp_afactor != 1.0):
         raise ValueError("Exponent has scaling with scale factor != 1.")
-- 
2.43.0


From 95e276f5cd90bee5fef77752b84d187ece88bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 69/75] fix: exponents whose units have a scale

---
 swiftsimio/objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index b9c5be4..a062b08 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2254,6 +2254,10 @@ class cosmo_array(unyt_array):
                 _check_matching_cosmo_factors(*inputs, kwargs.get("initial"))
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
 
+        if ufunc is power and method == "__call__" and hasattr(inputs[1], "units"):
+            # unyt ignores the scale of the units of an exponent (e.g. percent)
+            base, exponent = helper_result["args"]
+            helper_result["args"] = [base, exponent.to(unyt.dimensionless)]
         result = _ensure_result_is_cosmo_array_or_quantity(super().__array_ufunc__)(
             ufunc, method, *helper_result["args"], **helper_result["kwargs"]
         )
-- 
2.43.0


From f47c23a57ad542903b9a9825bffbbe724b05bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 70/75] fix: exponents given as arrays

---
 swiftsimio/_array_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index afded42..2eb1098 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -535,7 +535,8 @@ def _power_cosmo_factor(
     ------
     ValueError
         If the exponent is not a dimensionless quantity, or the exponent has a
-        ``cosmo_factor`` whose scaling with scale factor is not ``1.0``.
+        ``cosmo_factor`` whose scaling with scale factor is not ``1.0``, or there are
+        several different exponents and the base scales with the scale factor.
     """
     if (inputs is not None and power is not None) or (inputs is None and power is None):
         raise ValueError
@@ -549,7 +550,10 @@ def _power_cosmo_factor(
         raise ValueError("Exponent has scaling with scale factor != 1.")
     if cf1 is None:
         return None
-    return np.power(cf1, power)
+    powers = [np.power(cf1, p) for p in np.unique(power)]
+    if any(p.expr != powers[0].expr for p in powers):
+        raise ValueError("Exponents must be equal to raise a cosmo_factor to a power.")
+    return powers[0] if powers else cf1
 
 
 def _square_cosmo_factor(
-- 
2.43.0


From fa253a48491cb8da37b90481ee56b7b21ebd691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 71/75] fix: apply 2D colour maps to vertical values given as a
 list

---
 swiftsimio/visualisation/tools/cmaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..7ef9f12 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -195,7 +195,7 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From 6fe2f5159b5ab8a030f3531616d67d7a2610f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 72/75] fix: 2D colour maps from images without an alpha
 channel

---
 swiftsimio/visualisation/tools/cmaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index 7ef9f12..177c347 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -420,7 +420,8 @@ class ImageCmap2D(Cmap2D):
             )
 
         self._color_map_grid = (
-            np.array(Image.open(self.filename)).astype(np.float32) / 255.0
+            np.array(Image.open(self.filename).convert("RGBA")).astype(np.float32)
+            / 255.0
         )
 
         return
-- 
2.43.0


From 39cb23ac6a6d3f7af63402676eab2723be6f3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 73/75] fix: out of bounds writes when rendering voxel arrays
 that are not square

---
 swiftsimio/visualisation/volume_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render.py b/swiftsimio/visualisation/volume_render.py
index 3e061cc..f7f58cc 100644
--- a/swiftsimio/visualisation/volume_render.py
+++ b/swiftsimio/visualisation/volume_render.py
@@ -245,7 +245,7 @@ def render_voxels_to_array(data: np.array, center: float, width: float) -> np.ar
     np.ndarray
         The 2D image array.
     """
-    output = np.zeros((data.shape[0], data.shape[1]))
+    output = np.zeros((data.shape[1], data.shape[0]))
 
     for i in range(data.shape[0]):
         for j in range(data.shape[1]):
-- 
2.43.0


From cb944729f9bc2de7cf7dacfa13cd75697f3bb5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 74/75] fix: add scale-factor dependences that are equal but
 written differently

---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index a062b08..94aa3f6 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -392,7 +392,7 @@ class cosmo_factor(object):
                 f"{self.scale_factor} and {b.scale_factor}"
             )
 
-        if not self.expr == b.expr:
+        if not self == b:
             raise InvalidScaleFactor(
                 "Attempting to add two cosmo_factors with different scale factor "
                 f"dependence, {self.expr} and {b.expr}"
@@ -434,7 +434,7 @@ class cosmo_factor(object):
                 f"{self.scale_factor} and {b.scale_factor}"
             )
 
-        if not self.expr == b.expr:
+        if not self == b:
             raise InvalidScaleFactor(
                 "Attempting to subtract two cosmo_factors with different scale factor "
                 f"dependence, {self.expr} and {b.expr}"
-- 
2.43.0


From 0fb0591ffb77cb083fc340980f7f422e4ffb4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 75/75] fix: read masked fields with more than two dimensions

---
 swiftsimio/accelerated.py | 2 +-
 swiftsimio/reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index d81c3d8..ef28739 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -388,7 +388,7 @@ def read_ranges_from_file_chunked(
     chunk_range_size = np.diff(chunk_ranges).sum()
 
     try:
-        output_shape = (chunk_range_size, output_shape[1])
+        output_shape = (chunk_range_size, *output_shape[1:])
     except (TypeError, IndexError):
         # Output shape is just a number, we have a 1D array.
         output_shape = chunk_range_size
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..e5c4245 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -137,7 +137,7 @@ def _generate_getter(
                     if mask is not None:
                         output_type = handle[field].dtype
                         output_shape = (
-                            (mask_size, handle[field].shape[1])
+                            (mask_size, *handle[field].shape[1:])
                             if handle[field].ndim > 1 and not use_columns
                             else mask_size
                         )
-- 
2.43.0

