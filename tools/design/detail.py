DETAIL = {
"R01": ("MaskedRead, RangeReader, Ranges, RangeTrace", "the model goes from a boolean selection to ranges and size to the rows of every field with its own chunking; each of its cases is made a file (per-field layout chosen), masked and read; random files add dtype, byte order, rank, named columns, local and remote; RangeTrace compares rows (as runs), dtype, shape, units, exponent, frame of every field with the unmasked read.", "all selections of up to 4 (thorough 6) rows, chunks to 3 (5); random to a few hundred rows; 30 s"),
"R02": ("RangeReader, RemoteReader, Ranges, RangeTrace", "one action per loop turn of the chunk-aware reader (merge, read block, extract) with invariants Correct, OnlyInside, ReadOnce, BlocksDisjoint, Covered and termination; the remote reader with sorted/merged slices and restored order; all range lists replayed through read_ranges_from_file and the remote stand-in which records slices.", "all lists of up to 3 ranges on up to 5 (7) rows and chunks to 6 (8); random to 2000 rows; 25 s"),
"M01": ("Cells, CellMask, MaskTrace", "cell selection along an axis (bounds check, whole-box shortcut, unwrapping, three periodic copies) checked against 'a point strictly inside the region has its cell selected'; random 3-d worlds (cell order shuffled, empty cells, drifted particles, with/without extents, SOAP) are masked and read back by identity; MaskTrace decides which rows must be there.", "all regions/drifts on axes of up to 4 cells; 90 (2400) random worlds x several regions; 31 s"),
"M02": ("Cells, CellMask, MaskTrace", "as M01 with the reverse clauses: whole cells, touching only, refusal leaves the mask unchanged.", "as M01; 31 s"),
"M03": ("MaskOps, MaskProtocol, MaskImpl, MaskProtoTrace", "MaskImpl (ranges or booleans, sizes, conversions) is checked by TLC to refine MaskProtocol (a set of rows); all call sequences to depth 3 (4) emitted and replayed on real masks, the selection read after every call; long random ones.", "worlds of 3 groups, depth 3 (4), random to 12 calls; 51 s"),
"M04": ("PropOps, PropMask, PropTrace", "bounds in every frame and unit as dyadic numbers; half-open selection, partition by adjacent intervals and commutation as invariants; replay through constrain_mask with values, bounds, frames, units and exponents.", "all value/bound/frame/unit combinations of the model (1000 replayed), 60 (900) random multi-constraint masks; 32 s"),
"M05": ("MaskOps, MaskProtocol, MaskImpl, MaskProtoTrace", "constrain_index(es) as calls of the same protocol, on catalogues, and refused on snapshots.", "180 (2500) histories; 27 s"),
"S01": ("SubsetOps, Subset, SubsetTrace", "the subset writer on cell metadata applied twice equals one application of the combined selection; random rich files are subset up to three times, full inventory (datasets, links, attributes, groups) before and after compared by SubsetTrace.", "3 cells, 2 groups exhaustively; 110 (1500) random files; 40 s"),
"S02": ("SubsetOps, Subset, SubsetTrace", "cell tables (counts, offsets, extents, centres) describe the rows of the subset; masking the subset again; header counts.", "as S01; 40 s"),
"D01": ("LazyOps, LazyFields, LazyTrace", "slots, getters and mask arrays as implemented against the abstract cache; refuted when masks change in place; histories of reads, assignments, in-place changes, deletions, mask changes and file rewrites with object identity recorded.", "1 (2) rows, 2 (3) versions; emitted histories to length 5 (6); 44 s"),
"D02": ("HandleOps, Handles, HandleTrace", "who opens, shares and closes files, including broken files and errors; HDF5's own handle counts (h5py.h5f.get_obj_count) and the opens are observed after each step.", "3 (4) objects, length 5 (6), 500 random sessions; 28 s"),
"D03": ("MetaOps, Names, MetaTrace", "the naming map on every name to a length; random files of each kind (snapshot, SOAP, FOF, lightcone/line of sight) with exponents in quarters and units powers of two; names, units, exponents, frames, columns and descriptions judged.", "names to 5 (7) letters; 160 (6000) files; 31 s"),
"D04": ("MetaOps, MetaTrace", "header, counts, boxes, mappings, neutrinos and cosmology as functions of the file evaluated by TLC on each load.", "600 (8000) headers; 10 s"),
"D05": ("ToolOps, Tool, ToolTrace", "the tool looks at all files, refuses the first bad one or answers file by file; invariants: nothing is said early, the answer is the one of the list; six broken tools refuted; the text of the summary is built in TLA+ from the facts written to the file and compared with blanks left out.", "lists of 3 files, 5 kinds, 2 contents, 4 modes; 1270 replayed (4900), 400 (4000) random lists and validations; 31 s"),
"W01": ("WriterOps, Writer, WriterTrace", "assign/delete/generate/write with the checks in the order of the implementation; action properties say when a write may happen and what it contains; three broken writers refuted.", "two types in the model, all eight in 1400 (24000) random histories; 28 s"),
"W02": ("WriterOps, Writer, WriterTrace", "what was written is read back with swiftsimio.load and h5py and compared as physical values, units, exponents, header.", "as W01"),
"W03": ("WriterOps, Writer, WriterTrace", "identifiers given, generated, partly given, huge, of mixed types.", "as W01"),
"C01": ("FrameOps, Frames, FrameTrace", "arrays in shared buffers under conversions, copies, views and construction: the physical value every array denotes is a ghost variable; four broken implementations refuted; each transition replayed, histories of 4 to 14 operations.", "2 arrays (3 without emission), exponents 0..2; 3000 (60000) random histories; 30 s"),
"C02": ("CalcOps, Calc, CalcTrace", "arithmetic with frames: TLC checks that numbers with attributes denote the physical result; ufuncs, operators, methods and random register programs are run twice, on the operands and on their physical plain values, and CalcTrace decides acceptance, agreement, exponent, frame, convertibility and that operands stay.", "depth 2 (4); 9000 (200000) programs; 65 s"),
"C03": ("CalcOps, CalcTrace", "260 numpy function calls, each with its specification row (what must match, resulting exponent, frame, convertibility) applied to operands in every frame.", "6 (90) cases per call; 20 s"),
"C04": ("AliasOps, Alias, AliasTrace", "buffers and views under prepared operands and refusals; every path of length two replayed, 500 API calls with all registers compared before and after, and results overwritten afterwards to reveal shared memory.", "3 registers depth 2, 2 registers depth 4 (5); 65 s"),
"C05": ("FactorOps, Factor, FactorTrace", "registers with dependences; formal exponents, atoms and scale factors as ghosts (Exact, Sound, Alike, Kept); every operation and random histories incl. reflected operators, aliens, copies, pickles and construction of arrays with redundant or contradicting information.", "two registers, depth 2 (3), 6000 replayed, 500 (6000) random; 24 s"),
"V01": ("Stencil, ImageOps, ImageTrace", "one kernel with its periodic copies on an axis; scenes gridded by every CPU backend serially, in parallel with 1 to 16 threads and in other orders must be sums of stencils measured for single particles, which are judged on weight, reach and symmetry.", "240 (2400) model cases, 7 jobs of 30 (400) scenes; 125 s"),
"V02": ("Region, ImageOps, ImageTrace", "the way from the box to the pixels of a region; regions crossing edges, boxes away, thin, not square; shifts, exchange of axes, cropping, quarter turns; project_gas, project_pixel_grid, slice, volume.", "360 (3000) model cases, 5 jobs of 90 (900); 95 s"),
"V03": ("NearOps, Neighbours, NearTrace", "blockwise neighbour search; smoothing lengths compared with the k-th distance squared in integers; sets larger than a block of the implementation are clusters judged by the same operator.", "L=5, 4 (5) particles; 150 replayed, 120 (1500) random; 20 s"),
"V04": ("LayerOps, Layers, LayerTrace", "sums over lines of sight; colours and norms; colour maps as weighted means, or pixels.", "grids 2x2x2 (2x3x2) exhaustively; 250 replayed, 150 (2000) random; 40 s"),
"P01": ("MeshOps, Mesh, MeshTrace", "deposition by several workers: blocks, private meshes, any summation order; processes with 1 to 16 threads.", "3 (4) particles exhaustively, 600 (4000) cases; 62 s"),
"P02": ("FourierOps, Spectrum, SpectrumTrace", "binning and stitching; meshes whose transform is computed exactly in TLA+ (integers; sums of plane waves).", "80 (600) replayed, 90 (900) random per job; 40 s"),
"T01": ("StatOps, Stat, StatTrace", "line-by-line reader against the column-wise meaning of the file; four broken readers refuted.", "files of 2 columns and 1 (2) rows exhaustively, 1500 replayed, 600 random; 35 s"),
}
