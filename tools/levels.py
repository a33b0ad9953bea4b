T = "TLA+ spec checked by TLC; TLC behaviours replayed into the code; recorded runs validated by TLC against the spec"
BOUND = " Exhaustive only within the small constants of the model; the implementation is judged on the replayed behaviours and seeded random runs, so the verdict on the code is a test of conformance, not a proof. Trusts TLC, h5py/numpy and the harness' synthetic files."
NOTES = {
 "R01": (T, "Model of masked reading checked exhaustively over all selections/chunkings of small datasets; all of them replayed, plus random layouts, dtypes, masks, local and remote, each field's rows/attributes judged by RangeTrace.tla." + BOUND),
 "R02": (T, "Model of range readers (chunked, contiguous, remote) over all range lists of small datasets; all replayed, plus random datasets and ranges." + BOUND),
 "M01": (T, "Model of cell selection over all regions/drifts of small 1-d boxes; replayed and checked on random 3-d worlds by MaskTrace.tla." + BOUND),
 "M02": (T, "As M01, for the opposite direction: whole cells, only touching cells, refused regions." + BOUND),
 "M03": (T, "MaskImpl (ranges/booleans/sizes) checked to refine MaskProtocol for call sequences of any length on small worlds; all short call sequences and random long ones replayed, selections judged after every call." + BOUND),
 "M04": (T, "Dyadic model of property constraints over frames, units, exponents checked exhaustively, replayed, and random multi-constraint masks judged by PropTrace.tla." + BOUND),
 "M05": (T, "Index constraints in the same protocol model, replayed and judged on random catalogues and (refusal) snapshots." + BOUND),
 "S01": (T, "Subset-of-subset model checked exhaustively and replayed; random rich snapshots and catalogues subset up to three times, complete inventories before/after judged by SubsetTrace.tla." + BOUND),
 "S02": (T, "As S01, for cell tables, counts, extents and masking the subset again." + BOUND),
 "D01": (T, "Slot/getter/mask-array model checked exhaustively against the abstract cache protocol (and shown to fail when masks change in place); its histories and random longer ones, with the file rewritten under the loaded datasets, judged by LazyTrace.tla." + BOUND),
 "D02": (T, "Handle-provider model checked exhaustively (and shown to fail with a leak on errors); histories replayed with HDF5's own handle counts and opens recorded, judged by HandleTrace.tla." + BOUND),
 "D03": (T, "Naming map checked on all names up to a length and replayed; random files of every kind with exponents in quarters and power-of-two unit systems judged by MetaTrace.tla." + BOUND),
 "D04": ("TLA+ operators for the header, mapping and neutrino rules evaluated by TLC on recorded runs over random files", "No transitions of interest: the specification is a function of the file, evaluated by TLC on each recorded load." + BOUND),
 "D05": (T, "Model of the tool looking at all files before it says anything checked exhaustively over lists of up to three files of every kind and mode (and refuted for six broken tools); short lists and samples of the long ones replayed with real files, longer random lists run, and status and text judged by ToolTrace.tla." + BOUND),
 "C01": (T, "Model of arrays sharing buffers under conversions, copies, views and construction checked exhaustively (and refuted for four broken implementations); all its transitions replayed and random longer histories over units, frames, dtypes, scalars and pickles judged by FrameTrace.tla." + BOUND),
 "C02": (T, "Calculation model (registers with frames, exponents, convertibility and scale factors under arithmetic, comparison, in-place operations and frame changes) checked exhaustively and refuted for five broken implementations; its paths replayed, every ufunc/operator/method called on random operands in every frame and random register programs run, each judged by CalcTrace.tla against the same calls on the physical values." + BOUND),
 "C03": (T, "The same calculus (CalcOps.tla) for 260 calls of numpy functions: what each needs to be equal, gives as exponent, frame and convertibility is specified per function; each call is run on random operands in every frame and judged by CalcTrace.tla against the call on the physical values." + BOUND),
 "T01": (T, "Line-by-line reader of statistics files checked exhaustively against the column-wise meaning of every small file (and refuted for four broken readers); its files replayed through load_statistics and random larger files (units, formats, layouts, numbers of rows) judged by StatTrace.tla." + BOUND),
 "P01": (T, "Model of deposition by several workers (blocks, private meshes, summed in any order) checked exhaustively over positions inside, outside and on the edges of the box, foldings, resolutions and schedules (and refuted for five broken ones); its cases and random three-dimensional ones replayed through deposit, deposit_parallel and render_to_deposit in processes with 1 to 16 threads, every mesh judged cell by cell by MeshTrace.tla." + BOUND),
 "V01": (T, "Model of depositing one kernel with its periodic copies on one axis checked exhaustively over positions, boxes, widths and resolutions (and refuted for five broken ones); its cases and random scenes gridded by every CPU backend, slices and volumes, serially, in parallel with 1 to 16 threads and in other orders, each pixel judged by ImageTrace.tla as the sum of the particles' stencils; stencils of single particles are judged on weight, reach and symmetry. The reference (needs very high resolutions) and gpu backends are not covered." + BOUND),
 "V02": (T, "Model of the way from a particle in a periodic box to the pixels of a region (wrapping, slab, corner, copies, turning) checked exhaustively on one axis (and refuted for six broken ones); random scenes are imaged over regions of every kind (crossing edges, outside the box, not square, thin), shifted, exchanged, cropped, turned by quarter turns and looked at along vectors, through project_gas, project_pixel_grid, slices and volumes of every CPU backend, each pixel judged by ImageTrace.tla as the sum of stencils at the place the definition gives. Rotations other than quarter turns, the reference and the gpu backends are not covered." + BOUND),
 "V03": (T, "Model of the blockwise neighbour search checked exhaustively on one axis (and refuted for five broken ones); its cases and random particles in one to three dimensions, frames and units, and sets larger than the implementation's blocks, are given to generate_smoothing_lengths and every length judged by NearTrace.tla." + BOUND),
"V04": (T, "Model of summing rendering functions along the lines of sight of a voxel grid checked exhaustively over small grids (and refuted for five broken ones); its cases and random grids, layers, normalisations and modes rendered, and every channel of every pixel judged by LayerTrace.tla in fixed point; colour maps of colours and of pictures applied to values of every shape and compared with the mean of colours the definition gives. Where no colour is near, nothing is judged." + BOUND),
    "C05": (T, "Model of registers holding dependences under every operation checked exhaustively to a bounded depth against formal exponents kept aside (and refuted for six broken algebras); every short path replayed and long random ones recorded, judged by FactorTrace.tla." + BOUND),
    "P02": (T, "Model of binning and stitching (modes, folds, cuts) checked exhaustively on one-dimensional spectra (and refuted for six broken ones); meshes of integers and sums of plane waves, whose transform is computed exactly or by definition in TLA+, are turned into spectra and stitched, each bin judged by SpectrumTrace.tla. The cut between folds is judged only as being between the resolution and the Nyquist wavenumber. Cubic boxes only." + BOUND),
 "C04": (T, "Model of operands kept in shared or private buffers under conversions, views, arithmetic, in-place operations, outputs, derived reads and refusals checked exhaustively and refuted for seven broken implementations; every path of length two replayed with several operations of each kind, random longer ones, and 500 calls of the API, with every value and attribute of every register and data-set array compared before and after and results overwritten afterwards; judged by AliasTrace.tla." + BOUND),
 "W01": (T, "Model of assignment, deletion, generation and writing checked exhaustively over two types (and refuted for three broken writers); its write states replayed and random histories over all eight types judged by WriterTrace.tla." + BOUND),
 "W02": (T, "As W01, for the fields, header and types read back with load from what was written, over four unit systems, scale factors, frames and dtypes." + BOUND),
 "W03": (T, "As W01, for identifiers: given, partly given, generated, regenerated, huge and of mixed integer types." + BOUND),
}
NOT_APPLICABLE = {
 "N01": "numerical accuracy of real-valued kernel sums, root finding and Fourier transforms: TLA+ has no floating-point arithmetic and the property is a tolerance statement, not a statement about states and transitions",
}
