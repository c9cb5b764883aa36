BASE = ' Assumes: exact real arithmetic for floating point, clang front end and the /verif/qvc semantics of LLVM IR, z3.'
NOTE = {
 'C04': 'Every assignment operator, fill, zero, masked copy, constructor and sub-lattice assignment on every fibre type is proved to store exactly the right value at exactly the sites of the subset (ordered or table), nothing else, destination among the operands included, for every volume and subset.' + BASE,
 'C05': 'Sum, norm2, innerProduct, innerProductReal, globalMax/Min, sumMulti and the array forms are proved equal to the reduction over exactly the sites of the subset in the documented precision; sumMulti of an array of lattices is bounded (native only) and labelled so.' + BASE,
 'C06': 'Every specialised real and complex linear-combination form is proved equal to its definition at every site of every subset (ordered or table), with exact frame and memory bounds, for all lengths and values and for the destination equal to an operand.' + BASE,
 'C07': 'Every specialised chiral-projection / gamma5 linear-combination form is proved equal to its definition at every site of every subset, with frame and bounds, destination equal to operands included.' + BASE,
 'C09': 'Products of colour matrices with matrices, vectors, staggered, half and full fermions and propagators in all adjoint forms, single and double precision, optimised and plain, proved for all sites and values incl. aliasing.' + BASE,
 'C10': 'Projection, reconstruction, fused link products and accumulation for the 8 directions/signs proved through plain templates, hook kernels and the specialised site loops.' + BASE,
 'C11': 'All 16 products in both bases, run-time and compile-time index, left and right, on spin vectors, fermions, spin matrices and propagators, proved equal to multiplication by the matrix; the Clifford relations are then lemmas over the same contracts.' + BASE,
 'C12': 'Site-level complex and tensor operations proved equal to their definition on every fibre type for all component values.' + BASE,
}
NA = {
 'C20': 'The parallel architecture needs QMP and is not compiled in this configuration; no contract over the code that is built can express agreement between message-passing processes.',
 'C21': 'The disk map is not compiled in the tested configuration and its guarantee is about the contents of a file across process lifetimes, outside the memory model of the verifier.',
}
NOTE['C01'] = 'siteCoords/linearSiteIndex (all four layouts), crtesn/local_site in 1 to 5 dimensions, the lexicographic overload and the exported C interface are proved mutually inverse, in range and coloured by block for every legal lattice size (extents symbolic).' + BASE
NOTE['C03'] = 'Map construction (arbitrary user functions, sign-folding, bidirectional, array forms, the predefined shifts) is proved to record exactly the user function; evaluation of single, nested, summed and packaged maps of expressions is proved to read the source at the image site, for every volume, subset and fibre type listed.' + BASE + ' The layout functions are taken by their C01 contract.'
NOTE['C18'] = 'peek/poke site, colour, spin, real/imag extraction and packing helpers (extractFromOLattice and friends), fibre-shape conversions proved to be exact projections/injections that change nothing else, for every volume and index.' + BASE
NOTE['C15'] = 'Addresses (distinct, in range, last index fastest, bracket = parenthesis), sizes, construction, resize, copy, assignment (self and sub-array included), 1-d arithmetic, comparison, concatenation, norms and the wrapping ArrayNdO forms are proved for every shape and index tuple, rank 1 to 5 and N-dimensional (rank 1 to 5).' + BASE
NOTE['C14'] = 'One draw is proved to be S -> 31167285*S + 1 modulo 2^48 on the four digits with value exactly S/2^48 in [0,1); setting a seed at any time (fresh, after draws, after other seeds) and reading it back, and restoring a saved seed, are proved to round-trip and to repeat the sequence; wrong lengths abort.' + BASE
NOTE['C13'] = 'Seed product (exactly modulo 2^47, all seeds), shift, or, assignment, conversion to [0,1), the fills (uniform and gaussian, every fibre type, subset and layout) are proved: value at a site is a function of the starting seed and the multiplier of the site, global seed advances by the fixed stride. Fills take the product by its proved contract. initRNG/initDefaultRNG (the multiplier table and the stride) are bounded: native runs on random lattices up to 6x4x4x4, not counted as proved.' + BASE
NOTE['C17'] = 'The real loops (blocks of eight and the tail) are proved to compute the reflected CRC-32 recurrence for every buffer, length and starting value, reading only the buffer; consecutive pieces (two, three) are proved to compose; the table is compared entry by entry with the polynomial and the table step proved equal to eight division steps. Assumes: clang front end and the /verif/qvc semantics of LLVM IR, z3 (bit vectors).'
NOTE['C19'] = 'dispatch_to_threads (OpenMP form, verified for an arbitrary thread of an arbitrary team, and the unthreaded form): ranges in bounds, adjacent, first and last exact, inactive workers idle. Every dispatched site loop of the linear-combination, chiral, spin-projection and assignment kernels is proved, taking dispatch by that contract, to write exactly its range of the subset. The pragma itself and the QMT back end are not modelled; reductions and the colour-matrix kernels are not repeated per range.' + BASE

NOTE['C08'] = 'Every hand-vectorised double kernel (10 spinor kernels, 3 reductions, 22 colour-matrix kernels) is proved equal to its scalar definition for every block count, both code paths of the size switch, with exact memory bounds and destination equal to operands where callers do so; the lattice expressions, norms and inner products that call them are proved on ordered and table subsets. No kernel is called with the destination among the operands of a product (the callers are proved to go through a temporary).' + BASE

NOTE['C16'] = 'Byte swapping (1,2,4,8,16-byte elements, every count, applied twice = identity), every primitive, string, array, complex and FILE form of the readers and writers, seek, reset, constructors and open, and lattice/scalar fields (whole, one site, time slices; 14 fibre types) are proved: big-endian bytes in order, caller data unchanged, checksum exactly over the moved bytes. multi1d and multi2d writing proved; reading multi2d, multi3d to 5d and std containers are bounded native runs, labelled so. Streams and crc32 by contract; stream failure not covered.' + BASE

NOTE['C02'] = 'Set::make for an arbitrary colouring table (1, 2 and 3 subsets, sizes symbolic), re-making and construction: each table has exactly the sites of the colour, each at its rank, increasing, start/end exact when flagged contiguous, empty subsets; the colouring rules of the predefined sets, initDefaultSets, copies and assignments of sets and subsets, latticeCoordinate. That an unflagged subset really has a hole is bounded (native), as are contracts the prover does not finish in time (listed in the evidence).' + BASE + ' The layout functions are taken by their C01 contract.'
