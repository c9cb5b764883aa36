# writes properties.jsonl (kept in git; the jsonl is the committed artefact)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],state=state or [],hook_needed=None)))

p("C01","Site numbering is a bijection for every lattice size and layout",
  "For every legal lattice size and every supported storage layout (lexicographic, 2-checkerboard, 32-checkerboard, 3d-checkerboard), the linear site index is a bijection between lattice coordinates and 0..volume-1: it is always in range, and converting index to coordinates and back (either way round) is the identity. The lexicographic helpers that split and rebuild a coordinate are mutually inverse for any extents.",
  ["inputs","configurations"],"all lattice extents that the layout accepts (any even/odd extents the layout requires), all coordinates, all site indices, all four layouts",
  "The tests run at one or two tiny fixed lattice sizes and only exercise the layout indirectly through plaquettes; a mapping wrong for particular extents, or in a layout not configured, cannot be seen.",
  ["lib/qdp_scalar_layout.cc","lib/qdp_layout.cc","include/qdp_layout.h"],
  [("crtesn/local_site mixed radix split and rebuild","lib/qdp_layout.cc"),("linearSiteIndex/siteCoords per layout","lib/qdp_scalar_layout.cc")],
  ["Layout::linearSiteIndex","Layout::siteCoords","crtesn","local_site"])
p("C02","Sets partition the lattice and subset site tables are exact",
  "For any colouring function, each subset of a set contains exactly the sites of its colour, each once and in increasing order, so the subsets of a set are disjoint and cover the lattice; the colour table agrees. The contiguity flag and start/end range of a subset describe exactly the same sites as its site table, and the predefined sets (all, even/odd checkerboard, 3d checkerboard, 2^d-coloured) colour sites by their documented coordinate rule.",
  ["inputs","configurations"],"all lattice sizes, all colouring functions with values in range, all sites",
  "Tests use the predefined subsets on one lattice size and check only an exit status; arbitrary colourings, contiguous/non-contiguous subsets and site-table contents are never examined.",
  ["lib/qdp_scalarsite_specific.cc","lib/qdp_subset.cc","include/qdp_subset.h"],
  [("Set::make builds lat_color, site tables, ordered flag","lib/qdp_scalarsite_specific.cc"),("colouring functors for rb, rb3, mcb, all","lib/qdp_subset.cc")],
  ["Set::make","Subset::siteTable","Subset::start/end/hasOrderedRep","Set::latticeColoring"])
p("C03","Shifts and user maps gather from exactly the mapped site",
  "A nearest-neighbour shift in direction mu and sense s gathers, at every site x, the value at x + s*mu with periodic wrap-around, for every extent; a user map gathers the value at the image of x under the user function, and a map array selects the map for its direction. A forward shift followed by the opposite shift is the identity.",
  ["inputs"],"all lattice extents, directions, senses, sites, and all user map functions that return a valid site",
  "Tests shift only in plaquette code on a 2^4..4^4 lattice, where wrap-around in both directions coincides or is not separated.",
  ["include/qdp_map.h","lib/qdp_map.cc","lib/qdp_scalar_specific.cc","include/qdp_scalar_specific.h"],
  [("Map::make fills goffsets","lib/qdp_scalar_specific.cc"),("ArrayMap/BiDirectionalMap make","lib/qdp_map.cc")],
  ["shift()","Map::operator()","ArrayMap::operator()","BiDirectionalMap::operator()"])
p("C04","Lattice assignments act sitewise on the subset and nowhere else",
  "Assigning any expression to a lattice object on a subset (plain, +=, -=, *= and similar, zero, masked copy, constant fill) stores at each site of the subset the expression evaluated from the operands at that same site, and leaves every other site and every operand unchanged. This holds for contiguous and non-contiguous subsets alike and when the destination also appears on the right hand side.",
  ["inputs","programs"],"all subset site tables, all sites, all operand values, the assignment forms and node kinds of the expression templates",
  "Tests evaluate a few fixed expressions over the full lattice and compare one number; sites off the subset and aliasing of destination and operands are not checked.",
  ["include/qdp_scalar_specific.h","include/qdp_qdptype.h","include/qdp_qdpsubtype.h","include/qdp_outer.h","include/qdp_outersubtype.h","include/qdp_dispatch.h"],
  [("evaluate() site loops over the site table","include/qdp_scalar_specific.h"),("copymask/zero_rep/random fills","include/qdp_scalar_specific.h")],
  ["OLattice::operator=","OSubLattice assignment","copymask","zero_rep"])
p("C05","Global reductions equal the sum over exactly the requested sites",
  "sum, norm2, innerProduct, innerProductReal, globalMax/globalMin and their per-subset (sumMulti) and array-of-lattices forms equal the mathematical reduction of the site values over exactly the sites of the given subset (or of each subset of the set), each site counted once, and accumulate in the documented (double) result precision.",
  ["inputs","programs"],"all subsets, all site values, all lattice sizes, arrays of any length",
  "Tests compare a handful of reductions on one lattice with a loose tolerance, never on user subsets, multi-subset sums or arrays.",
  ["include/qdp_scalar_specific.h"],
  [("sum/sumMulti/norm2/innerProduct loops","include/qdp_scalar_specific.h")],
  ["sum","sumMulti","norm2","innerProduct","innerProductReal","globalMax","globalMin"])
p("C06","Fast vector kernels agree with the plain expressions they replace",
  "Every vector kernel that replaces a linear-algebra expression on real/complex fields (a*x+y, a*x-y, a*x+b*y, scaling, sums and differences, norms, inner products, and the complex-coefficient and fused norm forms) computes for every element exactly the expression it stands for, for every vector length, writes only the destination, and is correct when the destination is one of the sources. The expression-template specialisations that dispatch to a kernel pass the right operands, coefficients, signs and site ranges for contiguous and non-contiguous subsets.",
  ["inputs","programs"],"all lengths, all values, destination aliased or not, ordered and unordered subsets",
  "The kernels tested by the suite are only a few of the double-precision SSE ones at fixed lengths; the specialisations and the generic kernels are never compared to the expression.",
  ["include/scalarsite_generic/generic_blas_vaxpy3.h","include/scalarsite_generic/qdp_scalarsite_generic_blas.h","include/scalarsite_generic/qdp_scalarsite_generic_cblas.h"],
  [("generic BLAS kernels","include/scalarsite_generic/generic_blas_*.h"),("evaluate() specialisations","include/scalarsite_generic/qdp_scalarsite_generic_blas.h")],
  ["vaxpy3","vaxmy3","vaxpby3","vaxmby3","vscal","vadd","vsub","l_vcdot","local_sumsq","evaluate specialisations"])
p("C07","Chiral-projection vector kernels agree with the plain expressions",
  "Every kernel that fuses a chiral projector (1 +- gamma5)/2 or gamma5 with a linear combination of fermion fields computes, for every site and spin-colour component, the expression it stands for, and the specialised assignments dispatch to the kernel with the right operands, coefficients and projector sign, for contiguous and non-contiguous subsets.",
  ["inputs","programs"],"all lengths, all values, both projector signs, ordered and unordered subsets",
  "No stable test executes a gamma5 kernel.",
  ["include/scalarsite_generic/qdp_scalarsite_generic_blas_g5.h","include/scalarsite_generic/generic_blas_g5.h"],
  [("generic g5 kernels","include/scalarsite_generic/generic_blas_g5.h"),("g5 evaluate specialisations","include/scalarsite_generic/qdp_scalarsite_generic_blas_g5.h")],
  ["axpyz_g5ProjPlus and relatives"])
p("C08","SSE double kernels equal the scalar definition for every length",
  "Each hand-vectorised double-precision kernel (vector updates, scalings, differences, linear combinations, norms, inner products, and colour-matrix multiply families) produces exactly the mathematical result of its scalar definition for every element and every problem size, including the sizes at which it switches code path, and reads and writes only within its operands.",
  ["inputs"],"all lengths (multiples the kernel accepts), all data values, destination equal to a source where callers do so",
  "Tests use a few fixed lengths and matrices; other sizes, code paths and operand aliasing are unexplored.",
  ["lib/scalarsite_sse/sse_blas_vaxpy4_double.cc","lib/scalarsite_sse/sse_linalg_m_eq_mm_double.cc","include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h"],
  [("SSE2 kernels with unrolled/prefetch paths","lib/scalarsite_sse/*.cc"),("double-precision evaluate specialisations","include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h")],
  ["vaxpy4","vaxpyz4","vscal4","local_sumsq4","local_vcdot4","ssed_m_eq_mm and relatives"])
p("C09","Colour-matrix products follow matrix algebra, all adjoint forms",
  "For 3x3 complex colour matrices and colour vectors, product, adjoint-product (either or both factors), matrix-vector and adjoint-matrix-vector, accumulate and subtract forms equal the textbook complex matrix expressions for all entries, whether reached through the generic templates or through an optimised specialisation, and also when the result overwrites an operand.",
  ["inputs","programs"],"all matrix entries, all adjoint combinations, aliased and distinct operands",
  "A plaquette on a unitary configuration cannot distinguish many wrong terms; only one double-precision SSE family is unit-tested.",
  ["include/scalarsite_generic/qdp_scalarsite_generic_linalg.h","include/qdp_primmatrix.h","include/qdp_primcolormat.h"],
  [("unrolled SU(3) multiply macros/functions","include/scalarsite_generic/generic_mult_*.h"),("PMatrix/PVector templates","include/qdp_primmatrix.h")],
  ["operator* on PColorMatrix/PColorVector","adjMultiply","multiplyAdj","adjMultiplyAdj"])
p("C10","Spin projection and reconstruction are the (1 +- gamma) halves",
  "Projecting a 4-spinor in direction mu and sign s and reconstructing it equals applying (1 + s*gamma_mu) for every component and colour, in every fused form (multiplication by a gauge link or its adjoint before reconstruction, accumulation into a result), both through the templates and through the specialised site loops on any subset.",
  ["inputs","programs"],"all directions, both signs, all spinor and link values, all subsets",
  "No stable test runs a projector; each of the 16 routines and their fused forms has independent hand-written sign patterns.",
  ["include/qdp_primspinvec.h","include/scalarsite_generic/generic_spin_proj_inlines.h","include/scalarsite_generic/generic_spin_recon_inlines.h"],
  [("spinProjectDirXPlus etc","include/qdp_primspinvec.h"),("inlined site kernels","include/scalarsite_generic/generic_spin_*_inlines.h"),("fused evaluates","include/scalarsite_generic/qdp_generic_fused_spin_*_evaluates.h")],
  ["spinProject","spinReconstruct","fused spin ops"])
p("C11","Gamma matrices form the Clifford algebra consistently",
  "The 16 products Gamma(n) obey the Clifford relations for the four generators and composition Gamma(n) = product of generators in bit order; left and right multiplication of spin vectors and spin matrices by Gamma(n) (compile-time or run-time index, either basis offered) equal multiplication by the one 4x4 matrix that n denotes.",
  ["inputs"],"all n in 0..15, all spinor and spin-matrix values, vector and matrix operands, left and right multiplication, both bases",
  "No stable test uses gamma multiplication; each of the 16 cases is hand-coded for vectors, left matrices and right matrices.",
  ["include/qdp_primspinvec.h","include/qdp_primspinmat.h","include/qdp_primgamma.h"],
  [("operator*(GammaConst<4,n>, PSpinVector)","include/qdp_primspinvec.h"),("operator* on PSpinMatrix","include/qdp_primspinmat.h"),("run time switch","include/qdp_primgamma.h")],
  ["Gamma(n)*psi","Gamma(n)*M","M*Gamma(n)"])
p("C12","Site-level tensor algebra follows its mathematical definition",
  "Complex arithmetic and the nested spin/colour tensor operations (addition, multiplication, adjoint, transpose, conjugate, real/imaginary part, multiplication by i, traces over spin, colour or both, inner and outer products, spin and colour transposes, colour contraction, quark contractions, spin-colour component peek of results) equal their mathematical definition for all component values, on every fibre type they accept.",
  ["inputs","programs"],"all component values, the fibre types (scalar, colour vector/matrix, spin vector/matrix, propagator, half spinor) x operations",
  "Each operation exists once per nesting level and type combination; tests exercise two or three of the hundreds of combinations.",
  ["include/qdp_reality.h","include/qdp_primmatrix.h","include/qdp_primvector.h","include/qdp_primspinmat.h","include/qdp_primspinvec.h","include/qdp_primcolormat.h","include/qdp_primcolorvec.h","include/qdp_primscalar.h"],
  [("RComplex operators","include/qdp_reality.h"),("PMatrix/PVector/PScalar operators","include/qdp_primmatrix.h")],
  ["adj","trace","traceSpin","traceColor","transpose","localInnerProduct","outerProduct","quarkContract*","colorContract"])
p("C13","The lattice random stream is a function of seed and site only",
  "The generator advances a 47-bit linear congruential seed exactly (product modulo 2^47, for every seed and multiplier), converts it to a number in [0,1), and fills a lattice so that the value at a site depends only on the starting seed and the site's lexicographic position, not on storage layout or on which subset was filled; after a fill the global seed has advanced by exactly the documented stride, and saving then restoring a seed reproduces the sequence.",
  ["inputs","histories","configurations"],"all seeds and multipliers, all lattice sizes and layouts, all subsets, any save/restore point",
  "Tests draw random numbers only as input data and never check the sequence, the modulus or layout independence.",
  ["include/qdp_primseed.h","include/qdp_random.h","lib/qdp_random.cc","include/qdp_scalar_specific.h"],
  [("PSeed 12-bit digit multiply","include/qdp_primseed.h"),("site multipliers and stride","lib/qdp_random.cc"),("fill loops","include/qdp_scalar_specific.h")],
  ["random","RNG::setrn/savern","seedMultiply","seedToFloat"])
p("C14","The scalar random generator is its 48-bit LCG and restartable",
  "The scalar generator advances a 48-bit linear congruential state exactly modulo 2^48 and returns state/2^48 in [0,1) for every state; setting a seed (at any time, including before the first draw) and reading it back round-trips, and restoring a saved seed reproduces the same sequence.",
  ["inputs","histories"],"all states in 0..2^48-1, any interleaving of set, save and draw",
  "No test uses this generator.",
  ["lib/qdp_rannyu.cc","include/qdp_rannyu.h"],
  [("12-bit digit multiply with carries","lib/qdp_rannyu.cc"),("setrn/savern","lib/qdp_rannyu.cc")],
  ["RANNYU::random","RANNYU::setrn","RANNYU::savern"])
p("C15","Multi-dimensional arrays address each element exactly once",
  "For every array shape, the element addressed by an index tuple in a 1- to 5- or N-dimensional array is distinct for distinct tuples, in range, with the last index fastest, and the bracket and parenthesis forms agree; copying, assigning (including self-assignment and sub-array assignment), resizing and elementwise arithmetic preserve exactly the elements they should.",
  ["inputs","histories"],"all shapes and index tuples, all copy/assign/resize sequences",
  "No stable test inspects arrays beyond using multi1d with fixed sizes.",
  ["include/qdp_multi.h","include/qdp_arrays.h"],
  [("index arithmetic","include/qdp_multi.h"),("copy/assign/resize","include/qdp_multi.h")],
  ["multi1d..multi5d","multiNd"])
p("C16","Binary I/O is big-endian, round-trips, and checksums what it moved",
  "Writing any value or array with the binary writers emits its big-endian bytes in order, leaves the caller's data unchanged, and reading the bytes back restores the value, on little- and big-endian hosts and for every element size and count; byte swapping is its own inverse. The running checksum of a reader or writer is the CRC32 of exactly the bytes moved since it was opened or reset.",
  ["inputs","histories"],"all element sizes and counts, all values, all sequences of writes/reads",
  "No stable test performs binary I/O.",
  ["lib/qdp_io.cc","lib/qdp_byteorder.cc","include/qdp_io.h","include/qdp_byteorder.h"],
  [("byte_swap","lib/qdp_byteorder.cc"),("writeArray/readArray primary node paths","lib/qdp_io.cc")],
  ["BinaryWriter/BinaryReader and buffer/file forms","QDPUtil::byte_swap"])
p("C17","The checksum is the standard CRC-32 of the bytes, composable",
  "The checksum routine returns the standard reflected CRC-32 (polynomial 0xEDB88320) of the byte string for every buffer, length and starting value, reads only the buffer, and checksumming a string in consecutive pieces, threading the value through, gives the checksum of the whole.",
  ["inputs"],"all buffers, all lengths, all split points, all starting values",
  "No stable test computes a checksum.",
  ["lib/qdp_crc32.cc","include/qdp_crc32.h"],
  [("table and byte loop","lib/qdp_crc32.cc")],["QDPUtil::crc32"])
p("C18","Peek and poke access exactly the named component",
  "peekSite/pokeSite, peekColor/pokeColor, peekSpin/pokeSpin and the extract/insert routines read or write exactly the named site and component: poke then peek of the same component returns the stored value, every other component and site is unchanged, and peek never modifies its argument.",
  ["inputs"],"all sites, component indices, lattice sizes, values",
  "No stable test uses peek/poke on general sites or components.",
  ["include/qdp_scalar_specific.h","include/qdp_primmatrix.h","include/qdp_primvector.h","include/qdp_globalfuncs.h"],
  [("peekSite/pokeSite","include/qdp_scalar_specific.h"),("component accessors","include/qdp_prim*.h")],
  ["peekSite","pokeSite","peekColor","pokeColor","peekSpin","pokeSpin","QDP_extract","QDP_insert"])
p("C19","Threaded dispatch covers every site exactly once",
  "For every number of worker threads and every site count, the index ranges handed to the workers are disjoint, in range and cover all sites exactly once; with no threading the single worker receives the whole range.",
  ["inputs","configurations","schedules"],"all thread counts, all site counts whose products fit the index type",
  "The suite is built single-threaded only.",
  ["include/qdp_dispatch.h"],[("low/high computation","include/qdp_dispatch.h")],["dispatch_to_threads"])
p("C20","Results do not depend on the number of nodes",
  "On a parallel build, all lattice operations, shifts, reductions and I/O give the same result as on one node, for every processor grid that divides the lattice.",
  ["inputs","configurations","schedules"],"all processor grids, lattices, message orders",
  "The suite only builds the scalar architecture.",
  ["lib/qdp_parscalar_specific.cc","lib/qdp_parscalar_layout.cc","include/qdp_parscalar_specific.h"],
  [("node mapping and QMP messages","lib/qdp_parscalar_specific.cc")])
p("C21","Disk-backed maps return the last value inserted, also after reopening",
  "A disk-backed map object returns for every key the last value inserted under it, for any sequence of inserts, updates, flushes and reopenings, and detects corrupted records by checksum.",
  ["inputs","histories","crash_points"],"all histories of insert/get/update/flush/reopen",
  "Not compiled in the tested configuration.",
  ["lib/qdp_map_obj_disk.cc","include/qdp_map_obj_disk.h"],
  [("hash table of file positions plus per-record checksum","include/qdp_map_obj_disk.h")])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
