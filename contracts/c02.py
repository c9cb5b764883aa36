"""Sets and subsets: colouring, site tables, contiguity, the predefined sets, copies."""
from qvc.reg import unit, contract
from .common import LAYSTUB, layout_contract, VMAX
from .c03 import SETN, stubcoords
from .c18 import CAP
META = dict(assumptions=['at most 80e6 local sites', 'the colouring is a function of the coordinate', 'the layout functions are taken by their C01 contract'])
OM = ('qdp_strnlen.cc', 'qdp_scalar_layout.cc', 'qdp_layout.cc', 'qdp_scalarsite_specific.cc', 'qdp_subset.cc')
G = ('_layout', '3allE', 'Layout', 'Singleton', 'Allocator')
HD = '#include "h.h"\n'
# ------------------------------------------------------------- Set::make for an arbitrary colouring
U = unit('setmake', '$GEN', natlibs='ALL', omit=OM)
U.text = HD + LAYSTUB + '#include "qdp_layout.cc"\n#include "qdp_scalarsite_specific.cc"\n#include "qdp_subset.cc"\n' + SETN + '''
struct TabFunc : public SetFunc { const int* col; int ns; TabFunc(const int* c, int n) : col(c), ns(n) {} int operator()(const multi1d<int>& c) const { return col[Layout::linearSiteIndex(c)]; } int numSubsets() const { return ns; } };
'''
def pick_col(env, V, ns):
    def f(r):
        k = r.randint(0, 3)
        if k == 0: return [r.randrange(ns) for _ in range(V)]
        cuts = sorted(r.randint(0, V) for _ in range(ns - 1)) + [V]
        c = []; a = 0; cols = list(range(ns)); r.shuffle(cols)
        for i, b in enumerate(cuts): c += [cols[i]] * (b - a); a = b
        if k == 2 and V > 1: i, j = r.randrange(V), r.randrange(V); c[i], c[j] = c[j], c[i]
        return c
    return f
for form, ns in [('make', n) for n in (1, 2, 3, 4)] + [('ctor', 2), ('again', 2)]:
    def mk(form, ns):
        fn = 'h_%s%d' % (form, ns)
        U.text += '''H %s(N4, const int* col, const int* old, int* o, int c, int s, int q, int rk) { SETN; TabFunc f(col, %d); %s
  const Subset& b = S[c]; o[0] = b.numSiteTable(); o[1] = b.hasOrderedRep(); o[2] = b.start(); o[3] = b.end(); o[4] = b.color(); o[5] = &b.getSet() == &S && &b.siteTable() == &S.sitetables[c];
  o[6] = S.latticeColoring()[s]; o[7] = S.latticeColoring().size(); o[8] = S.numSubsets();
  o[9] = -1; o[10] = -1; if (q < o[0]) { o[9] = b.siteTable()[q]; if (q + 1 < o[0]) o[10] = b.siteTable()[q + 1]; }
  o[11] = -1; if (rk >= 0) o[11] = b.siteTable()[rk]; }
''' % (fn, ns, {'make': 'Set S; S.make(f);', 'ctor': 'Set S(f);', 'again': 'TabFunc f0(old, %d); Set S(f0); S.make(f);' % ns}[form])
        def sub(c):
            @contract('C02', U, 'Set %s, %d subsets: subset %d' % ({'make': 'make', 'ctor': 'constructor', 'again': 'made again'}[form], ns, c), bounded_ok=True, thorough_only=ns > 3, **(dict(timeout=400, weight=10) if ns == 3 else {}))
            def _(env):
                n, V, xs = stubcoords(env); env.assume(env.le(1, V))
                col = env.array('col', 'i32', V, lo=0, hi=ns - 1, pick=pick_col(env, V, ns)); old = env.array('old', 'i32', V, lo=0, hi=ns - 1); o = env.array('o', 'i32', 12)
                s = env.int('s', 0, V - 1, pick=lambda r: r.randrange(V)); q = env.int('q', 0, V, pick=lambda r: r.randint(0, V))
                inn = env.eqc(col.old(s), c)
                one = lambda i: env.ite(env.eqc(col.old(i), c), 1, 0)
                rk = env.sum(s, one); num = env.sum(V, one)
                env.modifies(o, globals_ok=G)
                def post(res):
                    env.eq('size of the table', o.at(0), num); env.eq('colour of the subset', o.at(4), c); env.eq('pointers', o.at(5), 1)
                    env.eq('colour table', o.at(6), col.old(s)); env.eq('length of the colour table', o.at(7), V); env.eq('number of subsets', o.at(8), ns)
                    def entry(a):
                        env.true('entry in range', env.and_(env.le(0, o.at(9)), env.lt(o.at(9), V))); env.eq('entry has the colour', col.old(o.at(9)), c)
                        def nxt(b):
                            if b: env.true('entries increase', env.lt(o.at(9), o.at(10)))
                        env.cases(env.lt(q + 1, num), nxt)
                        def ordered(b):
                            if b: env.eq('contiguous table', o.at(9), o.at(2) + q); env.eq('last site', o.at(3), o.at(2) + num - 1)
                            else: env.eq('no start', o.at(2), -1); env.eq('no end', o.at(3), -1)
                        env.cases(env.eqc(o.at(1), 1), ordered)
                    def some(b):
                        if b: entry(None)
                    env.cases(env.lt(q, num), some)
                    def empty(b):
                        if not b: env.eq('empty: not ordered', o.at(1), 0); env.eq('empty: start', o.at(2), -1); env.eq('empty: end', o.at(3), -1)
                    env.cases(env.le(1, num), empty)
                    if not env.sym:
                        l = [i for i in range(V) if col.old(i) == c]
                        env.eq('contiguous exactly when flagged', o.at(1), 1 if l and l[-1] - l[0] == len(l) - 1 else 0)
                    def at(b):
                        if b: env.eq('the site is in the table at its rank', o.at(11), s)
                    def member(b):
                        if b: env.true('rank of the site below the size', env.lt(rk, num)); env.cases(env.lt(rk, num), at)
                    env.cases(inn, member)
                # the table is read at the rank of the site only when the site has the colour
                def go(b): env.run(fn, n + [col, old, o, c, s, q, rk if b else -1], post)
                if env.sym: env.cases(inn, go)
                else: go(bool(inn))
        for c in range(ns): sub(c)
    mk(form, ns)
# ------------------------------------------------------------- the colouring rules of the predefined sets
U2 = unit('setfunc', '$GEN', natlibs='ALL', omit=OM)
U2.text = HD + LAYSTUB + '''#include "qdp_layout.cc"
#include "qdp_subset.cc"
// Set::make is proved under its own contracts above: here it records the colour it would give the site at test_coord
static multi1d<int>* test_coord;
namespace QDP { void Set::make(const SetFunc& fn) { const int n = fn.numSubsets(); sub.resize(n); sitetables.resize(n); lat_color.resize(1); lat_color[0] = fn(*test_coord);
  for (int c = 0; c < n; ++c) sub[c].make(false, 10 * n + c, 20 * n + c, &sitetables[c], c, this); } 
 namespace Layout { LatticeInteger latticeCoordinate(int) { LatticeInteger d; return d; } } }
#define XS(x, n) multi1d<int> x((int*)xs, n);
H h_rb(const int* xs, int n, int* o) { XS(x, n); SetRBFunc f; o[0] = f(x); o[1] = f.numSubsets(); }
H h_rb3(const int* xs, int n, int* o) { XS(x, n); SetRB3Func f; o[0] = f(x); o[1] = f.numSubsets(); }
H h_mcb(const int* xs, int n, int* o) { XS(x, n); Set32CBFunc f; o[0] = f(x); o[1] = f.numSubsets(); }
H h_allf(const int* xs, int n, int* o) { XS(x, n); SetAllFunc f; o[0] = f(x); o[1] = f.numSubsets(); }
#define NEWSET(s) new(&(s)) Set;
#define PUTSUB(s, b, S, c) o[k++] = (b).hasOrderedRep(); o[k++] = (b).start(); o[k++] = (b).end(); o[k++] = (b).color(); o[k++] = &(b).getSet() == &(S) && &(b).siteTable() == &(S).sitetables[c];
H h_defaults(const int* xs, int* o) { XS(x, 4); test_coord = &x; NEWSET(QDP::rb); NEWSET(QDP::rb3); NEWSET(QDP::mcb); NEWSET(QDP::set_all); new(&QDP::all) Subset; new(&QDP::even) Subset; new(&QDP::odd) Subset;
  initDefaultSets(); int k = 0;
  o[k++] = QDP::rb.lat_color[0]; o[k++] = QDP::rb.numSubsets(); o[k++] = QDP::rb3.lat_color[0]; o[k++] = QDP::rb3.numSubsets(); o[k++] = QDP::mcb.lat_color[0]; o[k++] = QDP::mcb.numSubsets(); o[k++] = QDP::set_all.lat_color[0]; o[k++] = QDP::set_all.numSubsets();
  PUTSUB(QDP::all, QDP::all, QDP::set_all, 0) PUTSUB(QDP::even, QDP::even, QDP::rb, 0) PUTSUB(QDP::odd, QDP::odd, QDP::rb, 1) }
'''
def coords(env, lo=-1000000):
    return env.array('xs', 'i32', env_n(env), lo=lo, hi=1000000)
def env_n(env): return env.int('n', 0, 8, pick=lambda r: r.randint(0, 6))
@contract('C02', U2, 'checkerboard functor, any dimension')
def _(env):
    n = env_n(env); xs = env.array('xs', 'i32', n, lo=-1000000, hi=1000000); o = env.array('o', 'i32', 2); env.modifies(o, globals_ok=G)
    def post(res): env.eq('parity of the sum of the coordinates', o.at(0), env.mod(env.sum(n, lambda i: xs.old(i)), 2)); env.eq('two subsets', o.at(1), 2)
    env.run('h_rb', [xs, n, o], post)
@contract('C02', U2, '3d checkerboard functor')
def _(env):
    n = env.int('n', 3, 8, pick=lambda r: r.randint(3, 6)); xs = env.array('xs', 'i32', n, lo=-1000000, hi=1000000); o = env.array('o', 'i32', 2); env.modifies(o, globals_ok=G)
    def post(res): env.eq('parity of the first three coordinates', o.at(0), env.mod(xs.old(0) + xs.old(1) + xs.old(2), 2)); env.eq('two subsets', o.at(1), 2)
    env.run('h_rb3', [xs, n, o], post)
def mcbspec(env, xs):
    c = 0
    for k in range(4): c = c + env.mod(xs.old(k), 2) * 2 ** k
    s = 0
    for k in range(4): s = s + env.div(xs.old(k), 2)
    return c + 16 * env.mod(s, 2)
@contract('C02', U2, '32-colour functor')
def _(env):
    xs = env.array('xs', 'i32', 4, lo=0, hi=1000000); o = env.array('o', 'i32', 2); env.modifies(o, globals_ok=G)
    def post(res): env.eq('parities of the coordinates and of the block', o.at(0), mcbspec(env, xs)); env.eq('32 subsets', o.at(1), 32)
    env.run('h_mcb', [xs, 4, o], post)
@contract('C02', U2, 'functor of the whole lattice')
def _(env):
    n = env_n(env); xs = env.array('xs', 'i32', n, lo=-1000000, hi=1000000); o = env.array('o', 'i32', 2); env.modifies(o, globals_ok=G)
    def post(res): env.eq('one colour', o.at(0), 0); env.eq('one subset', o.at(1), 1)
    env.run('h_allf', [xs, n, o], post)
@contract('C02', U2, 'predefined sets and subsets')
def _(env):
    xs = env.array('xs', 'i32', 4, lo=0, hi=1000000); o = env.array('o', 'i32', 23); env.modifies(o, globals_ok=G + ('test_coord', 'mcb', 'set_all', '2rb', '3rb3', 'even', '3odd'))
    def post(res):
        x = [xs.old(k) for k in range(4)]
        for k, (nm, v) in enumerate([('rb', env.mod(x[0] + x[1] + x[2] + x[3], 2)), ('rb subsets', 2), ('rb3', env.mod(x[0] + x[1] + x[2], 2)), ('rb3 subsets', 2), ('mcb', mcbspec(env, xs)), ('mcb subsets', 32), ('set_all', 0), ('set_all subsets', 1)]): env.eq(nm, o.at(k), v)
        for k, (nm, n, c) in enumerate([('all', 1, 0), ('even', 2, 0), ('odd', 2, 1)]):
            for j, (f, v) in enumerate([('ordered', 0), ('start', 10 * n + c), ('end', 20 * n + c), ('colour', c), ('tables', 1)]): env.eq('%s: %s' % (nm, f), o.at(8 + 5 * k + j), v)
    env.run('h_defaults', [xs, o], post)
# ------------------------------------------------------------- copies of sets and subsets
U2.text += '''
#define TWO(A) Set A; A.sub.resize(2); A.sitetables.resize(2); A.lat_color.resize(V); for (int i = 0; i < V; ++i) A.lat_color[i] = col[i]; \\
  A.sitetables[0].resize(n0); for (int i = 0; i < n0; ++i) A.sitetables[0][i] = t0[i]; A.sitetables[1].resize(n1); for (int i = 0; i < n1; ++i) A.sitetables[1][i] = t1[i]; \\
  A.sub[0].make(f[0], f[1], f[2], &A.sitetables[0], 0, &A); A.sub[1].make(f[3], f[4], f[5], &A.sitetables[1], 1, &A);
#define ARGS int V, const int* col, int n0, const int* t0, int n1, const int* t1, const int* f
#define SHOW(B, b) o[0] = b.hasOrderedRep(); o[1] = b.start(); o[2] = b.end(); o[3] = b.color(); o[4] = &b.getSet() == &B && &b.siteTable() == &B.sitetables[c]; o[5] = b.numSiteTable(); o[6] = b.siteTable()[q]; o[7] = B.numSubsets(); o[8] = B.latticeColoring().size(); o[9] = B.latticeColoring()[s];
__attribute__((noinline)) static Set& sameset(Set& a) { return a; }
H h_scopy(ARGS, int c, int q, int s, int* o) { TWO(A); Set B(A); A.sitetables[c][q] = -5; A.lat_color[s] = -6; const Subset& b = B[c]; SHOW(B, b) }
H h_sassign(ARGS, int c, int q, int s, int* o) { TWO(A); Set B; B = A; A.sitetables[c][q] = -5; A.lat_color[s] = -6; const Subset& b = B[c]; SHOW(B, b) }
H h_sself(ARGS, int c, int q, int s, int* o) { TWO(A); A = sameset(A); const Subset& b = A[c]; SHOW(A, b) }
H h_sover(ARGS, int m, int c, int q, int s, int* o) { TWO(A); Set B; B.sub.resize(m); B.sitetables.resize(m); B.lat_color.resize(m); B = A; const Subset& b = B[c]; SHOW(B, b) }
H h_sdead(ARGS, int c, int q, int s, int* o) { Set B; { TWO(A); B = A; } const Subset& b = B[c]; SHOW(B, b) }
H h_bcopy(ARGS, int c, int q, int s, int* o) { TWO(A); Subset b(A[c]); SHOW(A, b) }
H h_bassign(ARGS, int c, int q, int s, int* o) { TWO(A); Subset b; b = A[c]; SHOW(A, b) }
H h_bmake(ARGS, int c, int q, int s, int* o) { TWO(A); Subset b; b.make(A[c]); SHOW(A, b) }
'''
def copy(fn, nm, m=None):
    def two(c):
        @contract('C02', U2, '%s: subset %d' % (nm, c))
        def _(env):
            V = env.int('V', 1, CAP, pick=lambda r: r.randint(1, 9)); ns = [env.int('n%d' % k, 0, CAP, pick=lambda r: r.randint(0, 9)) for k in (0, 1)]
            env.assume(env.le(1, ns[c])); q = env.int('q', 0, ns[c] - 1, pick=lambda r: r.randrange(max(1, ns[c]))); s = env.int('s', 0, V - 1, pick=lambda r: r.randrange(V))
            col = env.array('col', 'i32', V, lo=0, hi=1); ts = [env.array('t%d' % k, 'i32', ns[k], lo=0, hi=V - 1) for k in (0, 1)]
            f = env.array('f', 'i32', 6, lo=0, hi=1); o = env.array('o', 'i32', 10)
            extra = [] if m is None else [m]
            env.modifies(o, globals_ok=G)
            def post(res):
                for k in range(3): env.eq(('ordered flag', 'start', 'end')[k], o.at(k), f.old(3 * c + k))
                for k, (w, v) in enumerate([('colour', c), ('refers to its own set', 1), ('size', ns[c]), ('site table', ts[c].old(q)), ('subsets', 2), ('sites coloured', V), ('colour table', col.old(s))]): env.eq(w, o.at(3 + k), v)
            env.run(fn, [V, col, ns[0], ts[0], ns[1], ts[1], f] + extra + [c, q, s, o], post)
    two(0); two(1)
for fn, nm, m in (('h_scopy', 'copy of a set', None), ('h_sassign', 'assignment of a set', None), ('h_sself', 'self-assignment of a set', None), ('h_sover', 'assignment over a set of two subsets', 2), ('h_sover', 'assignment over a set of three subsets', 3), ('h_sdead', 'assigned set outlives its source', None),
                  ('h_bcopy', 'copy of a subset', None), ('h_bassign', 'assignment of a subset', None), ('h_bmake', 'Subset::make from a subset', None)): copy(fn, nm, m)
# ------------------------------------------------------------- the coordinate field
U.text += '''H h_latcoord(N4, X4(x), int mu, int* o) { SETN; MKC(c, x); int i = Layout::linearSiteIndex(c); LatticeInteger d(Layout::latticeCoordinate(mu)); o[0] = d.elem(i).elem().elem().elem(); }
'''
for mu in range(4):
    def latcoord(env, mu=mu):
        n, V, xs = stubcoords(env); o = env.array('o', 'i32', 1); env.modifies(o, globals_ok=G)
        for x in xs: env.run('h_latcoord', n + x + [mu, o], lambda r: env.eq('coordinate of the site', o.at(0), x[mu]))
    contract('C02', U, 'latticeCoordinate(%d)' % mu)(latcoord)
