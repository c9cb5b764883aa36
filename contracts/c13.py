"""The lattice random numbers.  Seed arithmetic: product, shift, or, assignment and conversion of the four-digit seeds are the exact operations modulo 2^47.
Fills: the value at a site is a function of the starting seed and the site's own multiplier, the global seed advances by the same stride whatever the
subset.  Initialisation: the multiplier of a site is a^(lexicographic number + 1), in every layout, and the stride is a^(volume + 1)."""
from .lat import *
from qvc.exec import Undecided
from .c05 import HEAD3
from .c18 import CAP
from .c03 import SETN, stubcoords
META = dict(assumptions=['seed digits are in range (three of 12 bits, the last of 11), an invariant every operation here is proved to keep', 'floating point is treated as exact real arithmetic (single precision rounds a value within 2^-25 of 1 to 1)', 'at most 80e6 local sites'])
M47 = 1 << 47
OMIT = ('qdp_strnlen.cc', 'qdp_random.cc')
HD = '#include "h.h"\n'
SD = '''
typedef PSeed<RScalar<INTEGER32> > PS;
#define MKSEED(v, p) Seed v; for (int k_ = 0; k_ < 4; ++k_) v.elem().elem().elem(k_).elem() = (p)[k_];
#define GETSEED(p, v) for (int k_ = 0; k_ < 4; ++k_) (p)[k_] = (v).elem().elem().elem(k_).elem();
#define SETSEED(v, p) for (int k_ = 0; k_ < 4; ++k_) (v).elem().elem().elem(k_).elem() = (p)[k_];
'''
# the product of two seeds is known to its users by its contract (proved below from its own code)
MULSTUB = '''
#ifdef QVC_IR
extern "C" int qvc_seedmul(int k, int a0, int a1, int a2, int a3, int b0, int b1, int b2, int b3);
namespace QDP { template<> inline BinaryReturn<PSeed<RScalar<INTEGER32> >, PSeed<RScalar<INTEGER32> >, OpMultiply>::Type_t
operator*(const PSeed<RScalar<INTEGER32> >& a, const PSeed<RScalar<INTEGER32> >& b)
{ PSeed<RScalar<INTEGER32> > d; for (int k = 0; k < 4; ++k) d.elem(k).elem() = qvc_seedmul(k, a.elem(0).elem(), a.elem(1).elem(), a.elem(2).elem(), a.elem(3).elem(), b.elem(0).elem(), b.elem(1).elem(), b.elem(2).elem(), b.elem(3).elem()); return d; } }
#endif
'''
TOP = (4095, 4095, 4095, 2047)
def seed(env, name, n=1, **kw):
    """n seeds, digits in range"""
    a = env.array(name, 'i32', 4 * n, lo=0, hi=4095, **kw) if env.sym else env.array(name, 'i32', 4 * n, pick=lambda r: [r.choice((r.randint(0, TOP[k % 4]), TOP[k % 4], 0)) for k in range(4 * n)])
    if env.sym: env.elem_axiom(a, lambda i, v: env.or_(env.nec(env.mod(i, 4), 3), env.le(v, 2047)))
    return a
def val(d): return ((d[3] * 4096 + d[2]) * 4096 + d[1]) * 4096 + d[0]
def old(a, b=0): return [a.old(b + k) for k in range(4)]
def at(a, b=0): return [a.at(b + k) for k in range(4)]
def inrange(env, lab, d):
    for k in range(4): env.true('%s digit %d in range' % (lab, k), env.and_(env.le(0, d[k]), env.le(d[k], TOP[k])))
def congr(env, lab, d, v):
    inrange(env, lab, d)
    env.eq(lab + ' modulo 2^47', env.mod(val(d) - v, M47), 0)

# ------------------------------------------------------------- arithmetic of seeds
U = unit('seed', '$GEN', natlibs='ALL', omit=OMIT)
U.text = HD + SD + '#include "qdp_random.cc"\n' + '''
H h_mul(const int* a, const int* b, int* o) { MKSEED(x, a); MKSEED(y, b); Seed z; z = x * y; GETSEED(o, z); GETSEED(o + 4, x); GETSEED(o + 8, y); }
H h_mulp(const int* a, const int* b, int* o) { MKSEED(x, a); MKSEED(y, b); PS z = x.elem().elem() * y.elem().elem(); for (int k = 0; k < 4; ++k) o[k] = z.elem(k).elem(); GETSEED(o + 4, x); GETSEED(o + 8, y); }
H h_sqr(const int* a, int* o) { MKSEED(x, a); Seed z; z = x * x; GETSEED(o, z); GETSEED(o + 4, x); GETSEED(o + 8, x); }
H h_shl(const int* a, int s, int* o) { MKSEED(x, a); Seed z; z = x << Integer(s); GETSEED(o, z); }
H h_or(const int* a, const int* b, int* o) { MKSEED(x, a); MKSEED(y, b); Seed z; z = x | y; GETSEED(o, z); }
H h_ori(const int* a, int b, int* o) { MKSEED(x, a); Seed z; z = x | Integer(b); GETSEED(o, z); }
H h_fromint(int a, int* o) { Seed z; z = a; GETSEED(o, z); Seed y(a); GETSEED(o + 4, y); }
H h_copy(const int* a, int* o) { MKSEED(x, a); Seed y(x), z; z = x; GETSEED(o, y); GETSEED(o + 4, z); zero_rep(y); GETSEED(o + 8, y); GETSEED(o + 12, x); }
H h_eq(const int* a, const int* b, int* o) { MKSEED(x, a); MKSEED(y, b); o[0] = toBool(x == y); o[1] = toBool(x != y); }
H h_tofloat(const int* a, R* r) { MKSEED(x, a); Real f; f = seedToFloat(x); *r = toFloat(f); }
H h_mask(const int* a, const int* b, int c, int* o) { MKSEED(x, a); MKSEED(y, b); Boolean m; m = c > 0; copymask(x, m, y); GETSEED(o, x); }
H h_sranf(const int* s, const int* w, const int* m, int* o, float* r) { MKSEED(x, s); MKSEED(y, w); MKSEED(z, m); *r = RNG::sranf(x, y, z); GETSEED(o, x); GETSEED(o + 4, y); GETSEED(o + 8, z); }
H h_setsave(const int* s, int* o) { MKSEED(x, s); Seed y; RNG::setrn(x); x = 3; RNG::savern(y); GETSEED(o, y); y = 5; RNG::savern(x); GETSEED(o + 4, x); }
H h_numbits(int x, int* o) { *o = RNG::numbits(x); }
'''
G = ('ran_seed', 'ran_mult', 'lattice_ran_mult')
def prod(env, fn, two=True):
    def run(env):
        a = seed(env, 'a'); b = seed(env, 'b') if two else a; o = env.array('o', 'i32', 12, init='uninit'); env.modifies(o)
        def post(res):
            congr(env, 'product', at(o), val(old(a)) * val(old(b)))
            for k in range(4): env.eq('first factor unchanged', o.at(4 + k), a.old(k)); env.eq('second factor unchanged', o.at(8 + k), b.old(k))
        env.run(fn, [a, b, o] if two else [a, o], post)
    return run
contract('C13', U, 'product of seeds modulo 2^47')(prod(None, 'h_mul'))
contract('C13', U, 'product of seeds (site level)')(prod(None, 'h_mulp'))
contract('C13', U, 'square of a seed')(prod(None, 'h_sqr', False))
@contract('C13', U, 'seed << s')
def _(env):
    a = seed(env, 'a'); o = env.array('o', 'i32', 4, init='uninit'); env.modifies(o)
    for s in range(0, 13):
        def post(res):
            inrange(env, 'a << %d' % s, at(o))
            env.eq('a << %d modulo 2^47' % s, val(at(o)) + M47 * (env.div(a.old(3) * (1 << s), 2048) + (env.div(a.old(2), 2048) if s == 12 else 0)), val(old(a)) * (1 << s))
        env.run('h_shl', [a, s, o], post)
@contract('C13', U, 'seed from an int')
def _(env):
    a = env.int('a', 0, (1 << 31) - 1); o = env.array('o', 'i32', 8, init='uninit'); env.modifies(o)
    def post(res):
        for b in (0, 4): inrange(env, 'digits', at(o, b)); env.eq('value', val(at(o, b)), a)
    env.run('h_fromint', [a, o], post)
@contract('C13', U, 'seed copies and zero')
def _(env):
    a = seed(env, 'a'); o = env.array('o', 'i32', 16, init='uninit'); env.modifies(o)
    def post(res):
        for k in range(4):
            for b in (0, 4, 12): env.eq('digit %d' % k, o.at(b + k), a.old(k))
            env.eq('zero %d' % k, o.at(8 + k), 0)
    env.run('h_copy', [a, o], post)
@contract('C13', U, 'comparison of seeds')
def _(env):
    a = seed(env, 'a'); b = seed(env, 'b'); o = env.array('o', 'i32', 2, init='uninit'); env.modifies(o)
    def post(res):
        same = env.and_(*[env.eqc(a.old(k), b.old(k)) for k in range(4)])
        env.true('==', env.or_(env.and_(same, env.eqc(o.at(0), 1)), env.and_(env.not_(same), env.eqc(o.at(0), 0))))
        env.true('!=', env.eqc(o.at(0) + o.at(1), 1))
    env.run('h_eq', [a, b, o], post)
@contract('C13', U, 'seedToFloat is S/2^47 in [0,1)')
def _(env):
    a = seed(env, 'a') if env.sym else env.array('a', 'i32', 4, pick=lambda r: [0, 0, 0, r.randint(0, 2047)]); r = env.array('r', 'float', 1, init='uninit'); env.modifies(r)
    def post(res):
        env.eq('value', r.at(0) * M47, val(old(a)))
        env.true('>= 0', env.rel('le', 0, r.at(0), True)); env.true('< 1', env.rel('lt', r.at(0), 1, True))
    env.run('h_tofloat', [a, r], post)
@contract('C13', U, 'masked copy of a seed')
def _(env):
    a = seed(env, 'a'); b = seed(env, 'b'); c = env.int('c', -1, 1); o = env.array('o', 'i32', 4, init='uninit'); env.modifies(o)
    def post(res):
        for k in range(4): env.eq('digit %d' % k, o.at(k), env.ite(env.lt(0, c), b.old(k), a.old(k)))
    env.run('h_mask', [a, b, c, o], post)
@contract('C13', U, 'sranf: one draw')
def _(env):
    s = seed(env, 's'); w = seed(env, 'w') if env.sym else env.array('w', 'i32', 4, pick=lambda r: [0, 0, 0, r.randint(0, 2047)]); m = seed(env, 'm'); o = env.array('o', 'i32', 12, init='uninit'); r = env.array('r', 'float', 1, init='uninit'); env.modifies(o, r)
    def post(res):
        env.eq('value', r.at(0) * M47, val(old(w)))
        congr(env, 'seed', at(o), val(old(s)) * val(old(m))); congr(env, 'skewed seed', at(o, 4), val(old(w)) * val(old(m)))
        for k in range(4): env.eq('multiplier unchanged', o.at(8 + k), m.old(k))
    env.run('h_sranf', [s, w, m, o, r], post)
@contract('C13', U, 'setrn / savern round-trip')
def _(env):
    s = seed(env, 's'); o = env.array('o', 'i32', 8, init='uninit'); env.modifies(o, globals_ok=G)
    def post(res):
        for k in range(8): env.eq('digit %d' % k, o.at(k), s.old(k % 4))
    env.run('h_setsave', [s, o], post)
@contract('C13', U, 'numbits')
def _(env):
    o = env.array('o', 'i32', 1, init='uninit'); env.modifies(o)
    for b in range(1, 30):
        x = env.int('x%d' % b, 0 if b == 1 else 1 << (b - 1), (1 << b) - 1)
        env.run('h_numbits', [x, o], lambda res: env.eq('numbits', o.at(0), b))

# ------------------------------------------------------------- fills
def smul(env, a, b):
    """digits of the product, as the code is given them (symbolically: by contract)"""
    if env.sym:
        from qvc import models as M
        return M.seed_mul(a, b)
    v = val([int(x) for x in a]) * val([int(x) for x in b]) % M47
    return [v & 4095, v >> 12 & 4095, v >> 24 & 4095, v >> 36]
def symmul(env):
    if env.sym:
        from qvc import models as M
        M.SEEDMUL.clear()
GR = ('prof', 'ran_seed', 'ran_mult', 'ran_mult_n', 'lattice_ran_mult', '_layout', '3allE', 'Layout', 'Singleton', 'Allocator')
FT = ['LatticeReal', 'LatticeComplex', 'LatticeColorVector', 'LatticeColorMatrix', 'LatticeFermion', 'LatticeRealD', 'LatticeComplexD', 'LatticeSpinVector', 'LatticeSpinMatrix', 'LatticeHalfFermion', 'LatticeStaggeredFermion']
WD = dict(LatticeReal=1, LatticeComplex=2, LatticeColorVector=6, LatticeColorMatrix=18, LatticeFermion=24, LatticeRealD=1, LatticeComplexD=2, LatticeSpinVector=8, LatticeSpinMatrix=32, LatticeHalfFermion=12, LatticeStaggeredFermion=6)
STR = dict(WD, LatticeStaggeredFermion=8)      # reals from one site to the next
UF = unit('fill', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc', 'qdp_random.cc'))
UF.text = HD + MULSTUB + SD + HEAD3.replace('#include "h.h"\n', '') + '#include "qdp_random.cc"\n' + """
#define GLOB SETVOL(V); Layout::_layout.subgrid_vol = V; SETSEED(RNG::ran_seed, s); SETSEED(RNG::ran_mult, m); SETSEED(RNG::ran_mult_n, mn); LatticeSeed lat((LatticeSeed::Subtype_t*)lm, 0.0f); RNG::lattice_ran_mult = &lat;
#define GARGS const int* s, const int* m, const int* mn, int* lm, int V, int* o
#define GOUT GETSEED(o, RNG::ran_seed); GETSEED(o + 4, RNG::ran_mult); GETSEED(o + 8, RNG::ran_mult_n);
"""
for T in FT:
    UF.text += 'H h_sub_%s(%s* D, GARGS, SUBARGS) { GLOB; MKSUB(ss, tab, n, ord, st, en); LAT(%s, d, D); random(d, ss); GOUT }\n' % (T, 'double' if T.endswith('D') else 'R', T)
    UF.text += 'H h_all_%s(%s* D, GARGS, SUBARGS) { GLOB; SETALLT(tab, n, ord, st, en); LAT(%s, d, D); random(d); GOUT }\n' % (T, 'double' if T.endswith('D') else 'R', T)
    UF.text += 'H h_gsub_%s(%s* D, GARGS, SUBARGS) { GLOB; MKSUB(ss, tab, n, ord, st, en); LAT(%s, d, D); gaussian(d, ss); GOUT }\n' % (T, 'double' if T.endswith('D') else 'R', T)
    UF.text += 'H h_gall_%s(%s* D, GARGS, SUBARGS) { GLOB; SETALLT(tab, n, ord, st, en); LAT(%s, d, D); gaussian(d); GOUT }\n' % (T, 'double' if T.endswith('D') else 'R', T)
    S = T.replace('Lattice', '')
    UF.text += 'H h_scal_%s(%s* D, GARGS) { GLOB; %s d; random(d); *(%s*)D = d; GOUT }\n' % (T, 'double' if T.endswith('D') else 'R', S, S)
def stream(env, w, first, mul):
    """the digits of the skewed seed at each draw"""
    r = [first]
    for c in range(1, w): r.append(smul(env, r[-1], mul))
    return r
def fill(T, mode):
    w = WD[T]; sw = STR[T]; et = 'double' if T.endswith('D') else 'float'
    def run(env):
        symmul(env)
        s = seed(env, 's'); m = seed(env, 'm'); mn = seed(env, 'mn')
        V = sites(env) if mode != 'scal' else 1
        lm = seed(env, 'lm', V if mode != 'scal' else 1); o = env.array('o', 'i32', 12, init='uninit'); D = env.array('D', et, V * sw)
        env.modifies(D, o, globals_ok=GR)
        sb = Sub(env, V, mode in ('ordered', 'all', 'view')) if mode != 'scal' else None
        mul = old(m if mode == 'scal' else mn)
        def post(res):
            end = old(s)
            for c in range(w): end = smul(env, end, mul)
            for k in range(4):
                env.eq('global seed digit %d' % k, o.at(k), end[k]); env.eq('multiplier unchanged', o.at(4 + k), m.old(k)); env.eq('stride unchanged', o.at(8 + k), mn.old(k))
            def inn(i):
                q = stream(env, w, smul(env, old(s), old(m) if mode == 'scal' else old(lm, 4 * i)), mul)
                for c in range(w): 
                    v = val(q[c]); x = D.at(sw * i + c)
                    env.eq('component %d at the site' % c, x, v / M47 if env.sym else near(v))
            def out(i):
                for c in range(w): env.eq('outside the subset', D.at(sw * i + c), D.old(sw * i + c))
            if sb is None: inn(0)
            else: sb.each(inn); sb.outside(out)
        env.run('h_%s_%s' % ({'ordered': 'sub', 'table': 'sub'}.get(mode, mode), T), [D, s, m, mn, lm, V, o] + (sb.args if sb else []), post)
    return run
def near(v):
    """the single precision value the conversion yields, digit by digit"""
    import ctypes
    f = lambda x: Fraction(ctypes.c_float(float(x)).value)
    d = [v & 4095, v >> 12 & 4095, v >> 24 & 4095, v >> 36]
    x = f(Fraction(d[0], 4096))
    for k in (1, 2): x = f(f(d[k] + x) / 4096)
    return f(f(d[3] + x) / 2048)
for T in FT:
    for mode in ('ordered', 'table', 'all', 'scal'):
        contract('C13', UF, 'random %s/%s' % (T.replace('Lattice', '') if mode == 'scal' else T, mode))(fill(T, mode))

TWOPI = {'float': Fraction(6.2831854820251464844), 'double': Fraction(6.283185307)}
def gauss(T, mode):
    """two fills one after the other, then the polar form at each site (complex: from the real parts)"""
    w = WD[T]; sw = STR[T]; et = 'double' if T.endswith('D') else 'float'; cplx = 'Real' not in T
    def run(env):
        symmul(env)
        s = seed(env, 's'); m = seed(env, 'm'); mn = seed(env, 'mn'); V = sites(env); lm = seed(env, 'lm', V); o = env.array('o', 'i32', 12, init='uninit'); D = env.array('D', et, V * sw)
        env.modifies(D, o, globals_ok=GR)
        sb = Sub(env, V, mode != 'table')
        def post(res):
            end = [old(s)]
            for c in range(2 * w): end.append(smul(env, end[-1], old(mn)))
            for k in range(4): env.eq('global seed digit %d' % k, o.at(k), end[-1][k])
            def inn(i):
                u = [[val(d) / Fraction(M47) for d in stream(env, w, smul(env, e, old(lm, 4 * i)), old(mn))] for e in (end[0], end[w])]
                for c in range(w):
                    k = c // 2 * 2 if cplx else c
                    env.eq('component %d at the site' % c, D.at(sw * i + c), env.sqrt(-2 * env.fn('log', u[0][k])) * env.fn('sin' if cplx and c % 2 else 'cos', u[1][k] * TWOPI[et]))
            sb.each(inn)
            sb.outside(lambda i: [env.eq('outside the subset', D.at(sw * i + c), D.old(sw * i + c)) for c in range(w)])
        env.run('h_g%s_%s' % ('all' if mode == 'all' else 'sub', T), [D, s, m, mn, lm, V, o] + sb.args, post)
    return run
for T in FT:
    for mode in ('ordered', 'table', 'all'): contract('C13', UF, 'gaussian %s/%s' % (T, mode), no_native=True)(gauss(T, mode))

# ------------------------------------------------------------- initialisation
# seeds are powers of the multiplier; products add the exponents (contract of the product), so the table is decided on the exponents
UI = unit('rnginit', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc', 'qdp_layout.cc', 'qdp_random.cc', 'qdp_profile.cc', 'qdp_scalarsite_specific.cc'))
UI.text = HD + '#include <sstream>\n#ifndef QVC_IR\n#define QUIET static std::ostringstream ss_; ss_.str(""); QDPIO::cout.init(&ss_);\n#else\n#define QUIET\n#endif\n' + MULSTUB + SD + HEAD3.replace('#include "h.h"\n', '').replace('#include "qdp_scalar_layout.cc"\n', LAYSTUB) + '#include "qdp_layout.cc"\n#include "qdp_random.cc"\n#include "qdp_profile.cc"\n#include "qdp_scalarsite_specific.cc"\n' + SETN + '''
#define SETNV SETN; Layout::_layout.vol = vol; Layout::_layout.subgrid_vol = vol;
H h_init(N4, int vol, X4(x), const int* tab, int* o) { SETNV; MKC(c, x); multi1d<int> all_t((int*)tab, Layout::_layout.vol); all.sitetable = &all_t; all.ordRep = true; all.startSite = 0; all.endSite = Layout::_layout.vol - 1;
  QUIET RNG::initRNG(); GETSEED(o, RNG::ran_mult); GETSEED(o + 4, RNG::ran_mult_n); Seed z; z.elem() = RNG::lattice_ran_mult->elem(Layout::linearSiteIndex(c)); GETSEED(o + 8, z); RNG::finalizeRNG(); RNG::lattice_ran_mult = 0; }
H h_default(N4, int vol, const int* tab, int* o) { SETNV; multi1d<int> all_t((int*)tab, Layout::_layout.vol); all.sitetable = &all_t; all.ordRep = true; all.startSite = 0; all.endSite = Layout::_layout.vol - 1;
  QUIET RNG::initDefaultRNG(); GETSEED(o, RNG::ran_seed); RNG::finalizeRNG(); RNG::lattice_ran_mult = 0; }
'''
MULT = val((1645, 712, 1498, 1222))
def power(env, lab, d, e):
    """the digits are those of a^e"""
    v = pow(MULT, e, M47)
    for k in range(4): env.eq('%s digit %d' % (lab, k), d[k], v >> 12 * k & TOP[k])
def horner(n, x): return x[0] + n[0] * (x[1] + n[1] * (x[2] + n[2] * x[3]))
def horner(n, x): return x[0] + n[0] * (x[1] + n[1] * (x[2] + n[2] * x[3]))
def geom(env):
    if env.sym: raise Undecided('initRNG (loops over the bits of the volume, each with passes over the lattice) is beyond the engine: bounded check')
    n, V, xs = stubcoords(env)
    return n, V, xs[0], env.array('tab', 'i32', V, pick=lambda r: list(range(V)))
@contract('C13', UI, 'initRNG: stride and multiplier of every site (bounded: random lattices up to 6x4x4x4)', bounded_ok=True)
def init(env):
    n, V, x, tab = geom(env)
    o = env.array('o', 'i32', 12, init='uninit'); env.modifies(o, globals_ok=GR)
    def post(res):
        for k in range(4): env.eq('multiplier digit %d' % k, o.at(k), (1645, 712, 1498, 1222)[k])
        power(env, 'stride is a^(volume + 1)', at(o, 4), V + 1)
        power(env, 'multiplier of a site is a^(lexicographic number + 1)', at(o, 8), horner(n, x) + 1)
    env.run('h_init', n + [V] + x + [tab, o], post)
@contract('C13', UI, 'initDefaultRNG: the seed is 11 (bounded: random lattices up to 6x4x4x4)', bounded_ok=True)
def default(env):
    n, V, x, tab = geom(env)
    o = env.array('o', 'i32', 4, init='uninit'); env.modifies(o, globals_ok=GR)
    def post(res):
        for k in range(4): env.eq('seed digit %d' % k, o.at(k), (11, 0, 0, 0)[k])
    env.run('h_default', n + [V, tab, o], post)
