from qvc.reg import unit, contract, CONTRACTS
from fractions import Fraction
VMAX = 80_000_000        # local sites: 24*V must fit a 32-bit int, as the library assumes

class C:
    """complex number over the verifier's ring (or Fractions natively)"""
    __slots__ = ('r', 'i')
    def __init__(s, r, i=0): s.r = r; s.i = i
    def __add__(s, o): o = cx(o); return C(s.r + o.r, s.i + o.i)
    def __radd__(s, o): return cx(o) + s
    def __sub__(s, o): o = cx(o); return C(s.r - o.r, s.i - o.i)
    def __rsub__(s, o): return cx(o) - s
    def __mul__(s, o):
        o = cx(o); return C(s.r * o.r - s.i * o.i, s.r * o.i + s.i * o.r)
    def __rmul__(s, o): return cx(o) * s
    def __neg__(s): return C(-s.r, -s.i)
    def conj(s): return C(s.r, -s.i)
    def norm2(s): return s.r * s.r + s.i * s.i
    def times_i(s): return C(-s.i, s.r)
def cx(o): return o if isinstance(o, C) else C(o, 0)
I = C(0, 1)

class Sub:
    """a subset satisfying its class invariant: ordered -> contiguous range start..end, else an injective table of sites"""
    def __init__(s, env, V, ordered, nonempty=False, name='tab'):
        s.env = env; s.ordered = ordered; s.V = V
        s.n = env.int('n_' + name, 1 if nonempty else 0)
        env.assume(env.le(s.n, V))
        if ordered:
            s.start = env.int('start_' + name, 0)
            env.assume(env.le(s.start + s.n, V))
            s.end = s.start + s.n - 1
            if env.sym:
                from qvc.poly import idiv, padd
                st = s.start
                s.tab = env.array(name, 'i32', s.n, fn=lambda off, kind, nb: padd(st, idiv(off, 4)))
            else:
                s.tab = env.array(name, 'i32', s.n, pick=lambda r: [s.start + j for j in range(int(s.n))])
        else:
            s.start = env.int('start_' + name, 0, VMAX); s.end = env.int('end_' + name, -1, VMAX)
            s.tab = env.array(name, 'i32', s.n, lo=0, hi=V - 1, injective=True)
        s.lo, s.hi = 0, s.n
        if getattr(env, 'threads', False):         # one worker: positions lo .. hi-1 of the table only
            s.lo = env.int('lo_' + name, 0); s.hi = env.int('hi_' + name, 0)
            env.assume(env.le(s.lo, s.hi)); env.assume(env.le(s.hi, s.n))
            env.set_range(s.lo, s.hi)
        s.args = [s.tab, s.n, 1 if ordered else 0, s.start, s.end]
    def site(s, j): return s.tab.old(j)
    def range(s):
        """positions of the table the call is responsible for: one worker's share when the loop is dispatched, else all"""
        if getattr(s.env, 'threads', False):
            c = s.env.range_count()
            if c is not None:
                s.env.eq('number of sites handed to the dispatch', c, s.n)
                return s.lo, s.hi
        return 0, s.n
    def each(s, f):
        lo, hi = s.range()
        s.env.forall('j', lo, hi, lambda j: f(s.site(j)))
    def outside(s, f):
        env = s.env
        if getattr(env, 'threads', False):
            lo, hi = s.range()
            env.forall('b', 0, lo, lambda j: f(s.site(j)))
            env.forall('a', hi, s.n, lambda j: f(s.site(j)))
        if s.ordered:
            env.forall('o', 0, s.start, f)
            env.forall('o', s.start + s.n, s.V, f)
        elif env.sym:
            from qvc.poly import c_ne, psub, avar
            def g(i):
                nm = s.tab.name
                env.ex.prover.axioms.append(lambda a: [c_ne(psub(i, avar(a)))] if a.kind == 'cell' and a.data[0] == nm else ())
                env.ex.prover.cache.clear()
                try: f(i)
                finally:
                    env.ex.prover.axioms.pop(); env.ex.prover.cache.clear()
            env.forall('o', 0, s.V, g)
        else:
            m = {s.tab.old(j) for j in range(s.tab.n)}
            env.forall('o', 0, s.V, f, cond=lambda i: i not in m)

class Field:
    """lattice field of k complex (or real) numbers per site"""
    def __init__(s, env, name, V, k, et='float', cplx=True, init='sym'):
        s.env = env; s.k = k; s.w = 2 if cplx else 1; s.cplx = cplx
        s.words = k * s.w
        s.a = env.array(name, et, V * s.words, init=init)
        s.name = name
    def old(s, site, c):
        b = site * s.words + c * s.w
        return C(s.a.old(b), s.a.old(b + 1)) if s.cplx else s.a.old(b)
    def at(s, site, c):
        b = site * s.words + c * s.w
        return C(s.a.at(b), s.a.at(b + 1)) if s.cplx else s.a.at(b)

def ceq(env, label, got, want):
    got = cx(got); want = cx(want)
    env.eq(label + '.re', got.r, want.r)
    env.eq(label + '.im', got.i, want.i)

def sites(env, lo=1): return env.int('V', lo, VMAX)

def check_sub(env, sub, dst, spec, label='d'):
    """every component of dst at every subset site equals spec(site, c); every other site is unchanged"""
    def inn(site):
        for c in range(dst.k):
            w = spec(site, c)
            if dst.cplx: ceq(env, '%s[%d]' % (label, c), dst.at(site, c), w)
            else: env.eq('%s[%d]' % (label, c), dst.at(site, c), w)
    def out(site):
        for c in range(dst.k):
            if dst.cplx: ceq(env, '%s outside subset[%d]' % (label, c), dst.at(site, c), dst.old(site, c))
            else: env.eq('%s outside subset[%d]' % (label, c), dst.at(site, c), dst.old(site, c))
    sub.each(inn)
    sub.outside(out)

LAYSTUB = '''
#ifdef QVC_IR
// the layout functions are known here by their contract (proved under C01); replays use the real ones
#define siteCoords siteCoords_body
#define linearSiteIndex linearSiteIndex_body
namespace QDP { namespace Layout { multi1d<int> siteCoords(int node, int linear); int linearSiteIndex(const multi1d<int>& c); int linearSiteIndex(int site); } }
#endif
#include "qdp_scalar_layout.cc"
#ifdef QVC_IR
#undef siteCoords
#undef linearSiteIndex
extern "C" int qvc_crd(int k, int i); extern "C" int qvc_lin(int, int, int, int);
namespace QDP { namespace Layout {
  multi1d<int> siteCoords(int node, int linear) { multi1d<int> c(4); for (int k = 0; k < 4; ++k) c[k] = qvc_crd(k, linear); return c; }
  int linearSiteIndex(const multi1d<int>& c) { return qvc_lin(c[0], c[1], c[2], c[3]); }
  int linearSiteIndex(int site) { return linearSiteIndex(crtesn(site, lattSize())); }
} }
#endif
'''
def layout_contract(env, n, V):
    """siteCoords and linearSiteIndex are known by their contract only (the real ones natively)"""
    if not env.sym: return
    from qvc import models as M
    M.LAY.clear()
    M.LAY.update(n=n, V=V, obj=[env.array('extent%d' % k, 'i8', n[k]).obj for k in range(len(n))], objV=env.array('sites', 'i8', V).obj)
    nm = {'crd%d' % k: n[k] for k in range(len(n))}; nm['lin'] = V
    from qvc.poly import c_le, psub, avar
    env.ex.prover.axioms.append(lambda a: [c_le(psub(avar(a), psub(nm[a.data[0]], 1)))] if a.kind == 'app' and a.data[0] in nm else ())

def lat_array(env, name, N, base, stride):
    """array of N OLattice objects {mem, F}: F of element k points at base + k*stride"""
    if env.sym:
        from qvc.poly import idiv, umod, pmul
        from qvc.exec import Ptr
        def fn(off, kind, nb):
            if kind == 'ptr': return Ptr(base.obj, pmul(idiv(off, 16), stride * 4))
            return None
        return env.array(name, 'ptr', N * 2, fn=fn)
    vals = []
    for k in range(int(N)): vals += [0, base.addr + k * int(stride) * 4]
    return env.array(name, 'ptr', N * 2, pick=lambda r: vals)

