"""Contracts for lattice-wide and scalar QDP expressions, with the harness text generated from the expression itself."""
from .common import *
from qvc.reg import UNITS
import itertools

# ------------------------------------------------------------- tensors: spin shape x colour shape of complex numbers
def size(sh):
    r = 1
    for x in sh: r *= x
    return r
def combine(a, b):
    """matrix product on one index space: out shape, for every out index the list of (ia, ib)"""
    if a == (): return b, [[(0, i)] for i in range(size(b))]
    if b == (): return a, [[(i, 0)] for i in range(size(a))]
    if len(a) == 2 and len(b) == 2:
        n = a[0]
        return (n, b[1]), [[(i * n + k, k * b[1] + j) for k in range(n)] for i in range(n) for j in range(b[1])]
    if len(a) == 2 and len(b) == 1:
        n = a[0]
        return (n,), [[(i * n + k, k) for k in range(n)] for i in range(n)]
    raise Exception('combine %r %r' % (a, b))

class T:
    __slots__ = ('ss', 'cs', 'd')
    def __init__(s, ss, cs, d): s.ss = tuple(ss); s.cs = tuple(cs); s.d = list(d)
    def at(s, i, c): return s.d[i * size(s.cs) + c]
    def map(s, f): return T(s.ss, s.cs, [f(x) for x in s.d])
    def __add__(s, o):
        o = ten(o)
        if o.ss != s.ss or o.cs != s.cs: return s.lift(o) + o.lift(s)
        return T(s.ss, s.cs, [x + y for x, y in zip(s.d, o.d)])
    def lift(s, o):
        """scalar added to a matrix acts as a multiple of the unit matrix"""
        ss = s.ss or o.ss; cs = s.cs or o.cs
        def diag(sh, real): 
            if real == sh or sh == (): return None
            return [i // sh[1] == i % sh[1] for i in range(size(sh))] if len(sh) == 2 else None
        if ss == s.ss and cs == s.cs: return s
        ds = diag(ss, s.ss); dc = diag(cs, s.cs)
        out = []
        for i in range(size(ss)):
            for c in range(size(cs)):
                on = (ds is None or ds[i]) and (dc is None or dc[c])
                out.append(s.at(i if ds is None and s.ss else 0, c if dc is None and s.cs else 0) if on else C(0, 0))
        return T(ss, cs, out)
    def __sub__(s, o): return s + (-ten(o))
    def __neg__(s): return s.map(lambda x: -x)
    def __mul__(s, o):
        o = ten(o)
        ss, st = combine(s.ss, o.ss); cs, ct = combine(s.cs, o.cs)
        out = []
        for si in st:
            for ci in ct:
                r = None
                for a, b in si:
                    for p, q in ci:
                        t = s.at(a, p) * o.at(b, q)
                        r = t if r is None else r + t
                out.append(r)
        return T(ss, cs, out)
    def __radd__(s, o): return ten(o) + s
    def __rsub__(s, o): return ten(o) - s
    def __rmul__(s, o): return ten(o) * s
def ten(o):
    if isinstance(o, T): return o
    return T((), (), [cx(o)])
def tr_idx(sh): return [j * sh[0] + i for i in range(sh[1]) for j in range(sh[0])] if len(sh) == 2 else list(range(size(sh)))
def _perm(a, ps, pc, f=lambda x: x):
    return T(a.ss, a.cs, [f(a.at(i, c)) for i in ps for c in pc])
def adj(a): return _perm(a, tr_idx(a.ss), tr_idx(a.cs), lambda x: x.conj())
def transpose(a): return _perm(a, tr_idx(a.ss), tr_idx(a.cs))
def transposeSpin(a): return _perm(a, tr_idx(a.ss), range(size(a.cs)))
def transposeColor(a): return _perm(a, range(size(a.ss)), tr_idx(a.cs))
def conj(a): return a.map(lambda x: x.conj())
def real(a): return a.map(lambda x: C(x.r, 0))
def imag(a): return a.map(lambda x: C(x.i, 0))
def timesI(a): return a.map(lambda x: C(-x.i, x.r))
def timesMinusI(a): return a.map(lambda x: C(x.i, -x.r))
def traceSpin(a):
    if len(a.ss) != 2: return a
    n = a.ss[0]; out = []
    for c in range(size(a.cs)):
        r = a.at(0, c)
        for k in range(1, n): r = r + a.at(k * n + k, c)
        out.append(r)
    return T((), a.cs, out)
def traceColor(a):
    if len(a.cs) != 2: return a
    n = a.cs[0]; out = []
    for i in range(size(a.ss)):
        r = a.at(i, 0)
        for k in range(1, n): r = r + a.at(i, k * n + k)
        out.append(r)
    return T(a.ss, (), out)
def trace(a): return traceColor(traceSpin(a))
def localNorm2(a):
    r = 0
    for x in a.d: r = r + x.norm2()
    return T((), (), [C(r, 0)])
def localInner(a, b):
    r = C(0, 0)
    for x, y in zip(a.d, b.d): r = r + x.conj() * y
    return T((), (), [r])
def localInnerReal(a, b): return real(localInner(a, b))
def scal(x): return T((), (), [cx(x)])
def diag_spin(vals):
    n = len(vals)
    return T((n, n), (), [cx(vals[i]) if i == j else C(0, 0) for i in range(n) for j in range(n)])
def spinmat(rows):
    n = len(rows)
    return T((n, n), (), [cx(x) for r in rows for x in r])

# ------------------------------------------------------------- types
S0, S4, S44, S2, S22, S1 = (), (4,), (4, 4), (2,), (2, 2), (1,)
TYPES = {  # key: (C++ type without Lattice prefix, spin, colour, complex?, element type)
 'R': ('Real', (), (), 0, 'float'), 'X': ('Complex', (), (), 1, 'float'),
 'CV': ('ColorVector', (), (3,), 1, 'float'), 'CM': ('ColorMatrix', (), (3, 3), 1, 'float'),
 'SV': ('SpinVector', S4, (), 1, 'float'), 'SM': ('SpinMatrix', S44, (), 1, 'float'), 'HSM': ('HalfSpinMatrix', S22, (), 1, 'float'),
 'F': ('Fermion', S4, (3,), 1, 'float'), 'HF': ('HalfFermion', S2, (3,), 1, 'float'),
 'P': ('Propagator', S44, (3, 3), 1, 'float'), 'HP': ('HalfPropagator', S22, (3, 3), 1, 'float'),
 'SF': ('StaggeredFermion', S1, (3,), 1, 'float'), 'SP': ('StaggeredPropagator', (1, 1), (3, 3), 1, 'float'),
 'D': ('Double', (), (), 0, 'double'), 'DX': ('DComplex', (), (), 1, 'double'),
 'DF': ('DFermion', S4, (3,), 1, 'double'), 'DCM': ('DColorMatrix', (), (3, 3), 1, 'double'), 'DCV': ('DColorVector', (), (3,), 1, 'double'), 'DHF': ('DHalfFermion', S2, (3,), 1, 'double'),
 'I': ('Integer', (), (), 0, 'i32'), 'B': ('Boolean', (), (), 0, 'i8'),
}
PFX = {'D': 'LatticeDouble', 'I': 'LatticeInteger', 'B': 'LatticeBoolean'}
CTYPE = {'float': 'REAL32', 'double': 'REAL64', 'i32': 'int', 'i8': 'signed char'}

def lat_pad(key): return 8 if key == 'SF' else None   # PSpinVector<PColorVector<RComplex<float>,3>,1> occupies 32 bytes
class LatOp:
    def __init__(s, env, name, key, V, lo=None, hi=None):
        s.env = env; s.name = name; s.key = key; s.lat = V is not None
        s.ct, s.ss, s.cs, s.cplx, s.et = TYPES[key]
        s.k = size(s.ss) * size(s.cs)
        s.w = s.k * (2 if s.cplx else 1)
        if lat_pad(key) and s.lat: s.w = lat_pad(key)
        kw = {}
        if s.et == 'i8': kw = dict(lo=0, hi=1)
        if lo is not None: kw = dict(lo=lo, hi=hi)
        s.a = env.array(name, s.et, V * s.w if s.lat else s.w, **kw)
    def _get(s, f, site):
        b = (site * s.w) if s.lat else 0
        if s.cplx: return T(s.ss, s.cs, [C(f(b + 2 * j), f(b + 2 * j + 1)) for j in range(s.k)])
        return T(s.ss, s.cs, [C(f(b + j), 0) for j in range(s.k)])
    def old(s, site=0): return s._get(s.a.old, site)
    def new(s, site=0): return s._get(s.a.at, site)

def tcmp(env, label, got, want, cplx=True):
    want = ten(want)
    if want.ss != got.ss or want.cs != got.cs: raise Exception('%s: specified shape %r %r, stored %r %r' % (label, want.ss, want.cs, got.ss, got.cs))
    nc = size(got.cs)
    for j in range(len(got.d)):
        l = '%s(spin %d,colour %d)' % (label, j // nc, j % nc)
        env.eq(l + '.re', got.d[j].r, want.d[j].r)
        if cplx: env.eq(l + '.im', got.d[j].i, want.d[j].i)

def cdecl(key, lat):
    n = TYPES[key][0]
    if not lat: return n
    return PFX.get(key) or ('LatticeD' + n[1:] if n in ('DComplex', 'DFermion', 'DColorMatrix', 'DColorVector', 'DHalfFermion') else 'Lattice' + n)

class Gen:
    """collects expressions of one translation unit"""
    def __init__(s, prop, uname, cfg='generic', head='', per=45, natlibs=None, **kw):
        s.prop = prop; s.uname = uname; s.cfg = cfg; s.head = head; s.per = per; s.n = 0; s.kw = kw; s.natlibs = natlibs; s.srcs = ['$GEN']
        s.cur = None
    def unit(s):
        if s.cur is None or s.n % s.per == 0:
            s.cur = unit('%s_%d' % (s.uname, s.n // s.per), s.srcs, cfg=s.cfg, natlibs=s.natlibs, **s.kw)
            s.cur.text = '#include "h.h"\n' + s.head
        s.n += 1
        return s.cur
    def expr(s, name, body, ops, spec, alias=(), subs=('table', 'ordered'), out=None, pre=None, outside=True, **opts):
        opts_env = opts.pop('env', False)
        """ops: 'D:CM U:oCM X:F' (o prefix = OScalar); first one is the destination.
        body uses the operand names and [s]; spec(dict of old site values, env) -> T"""
        u = s.unit()
        ol = []
        for o in ops.split():
            n, k = o.split(':')
            lat = not k.startswith('o')
            ol.append((n, k if lat else k[1:], lat))
        fn = 'h_e%d' % s.n
        sub = any(l for _, _, l in ol) 
        t = 'H %s(%s%s) {' % (fn, ', '.join('%s* p%s' % (CTYPE[TYPES[k][4]], n) for n, k, l in ol), ', SUBARGS' if sub else '')
        if sub: t += ' MKSUB(s, tab, n, ord, st, en);'
        for n, k, l in ol:
            c = cdecl(k, l)
            if l: t += ' LAT(%s, %s, p%s);' % (c, n, n)
            else: t += ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
        t += ' %s; }\n' % body
        u.text += t
        dn = ol[0][0]
        def mk(ordered, al):
            def run(env):
                V = sites(env) if sub else None
                sb = Sub(env, V, ordered) if sub else None
                vs = {}
                for n, k, l in ol:
                    if n in al: vs[n] = vs[dn]
                    else: vs[n] = LatOp(env, n, k, V if l else None)
                if pre: pre(env, vs)
                env.modifies(vs[dn].a)
                d = vs[dn]
                spec_ = (lambda v: spec(v, env)) if opts_env else spec
                def post(r):
                    if d.lat:
                        def inn(site):
                            tcmp(env, dn, d.new(site), spec_({n: v.old(site) for n, v in vs.items()}), d.cplx)
                        sb.each(inn)
                        if outside: sb.outside(lambda i: tcmp(env, dn + ' outside the subset', d.new(i), d.old(i), d.cplx))
                    else:
                        tcmp(env, dn, d.new(), spec_({n: v.old() for n, v in vs.items()}), d.cplx)
                env.run(fn, [vs[n].a for n, k, l in ol] + (sb.args if sub else []), post)
            return run
        als = [()] + [tuple(a) if isinstance(a, (tuple, list)) else (a,) for a in alias]
        for sm in (subs if sub else ('',)):
            for al in als:
                contract(s.prop, u, '%s%s%s' % (name, '/' + sm if sm else '', '/%s=%s' % (dn, ','.join(al)) if al else ''), **opts)(mk(sm == 'ordered', al))
