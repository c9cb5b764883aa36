"""Global reductions: sum, norm2, inner products, per-subset sums, array forms, max/min, float predicates."""
from .lat import *
from .c06 import lat_array
META = dict(assumptions=['floating point is treated as exact real arithmetic (accumulator precision is checked separately: every loop-carried accumulator must be double)', 'at most 80e6 local sites'])
HEAD = '''#include <type_traits>
#include "qdp_scalar_layout.cc"
#define SETVOL(V) Layout::_layout.vol = (V);
#define ISTYPE(e, T) static_assert(std::is_same<decltype(e), T>::value, "result type of " #e)
'''
G = Gen('C05', 'reduce', head=HEAD, per=22, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
DBL = {'R': 'Double', 'X': 'DComplex', 'CV': 'DColorVector', 'CM': 'DColorMatrix', 'F': 'DFermion', 'SM': 'DSpinMatrix', 'SV': 'DSpinVector', 'P': 'DPropagator', 'HF': 'DHalfFermion', 'I': 'Integer', 'D': 'Double', 'DX': 'DComplex', 'DCM': 'DColorMatrix', 'DF': 'DFermion'}
OUT = {'R': 'double', 'I': 'i32', 'B': 'i8'}

def shape_of(rk):
    ct, ss, cs, cplx, et = TYPES[rk]
    return ss, cs, cplx
def outarr(env, name, rk, n=1):
    ss, cs, cplx = shape_of(rk)
    return env.array(name, OUT.get(rk, 'double'), n * size(ss) * size(cs) * (2 if cplx else 1), init='uninit')
def tout(arr, rk, base=0):
    ss, cs, cplx = shape_of(rk)
    k = size(ss) * size(cs); w = k * (2 if cplx else 1)
    if cplx: return T(ss, cs, [C(arr.at(base * w + 2 * j), arr.at(base * w + 2 * j + 1)) for j in range(k)])
    return T(ss, cs, [C(arr.at(base * w + j), 0) for j in range(k)])
def tsum(env, n, f):
    """tensor valued Sum_{j<n} f(j): one scalar sum per component"""
    memo = {}
    def comp(c, part):
        def g(j):
            if j not in memo: memo[j] = f(j)
            x = memo[j].d[c]
            return x.r if part == 0 else x.i
        return g
    probe = f(env.probe()) if env.sym else None
    if probe is None:
        tot = None
        for j in range(int(n)):
            t = f(j); tot = t if tot is None else tot + t
        return tot
    return T(probe.ss, probe.cs, [C(env.sum(n, comp(c, 0)), env.sum(n, comp(c, 1))) for c in range(len(probe.d))])

def red(name, expr, ops, rk, spec, mode, dt=None, exact=False, **opts):
    """scalar = reduction over the subset (mode table/ordered) or over the lattice (mode all)"""
    u = G.unit()
    ol = []
    for o_ in ops.split():
        n, k = o_.split(':'); lat = not k.startswith('o')
        ol.append((n, k if lat else k[1:], lat))
    fn = 'h_r%d' % G.n
    sub = mode != 'all'
    ety = OUT.get(rk, 'double')
    t = 'H %s(%s* out, %s%s) {' % (fn, CTYPE.get(ety, ety), ', '.join('%s* p%s' % (CTYPE[TYPES[k][4]], n) for n, k, l in ol), ', SUBARGS' if sub else ', int V')
    t += ' MKSUB(s, tab, n, ord, st, en);' if sub else ' SETVOL(V);'
    for n, k, l in ol:
        c = cdecl(k, l)
        t += ' LAT(%s, %s, p%s);' % (c, n, n) if l else ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
    e = expr.replace('[s]', ', s') if sub else expr.replace('[s]', '')
    dt = dt or DBL[rk]
    t += ' ISTYPE(%s, %s); *(%s*)out = %s; }\n' % (e, dt, dt, e)
    u.text += t
    def run(env):
        V = sites(env)
        sb = Sub(env, V, mode == 'ordered') if sub else None
        out = outarr(env, 'out', rk)
        env.double_acc(exact=exact)
        vs = {n: LatOp(env, n, k, V if l else None, **(dict(lo=-20, hi=20) if k == 'I' else {})) for n, k, l in ol}
        env.modifies(out, globals_ok=('_layout', '3allE', 'Layout'))
        N = sb.n if sub else V
        def at(j):
            i = sb.site(j) if sub else j
            return ten(spec({n: v.old(i) for n, v in vs.items()}))
        def post(r):
            got = tout(out, rk)
            zero = T(got.ss, got.cs, [C(0, 0)] * len(got.d))
            w = tsum(env, N, at)
            tcmp(env, 'result', got, w if w is not None else zero, shape_of(rk)[2])
        env.run(fn, [out] + [vs[n].a for n, k, l in ol] + (sb.args if sub else [V]), post)
    contract('C05', u, '%s/%s' % (name, mode), **opts)(run)

MODES = ('table', 'ordered', 'all')
for t in ('R', 'X', 'CV', 'CM', 'F', 'SM', 'HF', 'P', 'I', 'D', 'DX', 'DCM', 'DF'):
    for m in MODES:
        if t in ('P', 'DF', 'DCM', 'SM', 'CV') and m == 'ordered': continue
        red('sum %s' % t, 'sum(X[s])', 'X:' + t, t, lambda v: v['X'], m, exact=True)
rr = lambda x: T((), (), [C(x.d[0].r, 0)])
for m in MODES:
    red('sum trace(CM*CM)', 'sum(trace(X*Y)[s])', 'X:CM Y:CM', 'X', lambda v: trace(v['X'] * v['Y']), m)
    red('sum real(trace(staple))', 'sum(real(trace(X*Y*adj(Z)))[s])', 'X:CM Y:CM Z:CM', 'R', lambda v: real(trace(v['X'] * v['Y'] * adj(v['Z']))), m)
    red('sum a*X+Y', 'sum((A*X+Y)[s])', 'X:F Y:F A:oR', 'F', lambda v: v['A'] * v['X'] + v['Y'], m)
    red('sum localNorm2', 'sum(localNorm2(X)[s])', 'X:CV', 'R', lambda v: localNorm2(v['X']), m)
    red('sum adj(X)*Y', 'sum((adj(X)*Y)[s])', 'X:X Y:X', 'X', lambda v: adj(v['X']) * v['Y'], m)
    for t in ('R', 'X', 'CV', 'CM', 'SM', 'HF', 'DX', 'DCM', 'DF', 'D'):
        if t in ('SM', 'DX', 'DF', 'D') and m == 'ordered': continue
        red('norm2 %s' % t, 'norm2(X[s])', 'X:' + t, 'R', lambda v: localNorm2(v['X']), m)
        if t in ('R', 'D'): continue
        red('innerProduct %s' % t, 'innerProduct(X,Y[s])', 'X:%s Y:%s' % (t, t), 'X', lambda v: localInner(v['X'], v['Y']), m)
        red('innerProductReal %s' % t, 'innerProductReal(X,Y[s])', 'X:%s Y:%s' % (t, t), 'R', lambda v: localInnerReal(v['X'], v['Y']), m)
    red('norm2 expr', 'norm2((X*Y)[s])', 'X:CM Y:CV', 'R', lambda v: localNorm2(v['X'] * v['Y']), m)
    red('innerProduct expr,lat', 'innerProduct(X*Y,Z[s])', 'X:CM Y:CV Z:CV', 'X', lambda v: localInner(v['X'] * v['Y'], v['Z']), m)
    red('innerProduct lat,expr', 'innerProduct(Z,X*Y[s])', 'X:CM Y:CV Z:CV', 'X', lambda v: localInner(v['Z'], v['X'] * v['Y']), m)
    red('innerProduct expr,expr', 'innerProduct(X*Z,X*Y[s])', 'X:CM Y:CV Z:CV', 'X', lambda v: localInner(v['X'] * v['Z'], v['X'] * v['Y']), m)
    red('innerProductReal expr,lat', 'innerProductReal(X*Y,Z[s])', 'X:CM Y:CV Z:CV', 'R', lambda v: localInnerReal(v['X'] * v['Y'], v['Z']), m)
    red('innerProductReal lat,expr', 'innerProductReal(Z,X*Y[s])', 'X:CM Y:CV Z:CV', 'R', lambda v: localInnerReal(v['Z'], v['X'] * v['Y']), m)
    red('innerProductReal expr,expr', 'innerProductReal(X*Z,X*Y[s])', 'X:CM Y:CV Z:CV', 'R', lambda v: localInnerReal(v['X'] * v['Z'], v['X'] * v['Y']), m)
    red('innerProduct CM,scalar', 'innerProduct(X,A[s])', 'X:CM A:oCM', 'X', lambda v: localInner(v['X'], v['A']), m)

# ------------------------------------------------------------------ per-subset sums
HEAD2 = HEAD + """
#define MKSET(ss, col, V, nc) Set ss; new(&ss.lat_color) multi1d<int>((int*)(col), (V)); new(&ss.sub) multi1d<Subset>((Subset*)0, (nc));
"""
GM = Gen('C05', 'summulti', head=HEAD2, per=12, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
def color_sum(env, V, col, c, f):
    """Sum over the sites of colour c"""
    if env.sym:
        from qvc.poly import c_eq, psub
        return tsum(env, V, lambda i: f(i).map(lambda x: C(env.ite(c_eq(psub(col.old(i), c)), 1, 0) * x.r, env.ite(c_eq(psub(col.old(i), c)), 1, 0) * x.i)))
    tot = None
    for i in range(V):
        if col.old(i) == c: t = f(i); tot = t if tot is None else tot + t
    return tot
def multi(name, expr, ops, rk, spec, exact=False, **opts):
    u = GM.unit()
    ol = [(o_.split(':')[0], o_.split(':')[1].lstrip('o'), not o_.split(':')[1].startswith('o')) for o_ in ops.split()]
    fn = 'h_m%d' % GM.n
    t = 'H %s(%s* out, const int* col, int nc, int V, %s) {' % (fn, CTYPE.get(OUT.get(rk), 'double'), ', '.join('%s* p%s' % (CTYPE[TYPES[k][4]], n) for n, k, l in ol))
    t += ' SETVOL(V); MKSET(ss, col, V, nc);'
    for n, k, l in ol:
        c = cdecl(k, l)
        t += ' LAT(%s, %s, p%s);' % (c, n, n) if l else ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
    dt = DBL[rk]
    t += ' multi1d<%s> r = %s; for(int k=0; k < r.size(); ++k) ((%s*)out)[k] = r[k]; }\n' % (dt, expr, dt)
    u.text += t
    def run(env):
        V = sites(env); nc = env.int('nc', 1, 10000)
        col = env.array('col', 'i32', V, lo=0, hi=nc - 1)
        out = outarr(env, 'out', rk, nc)
        env.double_acc(exact=exact)
        vs = {n: LatOp(env, n, k, V if l else None) for n, k, l in ol}
        env.modifies(out, globals_ok=('_layout', '3allE', 'Layout'))
        lat = any(l for _, _, l in ol)
        def post(r):
            def each(c):
                got = tout(out, rk, c)
                if lat: w = color_sum(env, V, col, c, lambda i: ten(spec({n: v.old(i) for n, v in vs.items()})))
                else: w = ten(spec({n: v.old() for n, v in vs.items()}))
                if w is None: w = T(got.ss, got.cs, [C(0, 0)] * len(got.d))
                tcmp(env, 'result of subset', got, w, shape_of(rk)[2])
            env.forall('c', 0, nc, each)
        env.run(fn, [out, col, nc, V] + [vs[n].a for n, k, l in ol], post)
    contract('C05', u, name, **opts)(run)
for t in ('R', 'X', 'CV', 'CM', 'D', 'DX', 'F'):
    multi('sumMulti %s' % t, 'sumMulti(X, ss)', 'X:' + t, t, lambda v: v['X'], exact=True)
multi('sumMulti trace(CM*CM)', 'sumMulti(trace(X*Y), ss)', 'X:CM Y:CM', 'X', lambda v: trace(v['X'] * v['Y']))
multi('sumMulti localNorm2', 'sumMulti(localNorm2(X), ss)', 'X:F', 'R', lambda v: localNorm2(v['X']))
multi('sumMulti localInnerProduct', 'sumMulti(localInnerProduct(X,Y), ss)', 'X:CV Y:CV', 'X', lambda v: localInner(v['X'], v['Y']))
multi('sumMulti scalar', 'sumMulti(X, ss)', 'X:oX', 'X', lambda v: v['X'])
multi('sumMulti scalar expr', 'sumMulti(X*Y, ss)', 'X:oX Y:oX', 'X', lambda v: v['X'] * v['Y'])

# ------------------------------------------------------------------ extrema
def extremum(name, expr, ops, rk, spec, kind, **opts):
    u = G.unit()
    ol = [(o_.split(':')[0], o_.split(':')[1].lstrip('o'), not o_.split(':')[1].startswith('o')) for o_ in ops.split()]
    fn = 'h_x%d' % G.n
    et = TYPES[rk][4]
    t = 'H %s(%s* out, %s, int V) { SETVOL(V);' % (fn, CTYPE[et], ', '.join('%s* p%s' % (CTYPE[TYPES[k][4]], n) for n, k, l in ol))
    for n, k, l in ol:
        c = cdecl(k, l)
        t += ' LAT(%s, %s, p%s);' % (c, n, n) if l else ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
    u.text += t + ' *(%s*)out = %s; }\n' % (TYPES[rk][0], expr)
    lat = any(l for _, _, l in ol)
    def run(env):
        V = sites(env)
        out = env.array('out', et, 1, init='uninit')
        vs = {n: LatOp(env, n, k, V if l else None, **(dict(lo=-1000000, hi=1000000) if k == 'I' else {})) for n, k, l in ol}
        env.modifies(out, globals_ok=('_layout', '3allE', 'Layout'))
        f = lambda i: ten(spec({n: v.old(i) for n, v in vs.items()})).d[0].r
        env.run(fn, [out] + [vs[n].a for n, k, l in ol] + [V], lambda r: env.eq('extremum', out.at(0), env.extremum(kind, V, f) if lat else f(0)))
    contract('C05', u, name, **opts)(run)
for kind, f in (('max', 'globalMax'), ('min', 'globalMin')):
    for t in ('R', 'D', 'I'): extremum('%s %s' % (f, t), '%s(X)' % f, 'X:' + t, t, lambda v: v['X'], kind)
    extremum('%s localNorm2' % f, '%s(localNorm2(X))' % f, 'X:CV', 'R', lambda v: localNorm2(v['X']), kind)
    extremum('%s real(trace)' % f, '%s(real(trace(X)))' % f, 'X:CM', 'R', lambda v: real(trace(v['X'])), kind)
    extremum('%s scalar' % f, '%s(X)' % f, 'X:oR', 'R', lambda v: v['X'], kind)
    extremum('%s scalar expr' % f, '%s(X*Y)' % f, 'X:oR Y:oR', 'R', lambda v: v['X'] * v['Y'], kind)

# ------------------------------------------------------------------ arrays of lattices
HEAD3 = HEAD2 + """
#define SETALL(n, st, en) { all.ordRep = true; all.startSite = (st); all.endSite = (en); }
#define SETALLT(tab, n, ord, st, en) multi1d<int> all_t((int*)(tab), (n)); { all.ordRep = (ord) != 0; all.startSite = (st); all.endSite = (en); all.sitetable = &all_t; }
"""
GA = Gen('C05', 'redarr', head=HEAD3, per=14, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
def arr_red(fname, key, mode, **opts):
    u = GA.unit(); fn = 'h_a%d' % GA.n
    two = fname != 'norm2'; rk = 'X' if fname == 'innerProduct' else 'R'
    LT = cdecl(key, True); et = TYPES[key][4]
    sub = mode != 'all'
    t = 'H %s(double* out, void* lx, %sint N, SUBARGS) {' % (fn, 'void* ly, ' if two else '')
    t += ' MKSUB(s, tab, n, ord, st, en);' if sub else ' SETALLT(tab, n, ord, st, en);'
    t += ' multi1d<%s> x((%s*)lx, N);' % (LT, LT)
    if two: t += ' multi1d<%s> y((%s*)ly, N);' % (LT, LT)
    dt = DBL[rk]
    e = '%s(x%s%s)' % (fname, ', y' if two else '', ', s' if sub else '')
    u.text += t + ' ISTYPE(%s, %s); *(%s*)out = %s; }\n' % (e, dt, dt, e)
    ss, cs, cplx = shape_of(key); w = size(ss) * size(cs) * (2 if cplx else 1)
    def run(env):
        V = sites(env)
        sb = Sub(env, V, mode == 'ordered', nonempty=not sub)
        N = env.int('N', 0, 1000)
        x = env.array('x', et, N * V * w)
        y = env.array('y', et, N * V * w) if two else x
        st = V * w if et == 'float' else V * w * 2
        lx = lat_array(env, 'lx', N, x, st); ly = lat_array(env, 'ly', N, y, st) if two else None
        out = env.array('out', 'double', 2 if rk == 'X' else 1, init='uninit')
        env.double_acc()
        env.modifies(out, globals_ok=('_layout', '3allE', 'Layout'))
        def at(b, f):
            r = None
            for c in range(w // (2 if cplx else 1)):
                z = (C(x.old(b + 2 * c), x.old(b + 2 * c + 1)), C(y.old(b + 2 * c), y.old(b + 2 * c + 1))) if cplx else (C(x.old(b + c)), C(y.old(b + c)))
                v = z[0].conj() * z[1]
                r = v if r is None else r + v
            return r.r if f == 0 else r.i
        def tot(f): return env.sum(N, lambda k: env.sum(sb.n, lambda j: at(k * V * w + sb.site(j) * w, f)))
        def post(r):
            env.eq('re', out.at(0), tot(0))
            if rk == 'X': env.eq('im', out.at(1), tot(1))
        env.run(fn, [out, lx] + ([ly] if two else []) + [N] + sb.args, post)
    contract('C05', u, '%s(array of %s)/%s' % (fname, key, mode), **opts)(run)
for f in ('norm2', 'innerProduct', 'innerProductReal'):
    for k in ('CV', 'CM', 'SM', 'X', 'HF', 'DF', 'R'):
        for m in ('table', 'ordered', 'all'):
            if (f != 'norm2' and k in ('R',)) or (m == 'ordered' and k in ('SM', 'X', 'DF')): continue
            arr_red(f, k, m)
def arr_multi(key, **opts):
    u = GA.unit(); fn = 'h_a%d' % GA.n
    LT = cdecl(key, True); et = TYPES[key][4]; dt = DBL[key]
    u.text += """H %s(double* out, void* lx, int N, const int* col, int nc, int V, int a, int c) { SETVOL(V); MKSET(ss, col, V, nc); multi1d<%s> x((%s*)lx, N);
  multi2d<%s> r = sumMulti(x, ss); out[0] = r.size1(); out[1] = r.size2(); *(%s*)(out + 2) = r[a][c]; }\n""" % (fn, LT, LT, dt, dt)
    ss, cs, cplx = shape_of(key); w = size(ss) * size(cs) * (2 if cplx else 1)
    def run(env):
        V = sites(env); nc = env.int('nc', 1, 10000)
        N = env.int('N', 1, 1000)
        x = env.array('x', et, N * V * w)
        lx = lat_array(env, 'lx', N, x, V * w if et == 'float' else V * w * 2)
        col = env.array('col', 'i32', V, lo=0, hi=nc - 1)
        a = env.int('a', 0, N - 1, pick=lambda r: r.randrange(int(N))); c = env.int('c', 0, nc - 1, pick=lambda r: r.randrange(int(nc)))
        out = env.array('out', 'double', 2 + w, init='uninit')
        env.double_acc(exact=True)
        env.modifies(out, globals_ok=('_layout', '3allE', 'Layout'))
        def post(r):
            env.eq('rows', out.at(0), nc); env.eq('columns', out.at(1), N)
            w_ = color_sum(env, V, col, c, lambda i: T(ss, cs, [C(x.old((a * V + i) * w + q * (2 if cplx else 1)), x.old((a * V + i) * w + q * 2 + 1) if cplx else 0) for q in range(size(ss) * size(cs))]))
            if w_ is None: w_ = T(ss, cs, [C(0, 0)] * (size(ss) * size(cs)))
            got = T(ss, cs, [C(out.at(2 + q * (2 if cplx else 1)), out.at(3 + q * 2) if cplx else 0) for q in range(size(ss) * size(cs))])
            tcmp(env, 'array element, subset', got, w_, cplx)
        env.run(fn, [out, lx, N, col, nc, V, a, c], post)
    contract('C05', u, 'sumMulti(array of %s)' % key, **opts)(run)
for k in ('R', 'X', 'CM'): arr_multi(k)

# ------------------------------------------------------------------ arrays of scalars
def sc_red(fname, key, sub, **opts):
    u = GA.unit(); fn = 'h_a%d' % GA.n
    two = fname != 'norm2'; rk = 'X' if fname == 'innerProduct' else 'R'
    c = cdecl(key, False); et = TYPES[key][4]; dt = DBL[rk]
    e = '%s(x%s%s)' % (fname, ', y' if two else '', ', s' if sub else '')
    u.text += 'H %s(double* out, void* px, void* py, int N, SUBARGS) { MKSUB(s, tab, n, ord, st, en); multi1d<%s> x((%s*)px, N); multi1d<%s> y((%s*)py, N); ISTYPE(%s, %s); *(%s*)out = %s; }\n' % (fn, c, c, c, c, e, dt, dt, e)
    ss, cs, cplx = shape_of(key); w = size(ss) * size(cs) * (2 if cplx else 1)
    def run(env):
        V = sites(env); sb = Sub(env, V, False); N = env.int('N', 0, 1000)
        x = env.array('x', et, N * w); y = env.array('y', et, N * w)
        out = env.array('out', 'double', 2 if rk == 'X' else 1, init='uninit')
        env.double_acc(); env.modifies(out)
        def at(k, f):
            r = None
            for q in range(w // (2 if cplx else 1)):
                g = lambda a: C(a.old(k * w + 2 * q), a.old(k * w + 2 * q + 1)) if cplx else C(a.old(k * w + q))
                v = g(x).conj() * (g(y) if two else g(x)); r = v if r is None else r + v
            return r.r if f == 0 else r.i
        def post(r):
            env.eq('re', out.at(0), env.sum(N, lambda k: at(k, 0)))
            if rk == 'X': env.eq('im', out.at(1), env.sum(N, lambda k: at(k, 1)))
        env.run(fn, [out, x, y, N] + sb.args, post)
    contract('C05', u, '%s(array of scalar %s)%s' % (fname, key, '/subset' if sub else ''), **opts)(run)
for f in ('norm2', 'innerProduct', 'innerProductReal'):
    for k in ('CV', 'CM', 'X', 'F'):
        for sub in (False, True): sc_red(f, k, sub)
# ------------------------------------------------------------------ owning sub-lattices
def sub_red(name, expr, key, rk, spec, two=False, **opts):
    u = GA.unit(); fn = 'h_a%d' % GA.n
    L = cdecl(key, True); dt = DBL[rk]; et = TYPES[key][4]
    u.text += 'H %s(double* out, %s* pO, %s* pX, SUBARGS) { MKSUB(s, tab, n, ord, st, en); OSubLattice<%s::Subtype_t> O; O.F = (%s::Subtype_t*)pO; O.s = &s; O.ownsMemory = true; LAT(%s, X, pX); *(%s*)out = %s; O.ownsMemory = false; }\n' % (fn, CTYPE[et], CTYPE[et], L, L, L, dt, expr)
    for m in ('table', 'ordered'):
        def run(env, m=m):
            V = sites(env); sb = Sub(env, V, m == 'ordered')
            O = LatOp(env, 'O', key, sb.n); X = LatOp(env, 'X', key, V)
            out = outarr(env, 'out', rk)
            env.double_acc(trunc=True)
            env.modifies(out, globals_ok=('_layout', '3allE', 'Layout', 'Singleton', 'Allocator'))
            def post(r):
                got = tout(out, rk)
                tcmp(env, 'result', got, tsum(env, sb.n, lambda j: ten(spec(O.old(j), X.old(sb.site(j))))) or T(got.ss, got.cs, [C(0, 0)] * len(got.d)), shape_of(rk)[2])
            env.run(fn, [out, O.a, X.a] + sb.args, post)
        contract('C05', u, '%s %s/%s' % (name, key, m), **opts)(run)
for k in ('R', 'X', 'CV', 'CM', 'F'):
    sub_red('sum(sub-lattice)', 'sum(O)', k, k, lambda o, x: o)
for k in ('X', 'CV', 'F', 'CM'):
    sub_red('innerProduct(sub-lattice, lattice)', 'innerProduct(O, X)', k, 'X', lambda o, x: localInner(o, x))
    sub_red('innerProduct(lattice, sub-lattice)', 'innerProduct(X, O)', k, 'X', lambda o, x: localInner(x, o))
