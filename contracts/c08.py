"""SSE double precision kernels, and the lattice expressions the SSE configuration evaluates with them."""
from .lat import *
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites', 'prefetch instructions have no effect on memory'])
FL = ['-DQDP_SCALARSITE_SSE_LINALG_H', '-msse2']
D = '$REPO/lib/scalarsite_sse/'
BL = [D + 'sse_blas_%s_double.cc' % x for x in ('vaxpy4', 'vaypx4', 'vaxmyz4', 'vaxpbyz4', 'vaxmbyz4', 'vscal4', 'local_sumsq', 'local_vcdot', 'local_vcdot_real')]
MT = [D + 'sse_linalg_m_%s_double.cc' % x for x in ('eq_mm', 'eq_mh', 'eq_hm', 'eq_hh', 'peq_m', 'eq_scal_m')]

# ------------------------------------------------------------------ spinor kernels: n blocks of 24 doubles
UB = unit('sse_vec', ['$GEN'] + BL, cfg='sse', flags=FL, natlibs='ALL')
VK = {  # name: (argument order, formula over (old destination, x, y, a, b)); d destination, x y vectors, a b scalars
 'vaxpy4': ('dax', lambda d, x, y, a, b: a * x + d), 'vaxpyz4': ('daxy', lambda d, x, y, a, b: a * x + y),
 'vaxmy4': ('dax', lambda d, x, y, a, b: a * x - d), 'vaxmyz4': ('daxy', lambda d, x, y, a, b: a * x - y),
 'vaypx4': ('dax', lambda d, x, y, a, b: a * d + x), 'vscal4': ('dax', lambda d, x, y, a, b: a * x),
 'vaxpbyz4': ('daxby', lambda d, x, y, a, b: a * x + b * y), 'vaxmbyz4': ('daxby', lambda d, x, y, a, b: a * x - b * y),
 'vaxpby4': ('daxb', lambda d, x, y, a, b: a * x + b * d), 'vaxmby4': ('daxb', lambda d, x, y, a, b: a * x - b * d),
}
RK = ('local_sumsq4', 'local_vcdot4', 'local_vcdot_real4')
UB.text = '#include "h.h"\n'
for k, (o, f) in VK.items():
    UB.text += 'H h_%s(%s, int n) { %s(%s, n); }\n' % (k, ', '.join('double* ' + c for c in o), k, ', '.join(o))
UB.text += 'H h_local_sumsq4(double* r, double* x, int n) { local_sumsq4(r, x, n); }\n'
for k in RK[1:]: UB.text += 'H h_%s(double* r, double* y, double* x, int n) { %s(r, y, x, n); }\n' % (k, k)

def vk(name, alias):
    o, f = VK[name]
    def run(env):
        n = env.int('n', 0, VMAX)
        A = {'d': env.array('d', 'double', n * 24)}
        for c in o[1:]:
            if c in 'ab': A[c] = env.array(c, 'double', 1)
            else: A[c] = A['d'] if c == alias or alias == '*' else env.array(c, 'double', n * 24)
        if alias == 'x=y': A['y'] = A['x']
        env.modifies(A['d'])
        g = lambda c, i: A[c].old(i) if c in A else None
        def post(r):
            def el(j):
                for c in range(24):
                    i = j * 24 + c
                    env.eq('d', A['d'].at(i), f(g('d', i), g('x', i), g('y', i), g('a', 0), g('b', 0)))
            env.forall('j', 0, n, el)
        env.run('h_' + name, [A[c] for c in o] + [n], post)
    return run
for k, (o, f) in VK.items():
    for al in [''] + (['x', 'y', '*', 'x=y'] if 'y' in o else ['x']):
        contract('C08', UB, 'kernel %s%s' % (k, '/d=' + al.replace('*', 'x=y') if al not in ('', 'x=y') else ('/' + al if al else '')))(vk(k, al))

def sum24(f):
    r = 0
    for c in range(24): r = f(c) + r
    return r
def sum12(f):
    r = 0
    for c in range(12): r = f(2 * c) + r
    return r
def rk(name, alias):
    def run(env):
        n = env.int('n', 0, VMAX)
        x = env.array('x', 'double', n * 24); y = env.array('y', 'double', n * 24) if not alias else x
        r_ = env.array('r', 'double', 2 if name == 'local_vcdot4' else 1, init='uninit')
        env.modifies(r_)
        X, Y = x.old, y.old
        def post(r):
            if name == 'local_sumsq4': env.eq('sum', r_.at(0), env.sum(n, lambda j: sum24(lambda c: X(j * 24 + c) * X(j * 24 + c))))
            else:
                env.eq('re', r_.at(0), env.sum(n, lambda j: sum24(lambda c: X(j * 24 + c) * Y(j * 24 + c))))
                if name == 'local_vcdot4':     # conj(y) * x, with the argument order (y, x)
                    env.eq('im', r_.at(1), env.sum(n, lambda j: sum12(lambda c: Y(j * 24 + c) * X(j * 24 + c + 1) - Y(j * 24 + c + 1) * X(j * 24 + c))))
        env.run('h_' + name, [r_] + ([y] if name != 'local_sumsq4' else []) + [x, n], post)
    return run
for k in RK:
    for al in (False, True) if k != 'local_sumsq4' else (False,):
        contract('C08', UB, 'kernel %s%s' % (k, '/x=y' if al else ''))(rk(k, al))

# ------------------------------------------------------------------ colour matrix kernels: n blocks of 18 doubles
UM = unit('sse_mat', ['$GEN'] + MT, cfg='sse', flags=FL, natlibs='ALL')
UM.text = '#include "h.h"\n'
MK = {'ssed_m_eq_scal_m': ('dax', lambda d, x, y, a: x.map(lambda q: a * q)), 'ssed_m_muleq_scal': ('da', lambda d, x, y, a: d.map(lambda q: a * q)),
      'ssed_m_peq_m': ('dx', lambda d, x, y, a: d + x), 'ssed_m_meq_m': ('dx', lambda d, x, y, a: d - x),
      'ssed_m_peq_h': ('dx', lambda d, x, y, a: d + adj(x)), 'ssed_m_meq_h': ('dx', lambda d, x, y, a: d - adj(x))}
for l, fl in (('m', lambda x: x), ('h', adj)):
    for r, fr in (('m', lambda x: x), ('h', adj)):
        for s in ('', '_u'):
            MK['ssed_m_eq_%s%s%s' % (l, r, s)] = ('dxy', lambda d, x, y, a, fl=fl, fr=fr: fl(x) * fr(y))
            MK['ssed_m_peq_a%s%s%s' % (l, r, s)] = ('daxy', lambda d, x, y, a, fl=fl, fr=fr: d + (fl(x) * fr(y)).map(lambda q: a * q))
for k, (o, f) in MK.items():
    UM.text += 'H h_%s(%s, int n) { %s(%s, n); }\n' % (k, ', '.join('double* ' + c for c in o), k, ', '.join(o))
def mk(name, alias):
    o, f = MK[name]
    def run(env):
        n = env.int('n', 0, VMAX)
        A = {'d': env.array('d', 'double', n * 18)}
        for c in o[1:]:
            if c == 'a': A[c] = env.array(c, 'double', 1)
            else: A[c] = A['d'] if c == alias else env.array(c, 'double', n * 18)
        if alias == 'x=y': A['y'] = A['x']
        env.modifies(A['d'])
        def M(c, j, g):
            if c not in A: return None
            return T((), (3, 3), [C(g(A[c])(j * 18 + 2 * k), g(A[c])(j * 18 + 2 * k + 1)) for k in range(9)])
        old = lambda q: q.old
        def post(r):
            def el(j):
                tcmp(env, 'd', M('d', j, lambda q: q.at), f(M('d', j, old), M('x', j, old), M('y', j, old), A['a'].old(0) if 'a' in A else None))
            env.forall('j', 0, n, el)
        env.run('h_' + name, [A[c] for c in o] + [n], post)
    return run
for k, (o, f) in MK.items():
    for al in [''] + (['x=y'] if 'y' in o else (['x'] if o == 'dax' else [])):   # no caller passes the destination as an operand of a product
        contract('C08', UM, 'kernel %s%s' % (k, ('/' if '=' in al else '/d=') + al if al else ''))(mk(k, al))

# ------------------------------------------------------------------ user level
def G8(n, per, srcs): 
    g = Gen('C08', n, cfg='sse', flags=FL, per=per, natlibs='ALL'); g.srcs = ['$GEN'] + srcs
    return g
GV = G8('sse_df', 40, BL)
r = lambda v, k: v[k].d[0].r
def vec(nm, body, f, ops='XY', sc='A', alias=True):
    o = 'D:DF ' + ' '.join('%s:DF' % c for c in ops) + ' ' + ' '.join('%s:oD' % c for c in sc)
    al = tuple(ops) + ((tuple(ops),) if len(ops) > 1 else ()) if alias else ()
    GV.expr(nm, body, o.strip(), f, alias=al)
AX = ('A*X', 'X*A')
for ax in AX:
    vec('D += ' + ax, 'D[s] += ' + ax, lambda v: v['D'] + v['A'] * v['X'], 'X')
    vec('D -= ' + ax, 'D[s] -= ' + ax, lambda v: v['D'] - v['A'] * v['X'], 'X')
    vec('D = ' + ax, 'D[s] = ' + ax, lambda v: v['A'] * v['X'], 'X')
    vec('D = %s + Y' % ax, 'D[s] = %s + Y' % ax, lambda v: v['A'] * v['X'] + v['Y'])
    vec('D = Y + ' + ax, 'D[s] = Y + ' + ax, lambda v: v['Y'] + v['A'] * v['X'])
    vec('D = %s - Y' % ax, 'D[s] = %s - Y' % ax, lambda v: v['A'] * v['X'] - v['Y'])
    vec('D = Y - ' + ax, 'D[s] = Y - ' + ax, lambda v: v['Y'] - v['A'] * v['X'])
    for by in ('B*Y', 'Y*B'):
        vec('D = %s + %s' % (ax, by), 'D[s] = %s + %s' % (ax, by), lambda v: v['A'] * v['X'] + v['B'] * v['Y'], sc='AB')
        vec('D = %s - %s' % (ax, by), 'D[s] = %s - %s' % (ax, by), lambda v: v['A'] * v['X'] - v['B'] * v['Y'], sc='AB')
vec('D = X + Y', 'D[s] = X + Y', lambda v: v['X'] + v['Y'], sc='')
vec('D = X - Y', 'D[s] = X - Y', lambda v: v['X'] - v['Y'], sc='')
vec('D += X', 'D[s] += X', lambda v: v['D'] + v['X'], 'X', sc='')
vec('D -= X', 'D[s] -= X', lambda v: v['D'] - v['X'], 'X', sc='')
vec('D *= A', 'D[s] *= A', lambda v: v['D'] * v['A'], '', alias=False)
GV.expr('D /= A', 'D[s] /= A', 'D:DF A:oD', lambda v, e: v['D'] * scal(e.inv(r(v, 'A'))), env=True, pre=lambda e, vs: e.nonzero(vs['A'].a.old(0)) if hasattr(e, 'nonzero') else None)

GMM = G8('sse_dcm', 30, MT + [D + 'qdp_scalarsite_linalg_double.cc'])
H_ = {'X*Y': lambda v: v['X'] * v['Y'], 'adj(X)*Y': lambda v: adj(v['X']) * v['Y'], 'X*adj(Y)': lambda v: v['X'] * adj(v['Y']), 'adj(X)*adj(Y)': lambda v: adj(v['X']) * adj(v['Y'])}
AS = [('=', lambda d, q: q), ('+=', lambda d, q: d + q), ('-=', lambda d, q: d - q)]
for b, f in H_.items():
    for a, g in AS:
        GMM.expr('matrix D %s %s' % (a, b), 'D[s] %s %s' % (a, b), 'D:DCM X:DCM Y:DCM', lambda v, f=f, g=g: g(v['D'], f(v)), alias=('X', 'Y'))
    GMM.expr('matrix site D = ' + b, 'D = ' + b, 'D:oDCM X:oDCM Y:oDCM', lambda v, f=f: f(v), alias=('X', 'Y'))
for b, f in (('X', lambda v: v['X']), ('adj(X)', lambda v: adj(v['X']))):
    for a, g in AS:
        GMM.expr('matrix D %s %s' % (a, b), 'D[s] %s %s' % (a, b), 'D:DCM X:DCM', lambda v, f=f, g=g: g(v['D'], f(v)), alias=('X',))
GMM.expr('matrix D = A*X', 'D[s] = A*X', 'D:DCM X:DCM A:oD', lambda v: v['A'] * v['X'], alias=('X',))
GMM.expr('matrix D = X*A', 'D[s] = X*A', 'D:DCM X:DCM A:oD', lambda v: v['A'] * v['X'], alias=('X',))
GMM.expr('matrix D *= A', 'D[s] *= A', 'D:DCM A:oD', lambda v: v['A'] * v['D'])
for k in ('CV', 'HF', 'F'):
    for b, f in (('X*Y', lambda v: v['X'] * v['Y']), ('adj(X)*Y', lambda v: adj(v['X']) * v['Y'])):
        GMM.expr('matrix D = %s D%s' % (b, k), 'D[s] = ' + b, 'D:D%s X:DCM Y:D%s' % (k, k), f, alias=('Y',))
    GMM.expr('matrix D = X+Y D%s' % k, 'D[s] = X+Y', 'D:D%s X:D%s Y:D%s' % (k, k, k), lambda v: v['X'] + v['Y'], alias=('X',)) if k != 'F' else None

# ------------------------------------------------------------------ reductions of LatticeDFermion
UR = unit('sse_red', ['$GEN'] + BL, cfg='sse', flags=FL, natlibs='ALL')
UR.text = '''#include "h.h"
typedef LatticeDFermion L;
static double nres[1], ires[2];
#define ST QDP::ThreadReductions::norm2_results = nres; QDP::ThreadReductions::innerProd_results = ires;
#define SETALL(n, st, en) { all.ordRep = true; all.startSite = (st); all.endSite = (en); }
H h_norm2_s(double* out, double* x, SUBARGS) { ST MKSUB(s, tab, n, ord, st, en); LAT(L, X, x); out[0] = norm2(X, s).elem().elem().elem().elem(); }
H h_norm2_all(double* out, double* x, SUBARGS) { ST SETALL(n, st, en); LAT(L, X, x); out[0] = norm2(X).elem().elem().elem().elem(); }
H h_ip_s(double* out, double* x, double* y, SUBARGS) { ST MKSUB(s, tab, n, ord, st, en); LAT(L, X, x); LAT(L, Y, y); auto r = innerProduct(X, Y, s); out[0] = r.elem().elem().elem().real(); out[1] = r.elem().elem().elem().imag(); }
H h_ip_all(double* out, double* x, double* y, SUBARGS) { ST SETALL(n, st, en); LAT(L, X, x); LAT(L, Y, y); auto r = innerProduct(X, Y); out[0] = r.elem().elem().elem().real(); out[1] = r.elem().elem().elem().imag(); }
H h_ipr_s(double* out, double* x, double* y, SUBARGS) { ST MKSUB(s, tab, n, ord, st, en); LAT(L, X, x); LAT(L, Y, y); out[0] = innerProductReal(X, Y, s).elem().elem().elem().elem(); }
H h_ipr_all(double* out, double* x, double* y, SUBARGS) { ST SETALL(n, st, en); LAT(L, X, x); LAT(L, Y, y); out[0] = innerProductReal(X, Y).elem().elem().elem().elem(); }
H h_norm2_arr(double* out, void* lat, int N, SUBARGS) { ST SETALL(n, st, en); multi1d<L> m((L*)lat, N); out[0] = norm2(m).elem().elem().elem().elem(); }
H h_ip_arr(double* out, void* lat, void* lat2, int N, SUBARGS) { ST SETALL(n, st, en); multi1d<L> m((L*)lat, N), q((L*)lat2, N); auto r = innerProduct(m, q); out[0] = r.elem().elem().elem().real(); out[1] = r.elem().elem().elem().imag(); }
H h_ipr_arr(double* out, void* lat, void* lat2, int N, SUBARGS) { ST SETALL(n, st, en); multi1d<L> m((L*)lat, N), q((L*)lat2, N); out[0] = innerProductReal(m, q).elem().elem().elem().elem(); }
'''
GOK = ('3allE', 'nres', 'ires', 'ThreadReductions')
def red(name, ordered, alias, all_=False):
    def run(env):
        V = sites(env); sub = Sub(env, V, ordered, nonempty=all_)
        x = Field(env, 'x', V, 12, 'double'); y = Field(env, 'y', V, 12, 'double') if not alias else x
        out = env.array('out', 'double', 2, init='uninit')
        env.modifies(out, globals_ok=GOK)
        X, Y = x.a.old, y.a.old
        flat = lambda f: env.sum(sub.n, lambda j: f(sub.site(j) * 24))
        def post(r):
            if name.startswith('norm2'): env.eq('norm2', out.at(0), flat(lambda b: sum24(lambda c: X(b + c) * X(b + c))))
            else:
                env.eq('re', out.at(0), flat(lambda b: sum24(lambda c: X(b + c) * Y(b + c))))
                if name.startswith('ip_'): env.eq('im', out.at(1), flat(lambda b: sum12(lambda c: X(b + c) * Y(b + c + 1) - X(b + c + 1) * Y(b + c))))
        env.run('h_' + name, [out, x.a] + ([] if name.startswith('norm2') else [y.a]) + sub.args, post)
    return run
for nm in ('norm2', 'ip', 'ipr'):
    for o_ in (True, False):
        for al in ((False, True) if nm != 'norm2' else (False,)):
            contract('C08', UR, '%s_s/%s%s' % (nm, 'ordered' if o_ else 'table', '/x=y' if al else ''))(red(nm + '_s', o_, al))
    contract('C08', UR, nm + '_all')(red(nm + '_all', True, False, True))
def red_arr(name):
    def run(env):
        V = sites(env); sub = Sub(env, V, True, nonempty=True); N = env.int('N', 0, 1000)
        x = env.array('x', 'double', N * V * 24); y = env.array('y', 'double', N * V * 24)
        lx = lat_array(env, 'lx', N, x, V * 48); ly = lat_array(env, 'ly', N, y, V * 48)     # stride in units of 4 bytes
        out = env.array('out', 'double', 2, init='uninit')
        env.modifies(out, globals_ok=GOK)
        X, Y = x.old, y.old
        tot = lambda f: env.sum(N, lambda k: env.sum(sub.n, lambda j: f(k * V * 24 + sub.site(j) * 24)))
        def post(r):
            if name == 'norm2_arr': env.eq('norm2', out.at(0), tot(lambda b: sum24(lambda c: X(b + c) * X(b + c))))
            else:
                env.eq('re', out.at(0), tot(lambda b: sum24(lambda c: X(b + c) * Y(b + c))))
                if name == 'ip_arr': env.eq('im', out.at(1), tot(lambda b: sum12(lambda c: X(b + c) * Y(b + c + 1) - X(b + c + 1) * Y(b + c))))
        env.run('h_' + name, [out, lx] + ([] if name == 'norm2_arr' else [ly]) + [N] + sub.args, post)
    return run
for nm in ('norm2_arr', 'ip_arr', 'ipr_arr'): contract('C08', UR, nm)(red_arr(nm))
