"""Generic real and complex BLAS specialisations on fermion fields."""
from .common import *
UR = unit('blas_real', '$V/harness/blas.cc', flags=['-DB_REAL'])
UC = unit('blas_cplx', '$V/harness/blas.cc', flags=['-DB_CPLX'])
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites (24*sites fits int)'])

REALF = {
 'peq_ax': lambda d, x, y, a, b: d + a * x, 'meq_ax': lambda d, x, y, a, b: d - a * x,
 'peq_xa': lambda d, x, y, a, b: d + a * x, 'meq_xa': lambda d, x, y, a, b: d - a * x,
 'ax_p_y': lambda d, x, y, a, b: a * x + y, 'y_p_ax': lambda d, x, y, a, b: a * x + y,
 'xa_p_y': lambda d, x, y, a, b: a * x + y, 'y_p_xa': lambda d, x, y, a, b: a * x + y,
 'ax_m_y': lambda d, x, y, a, b: a * x - y, 'y_m_ax': lambda d, x, y, a, b: y - a * x,
 'xa_m_y': lambda d, x, y, a, b: a * x - y, 'y_m_xa': lambda d, x, y, a, b: y - a * x,
 'x_p_y': lambda d, x, y, a, b: x + y, 'x_m_y': lambda d, x, y, a, b: x - y,
 'ax': lambda d, x, y, a, b: a * x, 'xa': lambda d, x, y, a, b: a * x,
 'teq_a': lambda d, x, y, a, b: d * a, 'deq_a': lambda d, x, y, a, b: d * ('inv', a),
 'peq_x': lambda d, x, y, a, b: d + x, 'meq_x': lambda d, x, y, a, b: d - x,
 'ax_p_by': lambda d, x, y, a, b: a * x + b * y, 'xa_p_by': lambda d, x, y, a, b: a * x + b * y,
 'ax_p_yb': lambda d, x, y, a, b: a * x + b * y, 'xa_p_yb': lambda d, x, y, a, b: a * x + b * y,
 'ax_m_by': lambda d, x, y, a, b: a * x - b * y, 'xa_m_by': lambda d, x, y, a, b: a * x - b * y,
 'ax_m_yb': lambda d, x, y, a, b: a * x - b * y, 'xa_m_yb': lambda d, x, y, a, b: a * x - b * y,
}
REALF['deq_a'] = None
CPLXF = {'c_' + k: v for k, v in REALF.items() if k not in ('x_p_y', 'x_m_y', 'peq_x', 'meq_x', 'deq_a')}

def lattice(env, ordered, alias, k=12, et='float'):
    V = sites(env)
    sub = Sub(env, V, ordered)
    d = Field(env, 'd', V, k, et)
    x = Field(env, 'x', V, k, et) if alias != 'x' and alias != 'xy' else d
    y = Field(env, 'y', V, k, et) if alias != 'y' and alias != 'xy' else d
    return V, sub, d, x, y

def real_form(name, ordered, alias):
    def run(env):
        V, sub, d, x, y = lattice(env, ordered, alias)
        a = env.real('a', nonzero=name == 'deq_a'); b = env.real('b')
        env.modifies(d.a)
        f = REALF[name]
        if name == 'deq_a':
            ia = env.inv(a)
            f = lambda D, X, Y, A, B: D * ia
        def post(r):
            check_sub(env, sub, d, lambda s, c: f(d.old(s, c), x.old(s, c), y.old(s, c), a, b))
        env.run('h_' + name, [d.a, x.a, y.a, a, b] + sub.args, post)
    return run

def cplx_form(name, ordered, alias):
    def run(env):
        V, sub, d, x, y = lattice(env, ordered, alias)
        a = C(env.real('ar'), env.real('ai')); b = C(env.real('br'), env.real('bi'))
        env.modifies(d.a)
        f = CPLXF[name]
        def post(r):
            check_sub(env, sub, d, lambda s, c: f(d.old(s, c), x.old(s, c), y.old(s, c), a, b))
        env.run('h_' + name, [d.a, x.a, y.a, a.r, a.i, b.r, b.i] + sub.args, post)
    return run

for name in REALF:
    for o in (True, False):
        al = ['', 'x', 'y'] if 'y' in name.replace('_', '') else (['', 'x'] if 'x' in name else [''])
        for alias in al:
            contract('C06', UR, '%s/%s%s' % (name, 'ordered' if o else 'table', '/d=' + alias if alias else ''))(real_form(name, o, alias))
for name in CPLXF:
    for o in (True, False):
        al = ['', 'x', 'y'] if 'y' in name.replace('_', '') else (['', 'x'] if 'x' in name else [''])
        for alias in al:
            contract('C06', UC, '%s/%s%s' % (name, 'ordered' if o else 'table', '/d=' + alias if alias else ''))(cplx_form(name, o, alias))

# ------------------------------------------------------------------ reductions
URED = unit('blas_red', '$V/harness/blas.cc', flags=['-DB_RED'], natlibs='ALL')
GOK = ('3allE',)

def flat2(f, sub, c0=0):
    """sum over the subset of sum over the 24 real components"""
    env = sub.env
    return env.sum(sub.n, lambda j: sum24(lambda c: f(sub.site(j) * 24 + c)))
def sum24(f):
    r = 0
    for c in range(24): r = f(c) + r
    return r
def sum12(f):
    r = 0
    for c in range(12): r = f(2 * c) + r
    return r

def red(name, ordered, alias, all_=False):
    def run(env):
        V = sites(env)
        sub = Sub(env, V, ordered, nonempty=all_)
        x = Field(env, 'x', V, 12); y = Field(env, 'y', V, 12) if not alias else x
        out = env.array('out', 'double', 2, init='uninit')
        env.modifies(out, globals_ok=GOK)
        X, Y = x.a.old, y.a.old
        def post(r):
            if name.startswith('norm2'):
                env.eq('norm2', out.at(0), flat2(lambda e: X(e) * X(e), sub))
            else:
                env.eq('re', out.at(0), flat2(lambda e: X(e) * Y(e), sub))
                if name.startswith('ip_'):
                    env.eq('im', out.at(1), env.sum(sub.n, lambda j: sum12(lambda c: X(sub.site(j) * 24 + c) * Y(sub.site(j) * 24 + c + 1) - X(sub.site(j) * 24 + c + 1) * Y(sub.site(j) * 24 + c))))
        args = [out, x.a] + ([] if name.startswith('norm2') else [y.a]) + sub.args
        env.run('h_' + name, args, post)
    return run
for nm in ('norm2', 'ip', 'ipr'):
    for o in (True, False):
        for al in ((False, True) if nm != 'norm2' else (False,)):
            contract('C06', URED, '%s_s/%s%s' % (nm, 'ordered' if o else 'table', '/x=y' if al else ''))(red(nm + '_s', o, al))
    contract('C06', URED, nm + '_all')(red(nm + '_all', True, False, True))

def red_arr(name, alias):
    def run(env):
        V = sites(env)
        sub = Sub(env, V, True, nonempty=True)
        N = env.int('N', 0, 1000)
        x = env.array('x', 'float', N * V * 24)
        y = env.array('y', 'float', N * V * 24) if not alias else x
        lx = lat_array(env, 'lx', N, x, V * 24); ly = lat_array(env, 'ly', N, y, V * 24)
        out = env.array('out', 'double', 2, init='uninit')
        env.modifies(out, globals_ok=GOK)
        X, Y = x.old, y.old
        def tot(f): return env.sum(N, lambda k: env.sum(sub.n, lambda j: f(k * V * 24 + sub.site(j) * 24)))
        def post(r):
            if name == 'norm2_arr':
                env.eq('norm2', out.at(0), tot(lambda b: sum24(lambda c: X(b + c) * X(b + c))))
            else:
                env.eq('re', out.at(0), tot(lambda b: sum24(lambda c: X(b + c) * Y(b + c))))
                if name == 'ip_arr':
                    env.eq('im', out.at(1), tot(lambda b: sum12(lambda c: X(b + c) * Y(b + c + 1) - X(b + c + 1) * Y(b + c))))
        env.run('h_' + name, [out, lx] + ([] if name == 'norm2_arr' else [ly]) + [N] + sub.args, post)
    return run
for nm in ('norm2_arr', 'ip_arr', 'ipr_arr'):
    contract('C06', URED, nm)(red_arr(nm, False))

# ------------------------------------------------------------------ the kernels themselves
KERN = {  # name: (unit of length, complex?, scalars, vectors, formula)
 'vaxpy3': (24, 0, 'a', 'xy', lambda a, x, b, y: a * x + y), 'vaxmy3': (24, 0, 'a', 'xy', lambda a, x, b, y: a * x - y),
 'vaxpby3': (24, 0, 'ab', 'xy', lambda a, x, b, y: a * x + b * y), 'vaxmby3': (24, 0, 'ab', 'xy', lambda a, x, b, y: a * x - b * y),
 'vscal': (24, 0, 'a', 'x', lambda a, x, b, y: a * x), 'vadd': (24, 0, '', 'xy', lambda a, x, b, y: x + y), 'vsub': (24, 0, '', 'xy', lambda a, x, b, y: x - y),
 'vcscal': (24, 1, 'a', 'x', lambda a, x, b, y: a * x), 'vcaxpy3': (24, 1, 'a', 'xy', lambda a, x, b, y: a * x + y), 'vcaxmy3': (24, 1, 'a', 'xy', lambda a, x, b, y: a * x - y),
 'vcaxpby3': (24, 1, 'ab', 'xy', lambda a, x, b, y: a * x + b * y), 'vcaxmby3': (24, 1, 'ab', 'xy', lambda a, x, b, y: a * x - b * y),
 'vaxpy3_norm': (6, 0, 'a', 'xy', lambda a, x, b, y: a * x + y), 'vaxmby3_norm': (6, 0, 'ab', 'xy', lambda a, x, b, y: a * x - b * y),
}
def kern(name, alias):
    U, cplx, sc, vec, f = KERN[name]
    def run(env):
        n = env.int('n', 0, VMAX)
        d = env.array('d', 'float', n * U)
        x = env.array('x', 'float', n * U) if alias != 'x' else d
        y = (env.array('y', 'float', n * U) if alias != 'y' else d) if 'y' in vec else None
        a = env.array('a', 'float', 2 if cplx else 1) if 'a' in sc else None
        b = env.array('b', 'float', 2 if cplx else 1) if 'b' in sc else None
        nrm = env.array('nrm', 'float', 1, init='uninit') if name.endswith('_norm') else None
        env.modifies(*[q for q in (d, nrm) if q is not None])
        args = [d]
        if a is not None: args.append(a)
        args.append(x)
        if b is not None: args.append(b)
        if y is not None: args.append(y)
        args.append(n)
        if nrm is not None: args.append(nrm)
        def get(arr, i):
            if arr is None: return None
            return C(arr.old(2 * i), arr.old(2 * i + 1)) if cplx else arr.old(i)
        A, B = (get(a, 0), get(b, 0))
        w = 2 if cplx else 1
        def post(r):
            def el(j):
                for c in range(U // w):
                    i = j * (U // w) + c
                    want = f(A, get(x, i), B, get(y, i))
                    if cplx: ceq(env, 'd', C(d.at(2 * i), d.at(2 * i + 1)), want)
                    else: env.eq('d', d.at(i), want)
            env.forall('j', 0, n, el)
            if nrm is not None:
                def t(j):
                    r = 0
                    for c in range(U):
                        v = f(A, x.old(U * j + c), B, y.old(U * j + c) if y is not None else None); r = v * v + r
                    return r
                env.eq('norm', nrm.at(0), env.sum(n, t))
        env.run('h_k_' + name, args, post)
    return run
for nm in KERN:
    for al in ['', 'x'] + (['y'] if 'y' in KERN[nm][3] else []):
        contract('C06', URED, 'kernel %s%s' % (nm, '/d=' + al if al else ''))(kern(nm, al))

def kred(name):
    def run(env):
        n = env.int('n', 0, VMAX)
        x = env.array('x', 'float', n * 24); y = env.array('y', 'float', n * 24)
        re = env.array('re', 'double', 1, init='sym'); im = env.array('im', 'double', 1, init='sym')
        env.modifies(re, im)
        X, Y = x.old, y.old
        # the dot kernels overwrite or accumulate? their callers pass zero: the contract fixes the zero start
        def post(r):
            if name == 'sumsq':
                env.eq('sumsq', re.at(0), env.sum(n, lambda j: sum24(lambda c: X(j * 24 + c) * X(j * 24 + c))))
            else:
                env.eq('re', re.at(0), env.sum(n, lambda j: sum24(lambda c: X(j * 24 + c) * Y(j * 24 + c))))
                if name == 'vcdot':
                    env.eq('im', im.at(0), env.sum(n, lambda j: sum12(lambda c: X(j * 24 + c) * Y(j * 24 + c + 1) - X(j * 24 + c + 1) * Y(j * 24 + c))))
        env.run('h_k_' + name, {'sumsq': [re, x, n], 'vcdot': [re, im, x, y, n], 'vcdot_real': [re, x, y, n]}[name], post)
    return run
for nm in ('sumsq', 'vcdot', 'vcdot_real'): contract('C06', URED, 'kernel ' + nm)(kred(nm))
