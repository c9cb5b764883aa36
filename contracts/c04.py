"""Lattice assignments: every assignment operator in every form, on views, owning sub-lattices and the whole lattice."""
from .lat import *
from .c05 import HEAD3
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'divisors are non-zero', 'integer operands small enough that no 32-bit overflow occurs', 'at most 80e6 local sites'])
HEAD = HEAD3 + """
#define OWN(L, v, p, s) OSubLattice<L::Subtype_t> v; v.F = (L::Subtype_t*)(p); v.s = &s; v.ownsMemory = true;
"""
G = Gen('C04', 'assign', head=HEAD, per=30, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
RNG = dict(I=dict(lo=-1000, hi=1000), N=dict(lo=0, hi=100000), Q=dict(lo=1, hi=1000), S=dict(lo=0, hi=6))   # N, Q, S: Integer with restricted range
GLOB = ('_layout', '3allE', 'Layout')

def key(k): return 'I' if k in ('N', 'Q', 'S') else k
def asg(name, dk, op, rhs, ops, spec, modes=('view', 'own', 'all'), alias=(), subs=('table', 'ordered'), pre=None, whole=False, **opts):
    """dk: type of the destination; ops 'X:F A:oR w:wR' (w: word constant); spec(old destination, values, env)"""
    u = G.unit()
    ol = []
    for o_ in ops.split():
        n, k = o_.split(':')
        f = 'lat' if k[0] not in 'ow' else {'o': 'sc', 'w': 'word'}[k[0]]
        ol.append((n, k if f == 'lat' else k[1:], f))
    base = 'h_s%d' % G.n
    et = lambda k: CTYPE[TYPES[key(k)][4]]
    for m in modes:
        t = 'H %s%s(%s* pD%s, SUBARGS) {' % (base, m[0], et(dk), ''.join(', %s p%s' % (et(k) + ('' if f == 'word' else '*'), n) for n, k, f in ol))
        if m == 'all': t += ' SETALLT(tab, n, ord, st, en);' + (' SETVOL(n);' if whole else '')
        else: t += ' MKSUB(s, tab, n, ord, st, en);'
        L = cdecl(key(dk), True)
        t += ' OWN(%s, D, pD, s);' % L if m == 'own' else ' LAT(%s, D, pD);' % L
        for n, k, f in ol:
            c = cdecl(key(k), f == 'lat')
            if f == 'lat': t += ' LAT(%s, %s, p%s);' % (c, n, n)
            elif f == 'sc': t += ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
            else: t += ' %s %s = p%s;' % (et(k), n, n)
        t += ' %s %s %s;%s }\n' % ('D[s]' if m == 'view' else 'D', op, rhs, ' D.ownsMemory = false;' if m == 'own' else '')
        u.text += t
    def mk(mode, ordered, al):
        def run(env):
            V = sites(env)
            sb = Sub(env, V, ordered)
            kw = lambda k: RNG.get(k, {})
            if whole: env.assume(env.eqc(sb.n, V)); env.assume(env.eqc(sb.start, 0))
            D = LatOp(env, 'D', key(dk), sb.n if mode == 'own' else V, **kw(dk))
            vs = {}
            for n, k, f in ol:
                if n in al: vs[n] = D
                elif f == 'word':
                    if key(k) == 'I': vs[n] = env.int(n, kw(k)['lo'], kw(k)['hi'])
                    else: vs[n] = env.real(n)
                else: vs[n] = LatOp(env, n, key(k), V if f == 'lat' else None, **kw(k))
            env.modifies(D.a, globals_ok=GLOB)
            def vals(i):
                r = {}
                for n, k, f in ol: r[n] = scal(vs[n]) if f == 'word' else vs[n].old(i)
                return r
            if pre: 
                for n, k, f in ol:
                    if n == pre:
                        if f == 'word': env.assume(env.nonzero(vs[n]))
                        elif f == 'sc': env.assume(env.nonzero(vs[n].old().d[0].norm2()))
            def post(r):
                if mode == 'own':
                    env.forall('j', 0, sb.n, lambda j: tcmp(env, 'D', D.new(j), spec(D.old(j), vals(sb.site(j)), env), D.cplx))
                else:
                    sb.each(lambda i: tcmp(env, 'D', D.new(i), spec(D.old(i), vals(i), env), D.cplx))
                    sb.outside(lambda i: tcmp(env, 'D outside the subset', D.new(i), D.old(i), D.cplx))
            env.run(base + mode[0], [D.a] + [vs[n].a if f != 'word' else vs[n] for n, k, f in ol] + sb.args, post)
        return run
    for m in modes:
        for sm in subs:
            for al in [()] + ([tuple(a) if isinstance(a, tuple) else (a,) for a in alias] if m != 'own' else []):
                contract('C04', u, '%s %s %s/%s/%s%s' % (dk, op, name, m, sm, '/D=' + ','.join(al) if al else ''), **opts)(mk(m, sm == 'ordered', al))

ass = lambda d, x: x
def into(f):
    def g(d, v, env):
        r = f(d, v, env)
        return T(d.ss, d.cs, [C(0, 0)] * len(d.d)) + r if (r.ss, r.cs) != (d.ss, d.cs) else r
    return g
SUBSETS = ('table', 'ordered')
for t in ('R', 'X', 'CV', 'CM', 'SV', 'SM', 'F', 'HF', 'P', 'D', 'DF', 'I', 'B'):
    w = size(TYPES[t][1]) * size(TYPES[t][2])
    big = w > 12
    sb = ('table',) if big else SUBSETS
    asg('lattice', t, '=', 'X', 'X:' + t, lambda d, v, e: v['X'], alias=('X',), subs=SUBSETS)
    asg('scalar', t, '=', 'X', 'X:o' + t, lambda d, v, e: v['X'], subs=sb)
    if t == 'B': continue
    asg('zero', t, '=', 'QDP::zero', '', lambda d, v, e: d.map(lambda x: C(0, 0)), subs=SUBSETS, modes=('view', 'own')); asg('zero', t, '=', 'QDP::zero', '', lambda d, v, e: d.map(lambda x: C(0, 0)), subs=('ordered',), modes=('all',), whole=True)
    asg('expr', t, '=', 'X + Y', 'X:%s Y:%s' % (t, t), lambda d, v, e: v['X'] + v['Y'], alias=('X', 'Y'), subs=SUBSETS)
    asg('mixed expr', t, '=', 'X - A', 'X:%s A:o%s' % (t, t), lambda d, v, e: v['X'] - v['A'], alias=('X',), subs=sb)
    asg('scalar expr', t, '=', 'X + Y', 'X:o%s Y:o%s' % (t, t), lambda d, v, e: v['X'] + v['Y'], subs=sb)
    for op, f in (('+=', lambda d, x: d + x), ('-=', lambda d, x: d - x)):
        asg('lattice', t, op, 'X', 'X:' + t, lambda d, v, e, f=f: f(d, v['X']), alias=('X',), subs=sb)
        asg('scalar', t, op, 'X', 'X:o' + t, lambda d, v, e, f=f: f(d, v['X']), subs=sb)
        asg('expr', t, op, 'X - Y', 'X:%s Y:%s' % (t, t), lambda d, v, e, f=f: f(d, v['X'] - v['Y']), alias=('X',), subs=sb)
        asg('scalar expr', t, op, 'X - Y', 'X:o%s Y:o%s' % (t, t), lambda d, v, e, f=f: f(d, v['X'] - v['Y']), subs=sb)
# multiplication and division by real and complex numbers
def cdiv(d, a, e):
    x = a.d[0]
    return d * scal(x.conj() * e.inv(x.norm2()))
for t, ks in (('R', ('R',)), ('X', ('R', 'X')), ('CV', ('R', 'X')), ('F', ('R', 'X')), ('CM', ('R', 'X')), ('D', ('D',)), ('DX', ('DX',))):
    for k in ks:
        asg('%s lattice' % k, t, '*=', 'A', 'A:' + k, lambda d, v, e: d * v['A'], alias=('A',) if t == k else ())
        asg('%s scalar' % k, t, '*=', 'A', 'A:o' + k, lambda d, v, e: d * v['A'])
        asg('%s expr' % k, t, '*=', 'A + B', 'A:%s B:%s' % (k, k), lambda d, v, e: d * (v['A'] + v['B']))
        asg('%s scalar expr' % k, t, '*=', 'A + B', 'A:o%s B:o%s' % (k, k), lambda d, v, e: d * (v['A'] + v['B']))
        asg('%s scalar' % k, t, '/=', 'A', 'A:o' + k, lambda d, v, e: cdiv(d, v['A'], e), pre='A')
        asg('%s lattice' % k, t, '/=', 'A', 'A:' + k, lambda d, v, e: cdiv(d, v['A'], e))
        asg('%s expr' % k, t, '/=', 'A * B', 'A:%s B:%s' % (k, k), lambda d, v, e: cdiv(d, v['A'] * v['B'], e))
# word constants
for t, k in (('R', 'R'), ('X', 'R'), ('CM', 'R'), ('SM', 'R'), ('D', 'D'), ('P', 'R')):
    asg('constant', t, '=', 'w', 'w:w' + k, into(lambda d, v, e: v['w']))
    asg('constant', t, '+=', 'w', 'w:w' + k, lambda d, v, e: d + v['w'])
    asg('constant', t, '-=', 'w', 'w:w' + k, lambda d, v, e: d - v['w'])
for t, k in (('R', 'R'), ('X', 'R'), ('CV', 'R'), ('CM', 'R'), ('F', 'R'), ('D', 'D')):
    asg('constant', t, '*=', 'w', 'w:w' + k, lambda d, v, e: d * v['w'])
    asg('constant', t, '/=', 'w', 'w:w' + k, lambda d, v, e: cdiv(d, v['w'], e), pre='w')
# integers
def iop(f): return lambda d, x, e: scal(f(d.d[0].r, x.d[0].r, e))
for op, dk, k, f in (('*=', 'I', 'I', iop(lambda a, b, e: a * b)), ('%=', 'N', 'Q', iop(lambda a, b, e: e.mod(a, b))), ('/=', 'N', 'Q', iop(lambda a, b, e: e.div(a, b))),
                     ('|=', 'N', 'N', iop(lambda a, b, e: e.bit('or', a, b))), ('&=', 'N', 'N', iop(lambda a, b, e: e.bit('and', a, b))), ('^=', 'N', 'N', iop(lambda a, b, e: e.bit('xor', a, b))),
                     ('<<=', 'I', 'S', iop(lambda a, b, e: e.shl(a, b, 6))), ('>>=', 'I', 'S', iop(lambda a, b, e: e.shr(a, b, 6)))):
    asg('%s lattice' % k, dk, op, 'X', 'X:' + k, lambda d, v, e, f=f: f(d, v['X'], e), alias=('X',) if dk == k else ())
    asg('%s scalar' % k, dk, op, 'X', 'X:o' + k, lambda d, v, e, f=f: f(d, v['X'], e))
    asg('%s constant' % k, dk, op, 'w', 'w:w' + k, lambda d, v, e, f=f: f(d, v['w'], e))
    if k != 'S' and k != 'Q':
        asg('%s expr' % k, dk, op, 'X + Y', 'X:%s Y:%s' % (k, k), lambda d, v, e, f=f: f(d, v['X'] + v['Y'], e))
for op in ('=', '+=', '-='):
    asg('constant', 'I', op, 'w', 'w:wI', lambda d, v, e, op=op: v['w'] if op == '=' else d + v['w'] if op == '+=' else d - v['w'])
for op, b in (('|=', 'or'), ('&=', 'and'), ('^=', 'xor')):
    f = iop(lambda x, y, e, b=b: e.bit(b, x, y, 8))
    asg('lattice', 'B', op, 'X', 'X:B', lambda d, v, e, f=f: f(d, v['X'], e))
    asg('scalar', 'B', op, 'X', 'X:oB', lambda d, v, e, f=f: f(d, v['X'], e))
# compound expressions, destination inside
asg('a*D+X*b-conj(Y)', 'F', '=', 'a*D + X*b - conj(Y)', 'X:F Y:F a:oR b:oX', lambda d, v, e: v['a'] * d + v['X'] * v['b'] - conj(v['Y']), modes=('view', 'all'), alias=('X',))
asg('u*(v*X)+Y', 'CV', '=', 'u*(v*X) + Y', 'X:CV Y:CV u:CM v:oCM', lambda d, v, e: v['u'] * (v['v'] * v['X']) + v['Y'])
asg('D*D', 'X', '=', 'D*D + X', 'X:X', lambda d, v, e: d * d + v['X'], modes=('view', 'all'))

# ------------------------------------------------------------------ construction of lattices and sub-lattices
ALLOC = GLOB + ('Singleton', 'Allocator')
GC = Gen('C04', 'construct', head=HEAD, per=10, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
def lctor(name, dk, decl, ops, spec, **opts):
    """build a new lattice object over V sites, copy its storage to out"""
    u = GC.unit(); fn = 'h_c%d' % GC.n
    ol = []
    for o_ in ops.split():
        n, k = o_.split(':'); f = 'lat' if k[0] not in 'ow' else {'o': 'sc', 'w': 'word'}[k[0]]
        ol.append((n, k if f == 'lat' else k[1:], f))
    et = lambda k: CTYPE[TYPES[k][4]]
    t = 'H %s(%s* out%s, const int* tab, int V) { SETVOL(V); Layout::_layout.subgrid_vol = V; SETALLT(tab, V, 1, 0, V-1);' % (fn, et(dk), ''.join(', %s p%s' % (et(k) + ('' if f == 'word' else '*'), n) for n, k, f in ol))
    for n, k, f in ol:
        c = cdecl(k, f == 'lat')
        t += ' LAT(%s, %s, p%s);' % (c, n, n) if f == 'lat' else ' %s& %s = *(%s*)p%s;' % (c, n, c, n) if f == 'sc' else ' %s %s = p%s;' % (et(k), n, n)
    L = cdecl(dk, True)
    t += ' %s D%s; memcpy(out, D.getF(), (size_t)V*sizeof(%s::Subtype_t)); }\n' % (L, decl, L)
    u.text += t
    def run(env):
        V = sites(env)
        D = LatOp(env, 'out', dk, V)
        from qvc.poly import idiv
        tab = env.array('tab', 'i32', V, fn=lambda off, kind, nb: idiv(off, 4)) if env.sym else env.array('tab', 'i32', V, pick=lambda r: list(range(int(V))))
        vs = {n: (env.real(n) if f == 'word' else LatOp(env, n, k, V if f == 'lat' else None)) for n, k, f in ol}
        env.modifies(D.a, globals_ok=ALLOC)
        env.run(fn, [D.a] + [vs[n] if f == 'word' else vs[n].a for n, k, f in ol] + [tab, V],
                lambda r: env.forall('i', 0, V, lambda i: tcmp(env, 'D', D.new(i), spec({n: (scal(vs[n]) if f == 'word' else vs[n].old(i)) for n, k, f in ol}, D.old(i)), D.cplx)))
    contract('C04', u, 'construct %s %s' % (dk, name), **opts)(run)
for t in ('R', 'X', 'CM', 'F'):
    lctor('copy', t, '(X)', 'X:' + t, lambda v, d: v['X'])
    lctor('from scalar', t, '(X)', 'X:o' + t, lambda v, d: v['X'])
    lctor('from expression', t, '(X + Y)', 'X:%s Y:%s' % (t, t), lambda v, d: v['X'] + v['Y'])
    lctor('zero', t, '(QDP::zero)', '', lambda v, d: d.map(lambda x: C(0, 0)))
lctor('constant', 'R', '(w)', 'w:wR', lambda v, d: v['w'])
lctor('constant', 'X', '(w)', 'w:wR', lambda v, d: v['w'])

def masked(t, **opts):
    u = GC.unit(); fn = 'h_c%d' % GC.n; L = cdecl(t, True)
    u.text += 'H %s(REAL* pD, signed char* pM, REAL* pX, int V) { SETVOL(V); LAT(%s, D, pD); LAT(LatticeBoolean, M, pM); LAT(%s, X, pX); copymask(D, M, X); }\n' % (fn, L, L)
    def run(env):
        V = sites(env)
        D = LatOp(env, 'D', t, V); M = LatOp(env, 'M', 'B', V); X = LatOp(env, 'X', t, V)
        env.modifies(D.a, globals_ok=GLOB)
        def each(i):
            c = env.nec(M.old(i).d[0].r, 0); d, x = D.old(i), X.old(i)
            tcmp(env, 'D', D.new(i), T(d.ss, d.cs, [C(env.ite(c, p.r, q.r), env.ite(c, p.i, q.i)) for p, q in zip(x.d, d.d)]), D.cplx)
        env.run(fn, [D.a, M.a, X.a, V], lambda r: env.forall('i', 0, V, each))
    contract('C04', u, 'copymask %s' % t, **opts)(run)
for t in ('R', 'X', 'CV', 'CM', 'F'): masked(t)

def subl(name, t, body, spec, own=False, **opts):
    """a new owning sub-lattice; its compact elements are copied to out"""
    u = GC.unit(); fn = 'h_c%d' % GC.n; L = cdecl(t, True)
    u.text += 'H %s(REAL* out, REAL* pX, SUBARGS) { MKSUB(s, tab, n, ord, st, en); LAT(%s, X, pX); %s ::Subtype_t* o = (%s::Subtype_t*)out; for(int j=0; j < n; ++j) o[j] = D.getF()[j]; }\n' % (fn, L, body.replace('$S', 'OSubLattice<%s::Subtype_t>' % L) + L, L)
    for m in ('table', 'ordered'):
        def run(env, m=m):
            V = sites(env); sb = Sub(env, V, m == 'ordered')
            O = LatOp(env, 'out', t, sb.n); X = LatOp(env, 'X', t, V)
            env.modifies(O.a, globals_ok=ALLOC)
            env.run(fn, [O.a, X.a] + sb.args, lambda r: env.forall('j', 0, sb.n, lambda j: tcmp(env, 'element', O.new(j), spec(X.old(sb.site(j))), O.cplx)))
        contract('C04', u, 'sub-lattice %s %s/%s' % (name, t, m), **opts)(run)
for t in ('R', 'CM', 'F'):
    subl('from lattice', t, '$S D(s, X);', lambda x: x)
    subl('copy', t, '$S E(s, X); $S D(E);', lambda x: x)
    subl('setSubset and assign', t, '$S D; D.setSubset(s); D = X;', lambda x: x)
    subl('assigned from sub-lattice', t, '$S E(s, X); $S D; D.setSubset(s); D = E;', lambda x: x)
