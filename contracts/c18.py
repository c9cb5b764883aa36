"""Peek and poke: sites, colour and spin components, extract and insert."""
from .lat import *
from .c05 import HEAD3
from qvc.poly import idiv
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'component indices and coordinates are in range', 'at most 80e6 local sites'])
HEAD = HEAD3 + '''
#define SETN { Layout::_layout.nrow.resize(4); Layout::_layout.nrow[0] = n0; Layout::_layout.nrow[1] = n1; Layout::_layout.nrow[2] = n2; Layout::_layout.nrow[3] = n3; Layout::_layout.vol = n0*n1*n2*n3; Layout::_layout.subgrid_vol = Layout::_layout.vol; all.ordRep = true; all.startSite = 0; all.endSite = Layout::_layout.vol - 1; }
#define CRD multi1d<int> c(4); c[0] = x0; c[1] = x1; c[2] = x2; c[3] = x3; *lin = Layout::linearSiteIndex(c);
'''
G = Gen('C18', 'peek', head=HEAD, per=24, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
GS = Gen('C18', 'site', head=HEAD + '#include "qdp_layout.cc"\n', per=24, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc', 'qdp_layout.cc'))
GLOB = ('_layout', '3allE', 'Layout')
SITES = ('R', 'X', 'CV', 'CM', 'SV', 'SM', 'F', 'HF', 'P', 'SF', 'D', 'DX', 'DCM', 'I', 'B')
CAP = 80000000

def identity(env, V):
    """the site table of the predefined set all"""
    t = env.array('tab', 'i32', V, fn=lambda off, kind, nb: idiv(off, 4), pick=lambda r: list(range(int(V))))
    return t
def coords(env):
    """lattice extents and a site of either colour: x0 = 2*y + parity"""
    h = [env.int('h%d' % k, 1, CAP, pick=lambda r: r.randint(1, 3)) for k in range(4)]
    n = [2 * h[0], h[1], h[2], h[3]]
    V = n[0] * n[1] * n[2] * n[3]
    env.assume(env.le(V, CAP))
    y = env.int('y0', 0, h[0] - 1); x = [env.int('x%d' % k, 0, n[k] - 1) for k in (1, 2, 3)]
    return n, V, [[2 * y + env.mod(p + x[0] + x[1] + x[2], 2)] + x for p in (0, 1)]

def site_ops(t):
    et = CTYPE[TYPES[t][4]]; L = cdecl(t, True); S = cdecl(t, False)
    def add(name, body, ops, tab=False):
        u = GS.unit(); fn = 'h_p%d' % GS.n
        args = ''.join(', %s* p%s' % (et, o[0]) for o in ops)
        u.text += 'H %s(int n0, int n1, int n2, int n3, int x0, int x1, int x2, int x3, int* lin%s) { SETN; %sCRD; %s %s; }\n' % (fn, args + (', const int* tab' if tab else ''), 'multi1d<int> all_t((int*)tab, Layout::_layout.vol); all.sitetable = &all_t; ' if tab else '', ' '.join(
            'LAT(%s, %s, p%s);' % (L, o[0], o[0]) if o[1] == 'l' else '%s& %s = *(%s*)p%s;' % (S, o[0], S, o[0]) for o in ops), body)
        return u, fn
    def reg(name, body, ops, spec, tab=False):
        u, fn = add(name, body, ops, tab)
        def run(env):
            n, V, xs = coords(env)
            lin = env.array('lin', 'i32', 1, init='uninit')
            vs = {o[0]: LatOp(env, o[0], t, V if o[1] == 'l' else None, **(dict(lo=-1000, hi=1000) if t == 'I' else {})) for o in ops}
            d = vs[ops[0][0]]
            env.modifies(lin, d.a, globals_ok=GLOB + ('Singleton', 'Allocator'))
            tb = [identity(env, V)] if tab else []
            for x in xs:
                def post(r):
                    i = lin.at(0)
                    spec(env, vs, i, V)
                env.run(fn, n + x + [lin] + [vs[o[0]].a for o in ops] + tb, post)
        contract('C18', u, '%s %s' % (name, t))(run)
    def peek(env, vs, i, V): tcmp(env, 'peeked', vs['d'].new(), vs['X'].old(i), vs['d'].cplx)
    def poke(env, vs, i, V):
        tcmp(env, 'poked site', vs['X'].new(i), vs['s'].old(), vs['X'].cplx)
        other = lambda j: tcmp(env, 'other sites', vs['X'].new(j), vs['X'].old(j), vs['X'].cplx)
        env.forall('o', 0, V, other, cond=lambda j: env.nec(j, i))
    def pp(env, vs, i, V): tcmp(env, 'poke then peek', vs['d'].new(), vs['s'].old(), vs['d'].cplx)
    reg('peekSite', 'd = peekSite(X, c)', [('d', 's'), ('X', 'l')], peek)
    reg('pokeSite', 'pokeSite(X, s, c)', [('X', 'l'), ('s', 's')], poke)
    reg('pokeSite returns', 'OLattice<%s::Subtype_t>& q = pokeSite(X, s, c); if (&q != &X) QDP_error_exit("reference")' % L, [('X', 'l'), ('s', 's')], poke)
    reg('peekSite scalar', 'd = peekSite(s, c)', [('d', 's'), ('s', 's')], pp)
    if t in ('R', 'CM', 'F', 'HF', 'D'):
        def pex(env, vs, i, V): tcmp(env, 'peeked', vs['d'].new(), vs['X'].old(i) + vs['Y'].old(i), vs['d'].cplx)
        reg('peekSite expr', 'd = peekSite(X + Y, c)', [('d', 's'), ('X', 'l'), ('Y', 'l')], pex, True)
for t in SITES: site_ops(t)

# ------------------------------------------------------------- components
def comp(sh, idx): return idx[0] if len(sh) == 1 else idx[0] * sh[1] + idx[1]
def peeked(env, x, what, idx):
    n_s, n_c = size(x.ss), size(x.cs)
    if what == 'Color':
        i = comp(x.cs, idx)
        return T(x.ss, (), [x.at(s, i) for s in range(n_s)])
    i = comp(x.ss, idx)
    return T((), x.cs, [x.at(i, c) for c in range(n_c)])
def poked(env, x, v, what, idx):
    out = []
    for s in range(size(x.ss)):
        for c in range(size(x.cs)):
            o = x.at(s, c)
            if what == 'Color': i = comp(x.cs, idx); k = c; n = v.at(s, 0)
            else: i = comp(x.ss, idx); k = s; n = v.at(0, c)
            out.append(n if i == k else o)
    return T(x.ss, x.cs, out)
def run_comp(name, body, ops, what, sh, spec, modes=('table', 'ordered', 'all'), whole=False):
    """ops 'D:X X:oCM'; index arguments r (and q)"""
    u = G.unit(); fn = 'h_c%d' % G.n
    ol = []
    for o in ops.split():
        n, k = o.split(':'); l = not k.startswith('o')
        ol.append((n, k if l else k[1:], l))
    lat = any(l for _, _, l in ol)
    t = 'H %s(%s, int r, int q%s) {' % (fn, ', '.join('%s* p%s' % (CTYPE[TYPES[k][4]], n) for n, k, l in ol), ', SUBARGS' if lat else '')
    if lat: t += (' SETALLT(tab, n, ord, st, en); Subset& s = all;' if whole else ' MKSUB(s, tab, n, ord, st, en);')
    for n, k, l in ol:
        c = cdecl(k, l)
        t += ' LAT(%s, %s, p%s);' % (c, n, n) if l else ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
    u.text += t + ' %s; }\n' % body
    def mk(ordered, r, q):
        def run(env):
            V = sites(env) if lat else None
            sb = Sub(env, V, ordered) if lat else None
            vs = {n: LatOp(env, n, k, V if l else None) for n, k, l in ol}
            d = vs[ol[0][0]]
            env.modifies(d.a, *([vs['D'].a] if 'Z' in vs else []), globals_ok=GLOB + ('Singleton', 'Allocator'))
            def post(_):
                if d.lat:
                    sb.each(lambda i: tcmp(env, 'd', d.new(i), spec(env, {n: v.old(i) for n, v in vs.items()}, what, (r, q)), d.cplx))
                    sb.outside(lambda i: tcmp(env, 'd outside the subset', d.new(i), d.old(i), d.cplx))
                else: tcmp(env, 'd', d.new(), spec(env, {n: v.old() for n, v in vs.items()}, what, (r, q)), d.cplx)
            env.run(fn, [vs[n].a for n, k, l in ol] + [r, q] + (sb.args if lat else []), post)
        return run
    for r in range(sh[0]):
        for q in range(sh[1] if len(sh) > 1 else 1):
            nm = '%s %s' % (name, r if len(sh) == 1 else '%d,%d' % (r, q))
            if not lat: contract('C18', u, nm)(mk(False, r, q))
            else:
                for m in ('table', 'ordered'): contract('C18', u, '%s/%s' % (nm, m))(mk(m == 'ordered', r, q))
def specpeek(env, v, what, idx): return peeked(env, v['X'], what, idx)
def specpoke(env, v, what, idx): return poked(env, v['D'], v['X'], what, idx)
COMPS = [  # what, field, component type
    ('Color', 'CV', 'X'), ('Color', 'F', 'SV'), ('Color', 'CM', 'X'), ('Color', 'P', 'SM'), ('Color', 'HP', 'HSM'),
    ('Spin', 'SV', 'X'), ('Spin', 'F', 'CV'), ('Spin', 'HF', 'CV'), ('Spin', 'SM', 'X'), ('Spin', 'P', 'CM'), ('Spin', 'HP', 'CM'), ('Spin', 'HSM', 'X'),
    ('Color', 'DCM', 'DX'), ('Spin', 'DF', 'DCV'), ('Spin', 'DHF', 'DCV')]
for what, f, c in COMPS:
    sh = TYPES[f][2] if what == 'Color' else TYPES[f][1]
    ix = 'r' if len(sh) == 1 else 'r, q'
    nm = 'peek%s %s' % (what, f)
    run_comp('%s lattice' % nm, 'D[s] = peek%s(X, %s)' % (what, ix), 'D:%s X:%s' % (c, f), what, sh, specpeek)
    run_comp('%s scalar' % nm, 'D = peek%s(X, %s)' % (what, ix), 'D:o%s X:o%s' % (c, f), what, sh, specpeek)
    nm = 'poke%s %s' % (what, f)
    run_comp('%s lattice' % nm, 'poke%s(D, X, %s)' % (what, ix), 'D:%s X:%s' % (f, c), what, sh, specpoke, whole=True)
    run_comp('%s scalar' % nm, 'poke%s(D, X, %s)' % (what, ix), 'D:o%s X:o%s' % (f, c), what, sh, specpoke)
    run_comp('%s lattice from scalar' % nm, 'poke%s(D, X, %s)' % (what, ix), 'D:%s X:o%s' % (f, c), what, sh, specpoke, whole=True)
    run_comp('%s subset' % nm, 'poke%s(D[s], X, %s)' % (what, ix), 'D:%s X:%s' % (f, c), what, sh, specpoke)
    if f in ('CV', 'CM', 'SV', 'SM', 'F', 'P'):
        run_comp('%s lattice expr' % nm, 'poke%s(D, X + Y, %s)' % (what, ix), 'D:%s X:%s Y:%s' % (f, c, c), what, sh, lambda env, v, w, i: poked(env, v['D'], v['X'] + v['Y'], w, i), whole=True)
        run_comp('%s subset expr' % nm, 'poke%s(D[s], X + Y, %s)' % (what, ix), 'D:%s X:%s Y:%s' % (f, c, c), what, sh, lambda env, v, w, i: poked(env, v['D'], v['X'] + v['Y'], w, i))
        run_comp('%s scalar expr' % nm, 'poke%s(D, X + Y, %s)' % (what, ix), 'D:o%s X:o%s Y:o%s' % (f, c, c), what, sh, lambda env, v, w, i: poked(env, v['D'], v['X'] + v['Y'], w, i))
        run_comp('%s then peek' % nm, 'poke%s(D, X, %s); Z = peek%s(D, %s)' % (what, ix, what, ix), 'Z:o%s D:o%s X:o%s' % (c, f, c), what, sh, lambda env, v, w, i: v['X'])

# ------------------------------------------------------------- extract / insert
for t in SITES:
    for op in ('extract', 'insert'):
        u = G.unit(); fn = 'h_x%d' % G.n
        et = CTYPE[TYPES[t][4]]; L = cdecl(t, True); S = 'OScalar<%s::Subtype_t>' % L
        a, b = ('A', 'L') if op == 'extract' else ('L', 'A')
        u.text += 'H %s(%s* pL, %s* pA, int V, SUBARGS) { MKSUB(s, tab, n, ord, st, en); LAT(%s, L, pL); multi1d< %s > A((%s*)pA, V); QDP_%s(%s, %s, s); }\n' % (fn, et, et, L, S, S, op, a, b)
        def mk(op, fn, t, ordered):
            def run(env):
                V = sites(env); sb = Sub(env, V, ordered)
                l = LatOp(env, 'L', t, V); a = LatOp(env, 'A', t, V)
                d, s = (a, l) if op == 'extract' else (l, a)
                env.modifies(d.a)
                def post(_):
                    sb.each(lambda i: tcmp(env, op, d.new(i), s.old(i), d.cplx))
                    sb.outside(lambda i: tcmp(env, op + ' outside the subset', d.new(i), d.old(i), d.cplx))
                env.run(fn, [l.a, a.a, V] + sb.args, post)
            return run
        for m in ('table', 'ordered'): contract('C18', u, 'QDP_%s %s/%s' % (op, t, m))(mk(op, fn, t, m == 'ordered'))
