"""Shifts and maps: Map::make, the nearest-neighbour map function, the array and bi-directional packages, and the evaluation of map expressions."""
from .lat import *
from .c05 import HEAD3
from .c18 import coords, CAP, identity
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites', 'a user map function is a function of the coordinate (and sign, direction) with values on the lattice'])
SETN = '''
#define N4 int n0, int n1, int n2, int n3
#define SETN { Layout::_layout.nrow.resize(4); Layout::_layout.nrow[0] = n0; Layout::_layout.nrow[1] = n1; Layout::_layout.nrow[2] = n2; Layout::_layout.nrow[3] = n3; Layout::_layout.vol = n0*n1*n2*n3; Layout::_layout.subgrid_vol = Layout::_layout.vol; }
#define MKC(c, x) multi1d<int> c(4); c[0] = x##0; c[1] = x##1; c[2] = x##2; c[3] = x##3;
#define X4(x) int x##0, int x##1, int x##2, int x##3
'''
# user functions given by their table of images, indexed by the lexicographic number of the coordinate
FUNCS = '''
#define T4(t) const int* t##0, const int* t##1, const int* t##2, const int* t##3
struct Tab { const int* t[4]; Tab() {} Tab(T4(t_)) { t[0] = t_0; t[1] = t_1; t[2] = t_2; t[3] = t_3; }
  multi1d<int> at(const multi1d<int>& c) const { const multi1d<int>& n = Layout::_layout.nrow; int l = c[0] + n[0]*(c[1] + n[1]*(c[2] + n[2]*c[3])); multi1d<int> r(4); for (int k = 0; k < 4; ++k) r[k] = t[k][l]; return r; } };
struct UserFn : public MapFunc { Tab pos, neg; virtual multi1d<int> operator()(const multi1d<int>& c, int sign) const { return sign > 0 ? pos.at(c) : neg.at(c); } };
struct UserFnA : public ArrayMapFunc { Tab pos[2], neg[2]; virtual multi1d<int> operator()(const multi1d<int>& c, int sign, int dir) const { return sign > 0 ? pos[dir].at(c) : neg[dir].at(c); } virtual int numArray() const { return 2; } };
'''
LAYS = {'CONTRACT': '', 'LEXICO': '#undef QDP_USE_CB2_LAYOUT\n#define QDP_USE_LEXICO_LAYOUT 1\n'}
OM = ('qdp_strnlen.cc', 'qdp_scalar_layout.cc', 'qdp_layout.cc', 'qdp_map.cc', 'qdp_scalar_specific.cc')
G3 = ('_layout', '3allE', 'Layout', 'shift', 'Singleton', 'Allocator')
HALF = dict(allz=0)

def lexcoords(env):
    n = [env.int('n%d' % k, 1, CAP, pick=lambda r: r.randint(1, 4)) for k in range(4)]
    V = n[0] * n[1] * n[2] * n[3]
    env.assume(env.le(V, CAP))
    return n, V, [[env.int('x%d' % k, 0, n[k] - 1) for k in range(4)]]

def stubcoords(env):
    """any lattice the default layout accepts (first extent even); the layout is known by its contract"""
    h0 = env.int('h0', 1, CAP, pick=lambda r: r.randint(1, 3))
    n = [2 * h0] + [env.int('n%d' % k, 1, CAP, pick=lambda r: r.randint(1, 4)) for k in (1, 2, 3)]
    V = n[0] * n[1] * n[2] * n[3]
    env.assume(env.le(V, CAP))
    layout_contract(env, n, V)
    return n, V, [[env.int('x%d' % k, 0, n[k] - 1) for k in range(4)]]

# ------------------------------------------------------------- construction
for lay in LAYS:
    U = unit('map_' + lay.lower(), '$GEN', natlibs='ALL', omit=OM)
    U.text =  '#include "h.h"\n' + (HEAD3 if lay == 'LEXICO' else HEAD3.replace('#include "qdp_scalar_layout.cc"\n', LAYSTUB)).replace('#include <type_traits>', '#include <type_traits>\n' + LAYS[lay]) + '#include "qdp_layout.cc"\n#include "qdp_map.cc"\n#include "qdp_scalar_specific.cc"\n' + SETN + FUNCS
    # i = index of the site, j = index of its image, o[2] = entry of the table of offsets
    U.text += '''
H h_map(N4, X4(x), T4(p), int* o) { SETN; MKC(c, x); UserFn f; f.pos = Tab(p0, p1, p2, p3); f.neg = f.pos; Map m; m.make(f);
  o[0] = Layout::linearSiteIndex(c); o[1] = Layout::linearSiteIndex(f(c, +1)); o[2] = m.Offsets()[o[0]]; o[3] = m.Offsets().size(); }
H h_mapctor(N4, X4(x), T4(p), int* o) { SETN; MKC(c, x); UserFn f; f.pos = Tab(p0, p1, p2, p3); f.neg = f.pos; Map m(f);
  o[0] = Layout::linearSiteIndex(c); o[1] = Layout::linearSiteIndex(f(c, +1)); o[2] = m.Offsets()[o[0]]; o[3] = m.Offsets().size(); }
H h_sign(N4, X4(x), T4(p), T4(q), int* o) { SETN; MKC(c, x); UserFn f; f.pos = Tab(p0, p1, p2, p3); f.neg = Tab(q0, q1, q2, q3); Map m; m.make(f);
  o[0] = Layout::linearSiteIndex(c); o[1] = Layout::linearSiteIndex(f(c, +1)); o[2] = m.Offsets()[o[0]]; o[3] = m.Offsets().size(); }
H h_bi(N4, X4(x), T4(p), T4(q), int* o) { SETN; MKC(c, x); UserFn f; f.pos = Tab(p0, p1, p2, p3); f.neg = Tab(q0, q1, q2, q3); BiDirectionalMap m; m.make(f);
  o[0] = Layout::linearSiteIndex(c); o[1] = Layout::linearSiteIndex(f.pos.at(c)); o[2] = m.bimaps[1].Offsets()[o[0]]; o[3] = m.bimaps[1].Offsets().size();
  o[4] = o[0]; o[5] = Layout::linearSiteIndex(f.neg.at(c)); o[6] = m.bimaps[0].Offsets()[o[0]]; o[7] = m.bimaps[0].Offsets().size(); if (m.bimaps.size() != 2) QDP_error_exit("size"); }
H h_arr(N4, X4(x), T4(p), T4(q), int* o) { SETN; MKC(c, x); UserFnA f; f.pos[0] = Tab(p0, p1, p2, p3); f.pos[1] = Tab(q0, q1, q2, q3); f.neg[0] = f.pos[1]; f.neg[1] = f.pos[0]; ArrayMap m; m.make(f);
  for (int d = 0; d < 2; ++d) { int* r = o + 4*d; r[0] = Layout::linearSiteIndex(c); r[1] = Layout::linearSiteIndex(f.pos[d].at(c)); r[2] = m.mapsa[d].Offsets()[r[0]]; r[3] = m.mapsa[d].Offsets().size(); } if (m.mapsa.size() != 2) QDP_error_exit("size"); }
H h_arrbi(N4, X4(x), T4(p), T4(q), T4(s), T4(t), int* o) { SETN; MKC(c, x); UserFnA f; f.pos[0] = Tab(p0, p1, p2, p3); f.pos[1] = Tab(q0, q1, q2, q3); f.neg[0] = Tab(s0, s1, s2, s3); f.neg[1] = Tab(t0, t1, t2, t3); ArrayBiDirectionalMap m; m.make(f);
  for (int d = 0; d < 2; ++d) for (int b = 0; b < 2; ++b) { int* r = o + 4*(2*d + b); r[0] = Layout::linearSiteIndex(c); r[1] = Layout::linearSiteIndex((b ? f.pos : f.neg)[d].at(c)); r[2] = m.bimapsa(b, d).Offsets()[r[0]]; r[3] = m.bimapsa(b, d).Offsets().size(); } if (m.bimapsa.size1() != 2 || m.bimapsa.size2() != 2) QDP_error_exit("size"); }
// the predefined shift: image of the site given by the caller
H h_shift(N4, X4(x), X4(y), int sg, int mu, int* o) { SETN; MKC(c, x); MKC(e, y); initDefaultMaps();
  o[0] = Layout::linearSiteIndex(c); o[1] = Layout::linearSiteIndex(e); const Map& m = shift.bimapsa((sg + 1) >> 1, mu); o[2] = m.Offsets()[o[0]]; o[3] = m.Offsets().size(); }
H h_nn(N4, X4(x), int sign, int mu, int* o) { SETN; MKC(c, x); NearestNeighborMapFunc f; multi1d<int> r = f(c, sign, mu); for (int k = 0; k < 4; ++k) { o[k] = r[k]; o[4 + k] = c[k]; } o[8] = r.size(); o[9] = f.numArray(); }
H h_shiftd(N4, X4(x), X4(y), R* pD, R* pX, int* o, const int* tab) { SETN; MKC(c, x); MKC(e, y); multi1d<int> all_t((int*)tab, Layout::_layout.vol); all.sitetable = &all_t; all.ordRep = true; all.startSite = 0; all.endSite = Layout::_layout.vol - 1; initDefaultMaps();
  o[0] = Layout::linearSiteIndex(c); o[1] = Layout::linearSiteIndex(e); LAT(LatticeReal, D, pD); LAT(LatticeReal, X, pX); D = shift(X, SG, MU); }
H h_there(N4, X4(x), R* pD, R* pX, int* o, const int* tab) { SETN; MKC(c, x); multi1d<int> all_t((int*)tab, Layout::_layout.vol); all.sitetable = &all_t; all.ordRep = true; all.startSite = 0; all.endSite = Layout::_layout.vol - 1; initDefaultMaps();
  o[0] = Layout::linearSiteIndex(c); LAT(LatticeReal, D, pD); LAT(LatticeReal, X, pX); D = shift(shift(X, SG, MU), -(SG), MU); }
'''
    base = U.text
    a = base.index('H h_shiftd'); body = base[a:]; U.text = base[:a]
    for sg in (1, -1):
        for mu in range(4):
            U.text += body.replace('SG', str(sg)).replace('MU', str(mu)).replace('h_shiftd', 'h_shiftd_%d_%d' % (sg + 1, mu)).replace('h_there', 'h_there_%d_%d' % (sg + 1, mu))
    def mk(lay, U):
        geom = lexcoords if lay == 'LEXICO' else stubcoords
        def check(env, o, cnt, V):
            for r in range(cnt):
                env.eq('table %d has one entry per site' % r, o.at(4 * r + 3), V)
                env.eq('table %d: entry of the site is the index of its image' % r, o.at(4 * r + 2), o.at(4 * r + 1))
        for name, fn, tabs, cnt in (('Map::make', 'h_map', 'p', 1), ('Map constructor', 'h_mapctor', 'p', 1), ('Map::make uses the positive sign', 'h_sign', 'pq', 1), ('BiDirectionalMap::make', 'h_bi', 'pq', 2), ('ArrayMap::make', 'h_arr', 'pq', 2), ('ArrayBiDirectionalMap::make', 'h_arrbi', 'pqst', 4)):
            def run(env, fn=fn, tabs=tabs, cnt=cnt):
                n, V, xs = geom(env)
                ts = [env.array('%s%d' % (t, k), 'i32', V, lo=0, hi=n[k] - 1) for t in tabs for k in range(4)]
                o = env.array('o', 'i32', 4 * cnt, init='uninit')
                env.modifies(o, globals_ok=G3)
                for x in xs: env.run(fn, n + x + ts + [o], lambda r: check(env, o, cnt, V))
            contract('C03', U, '%s/%s' % (lay, name))(run)
        def neighbours(env, sg, mu):
            """(x, x + sg*mu with wrap-around): the interior and the boundary in direction mu"""
            n, V, xs = geom(env)
            for x in xs:
                yield n, V, x, None
        def run_nn(env):
            n, V, xs = geom(env)
            o = env.array('o', 'i32', 10, init='uninit')
            env.modifies(o, globals_ok=G3)
            sign = env.int('sign', -100, 100)
            x = xs[0]
            for mu in range(4):
                def post(r):
                    for k in range(4):
                        if k != mu: env.eq('coordinate %d' % k, o.at(k), x[k])
                        else: env.eq('neighbour with wrap-around', o.at(k), env.ite(env.gt(sign, 0), env.ite(env.eqc(x[k], n[k] - 1), 0, x[k] + 1), env.ite(env.eqc(x[k], 0), n[k] - 1, x[k] - 1)))
                        env.eq('argument unchanged', o.at(4 + k), x[k])
                    env.eq('size', o.at(8), 4); env.eq('directions', o.at(9), 4)
                env.run('h_nn', n + x + [sign, mu, o], post)
        contract('C03', U, '%s/NearestNeighborMapFunc' % lay)(run_nn)
        for sg in (1, -1):
            for mu in range(4):
                def run(env, sg=sg, mu=mu, kind='table'):
                    ctx = geomedge(env, lay, sg, mu)
                    n, V, pairs = ctx
                    o = env.array('o', 'i32', 4, init='uninit')
                    env.modifies(o, globals_ok=G3)
                    for x, y in pairs: env.run('h_shift', n + x + y + [sg, mu, o], lambda r: check(env, o, 1, V))
                contract('C03', U, '%s/shift table %+d %d' % (lay, sg, mu))(run)
                if lay == 'LEXICO': continue     # the offset table is covered above; its use does not depend on the layout
                def run2(env, sg=sg, mu=mu):
                    n, V, pairs = geomedge(env, lay, sg, mu)
                    o = env.array('o', 'i32', 2, init='uninit'); D = env.array('D', 'float', V); X = env.array('X', 'float', V)
                    tb = identity(env, V)
                    env.modifies(o, D, globals_ok=G3)
                    for x, y in pairs: env.run('h_shiftd_%d_%d' % (sg + 1, mu), n + x + y + [D, X, o, tb], lambda r: env.eq('D(x) = X(neighbour)', D.at(o.at(0)), X.old(o.at(1))))
                contract('C03', U, '%s/D = shift(X,%+d,%d)' % (lay, sg, mu))(run2)
                def run3(env, sg=sg, mu=mu):
                    n, V, pairs = geomedge(env, lay, sg, mu)
                    o = env.array('o', 'i32', 2, init='uninit'); D = env.array('D', 'float', V); X = env.array('X', 'float', V)
                    tb = identity(env, V)
                    env.modifies(o, D, globals_ok=G3)
                    for x, y in pairs: env.run('h_there_%d_%d' % (sg + 1, mu), n + x + [D, X, o, tb], lambda r: env.eq('there and back', D.at(o.at(0)), X.old(o.at(0))))
                contract('C03', U, '%s/shift %+d %d then back' % (lay, sg, mu))(run3)
    def geomedge(env, lay, sg, mu):
        """sites and their documented neighbours: interior and boundary in direction mu, both colours"""
        n, V, xs = (lexcoords if lay == 'LEXICO' else stubcoords)(env)
        x = list(xs[0])
        t = env.int('t', 0, n[mu] - 2)
        def at(v): c = list(x); c[mu] = v; return c
        lo, hi = at(0), at(n[mu] - 1)
        pairs = [(at(t), at(t + 1)), (hi, lo)] if sg > 0 else [(at(t + 1), at(t)), (lo, hi)]
        return n, V, pairs
    mk(lay, U)

# ------------------------------------------------------------- evaluation of map expressions, for arbitrary tables of offsets
G = Gen('C03', 'mapexpr', head=HEAD3 + '''
#define MAP(m, g, V) Map m; new(&m.goffsets) multi1d<int>((int*)(g), (V));
#define PUT(m, g, V) new(&(m).goffsets) multi1d<int>((int*)(g), (V));
''', per=12, natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc'))
def mapx(name, body, ops, spec, maps='g', setup=None, subs=('table', 'ordered', 'all')):
    """spec(values, at): values(n, i) = operand n at site i; maps: names of the offset tables, each visible in spec as a function of the site"""
    u = G.unit(); fn = 'h_m%d' % G.n
    ol = []
    for o in ops.split():
        n, k = o.split(':'); l = not k.startswith('o'); ol.append((n, k if l else k[1:], l))
    t = 'H %s(%s, %s, int V, SUBARGS) { MKSUB(s, tab, n, ord, st, en);' % (fn, ', '.join('%s* p%s' % (CTYPE[TYPES[k][4]], n) for n, k, l in ol), ', '.join('const int* ' + g for g in maps))
    for n, k, l in ol:
        c = cdecl(k, l)
        t += ' LAT(%s, %s, p%s);' % (c, n, n) if l else ' %s& %s = *(%s*)p%s;' % (c, n, c, n)
    t += setup if setup else ''.join(' MAP(m%s, %s, V);' % (g, g) for g in maps)
    u.text += t + ' %s; }\n' % body
    def mk(ordered):
        def run(env):
            V = sites(env); sb = Sub(env, V, ordered)
            vs = {n: LatOp(env, n, k, V if l else None) for n, k, l in ol}
            gs = {g: env.array(g, 'i32', V, lo=0, hi=V - 1) for g in maps}
            d = vs[ol[0][0]]
            env.modifies(d.a)
            def post(_):
                at = {g: (lambda i, g=g: gs[g].old(i)) for g in maps}
                val = lambda n, i: vs[n].old(i) if vs[n].lat else vs[n].old()
                sb.each(lambda i: tcmp(env, 'D', d.new(i), spec(val, at, i), d.cplx))
                sb.outside(lambda i: tcmp(env, 'D outside the subset', d.new(i), d.old(i), d.cplx))
            env.run(fn, [vs[n].a for n, k, l in ol] + [gs[g] for g in maps] + [V] + sb.args, post)
        return run
    for m in ('table', 'ordered'): contract('C03', u, '%s/%s' % (name, m))(mk(m == 'ordered'))
ONE = lambda v, g, i: v('X', g['g'](i))
for t in ('R', 'X', 'CV', 'CM', 'SV', 'SM', 'F', 'HF', 'P', 'D', 'DX', 'DCM', 'DF'):
    mapx('D = m(X) %s' % t, 'D[s] = mg(X)', 'D:%s X:%s' % (t, t), ONE)
for t in ('R', 'X', 'CM', 'F', 'DF'):
    mapx('D = m(X+Y) %s' % t, 'D[s] = mg(X + Y)', 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i: v('X', g['g'](i)) + v('Y', g['g'](i)))
    mapx('D = X + m(Y) %s' % t, 'D[s] = X + mg(Y)', 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i: v('X', i) + v('Y', g['g'](i)))
    mapx('D += m(X) %s' % t, 'D[s] += mg(X)', 'D:%s X:%s' % (t, t), lambda v, g, i: v('D', i) + v('X', g['g'](i)))
    mapx('D -= m(X) %s' % t, 'D[s] -= mg(X)', 'D:%s X:%s' % (t, t), lambda v, g, i: v('D', i) - v('X', g['g'](i)))
    mapx('D = m(n(X)) %s' % t, 'D[s] = mg(mh(X))', 'D:%s X:%s' % (t, t), lambda v, g, i: v('X', g['h'](g['g'](i))), maps='gh')
    mapx('D = m(n(p(X))) %s' % t, 'D[s] = mg(mh(mk(X)))', 'D:%s X:%s' % (t, t), lambda v, g, i: v('X', g['k'](g['h'](g['g'](i)))), maps='ghk')
    mapx('D = m(X) + n(Y) %s' % t, 'D[s] = mg(X) + mh(Y)', 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i: v('X', g['g'](i)) + v('Y', g['h'](i)), maps='gh')
    mapx('D = m(X + n(Y)) %s' % t, 'D[s] = mg(X + mh(Y))', 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i: v('X', g['g'](i)) + v('Y', g['h'](g['g'](i))), maps='gh')
    mapx('D = m(n(X) - Y) - Y %s' % t, 'D[s] = mg(mh(X) - Y) - Y', 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i: v('X', g['h'](g['g'](i))) - v('Y', g['g'](i)) - v('Y', i), maps='gh')
for t in ('CV', 'CM', 'F', 'HF', 'P'):
    mapx('D = U m(X) %s' % t, 'D[s] = U * mg(X)', 'D:%s U:CM X:%s' % (t, t), lambda v, g, i: v('U', i) * v('X', g['g'](i)))
    mapx('D = m(adj(U) X) %s' % t, 'D[s] = mg(adj(U) * X)', 'D:%s U:CM X:%s' % (t, t), lambda v, g, i: adj(v('U', g['g'](i))) * v('X', g['g'](i)))
    mapx('D = U m(adj(U) X) %s' % t, 'D[s] = U * mg(adj(U) * X)', 'D:%s U:CM X:%s' % (t, t), lambda v, g, i: v('U', i) * (adj(v('U', g['g'](i))) * v('X', g['g'](i))))
mapx('D = c m(X)', 'D[s] = c * mg(X)', 'D:F c:oR X:F', lambda v, g, i: v('c', i) * v('X', g['g'](i)))
mapx('D = m(c X)', 'D[s] = mg(c * X)', 'D:F c:oX X:F', lambda v, g, i: v('c', i) * v('X', g['g'](i)))
mapx('plaquette corner', 'D[s] = X * mg(Y) * adj(mh(X) * Y)', 'D:CM X:CM Y:CM', lambda v, g, i: (v('X', i) * v('Y', g['g'](i))) * adj(v('X', g['h'](i)) * v('Y', i)), maps='gh')
# the packages select the map for their direction and sign
AS = ' ArrayMap a; a.mapsa.resize(3); PUT(a.mapsa[0], g, V); PUT(a.mapsa[1], h, V); PUT(a.mapsa[2], k, V);'
BS = ' BiDirectionalMap b; b.bimaps.resize(2); PUT(b.bimaps[1], g, V); PUT(b.bimaps[0], h, V);'
CS = ' ArrayBiDirectionalMap c; c.bimapsa.resize(2, 2); PUT(c.bimapsa(1, 0), g, V); PUT(c.bimapsa(0, 0), h, V); PUT(c.bimapsa(1, 1), k, V); PUT(c.bimapsa(0, 1), l, V);'
for t in ('R', 'F'):
    for d, m in enumerate('ghk'):
        mapx('ArrayMap direction %d %s' % (d, t), 'D[s] = a(X, %d)' % d, 'D:%s X:%s' % (t, t), lambda v, g, i, m=m: v('X', g[m](i)), maps='ghk', setup=AS)
        mapx('ArrayMap of an expression, direction %d %s' % (d, t), 'D[s] = a(X + Y, %d)' % d, 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i, m=m: v('X', g[m](i)) + v('Y', g[m](i)), maps='ghk', setup=AS)
    for sg, m in ((1, 'g'), (-1, 'h')):
        mapx('BiDirectionalMap sign %+d %s' % (sg, t), 'D[s] = b(X, %d)' % sg, 'D:%s X:%s' % (t, t), lambda v, g, i, m=m: v('X', g[m](i)), maps='gh', setup=BS)
        mapx('BiDirectionalMap of an expression, sign %+d %s' % (sg, t), 'D[s] = b(X + Y, %d)' % sg, 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i, m=m: v('X', g[m](i)) + v('Y', g[m](i)), maps='gh', setup=BS)
        mapx('nested BiDirectionalMap sign %+d %s' % (sg, t), 'D[s] = b(b(X, %d), %d)' % (-sg, sg), 'D:%s X:%s' % (t, t), lambda v, g, i, m=m: v('X', g['h' if m == 'g' else 'g'](g[m](i))), maps='gh', setup=BS)
    for d, sg, m in ((0, 1, 'g'), (0, -1, 'h'), (1, 1, 'k'), (1, -1, 'l')):
        mapx('ArrayBiDirectionalMap sign %+d direction %d %s' % (sg, d, t), 'D[s] = c(X, %s, %d)' % ('FORWARD' if sg > 0 else 'BACKWARD', d), 'D:%s X:%s' % (t, t), lambda v, g, i, m=m: v('X', g[m](i)), maps='ghkl', setup=CS)
        mapx('ArrayBiDirectionalMap of an expression, sign %+d direction %d %s' % (sg, d, t), 'D[s] = c(X + Y, %d, %d)' % (sg, d), 'D:%s X:%s Y:%s' % (t, t, t), lambda v, g, i, m=m: v('X', g[m](i)) + v('Y', g[m](i)), maps='ghkl', setup=CS)
