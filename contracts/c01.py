"""Site numbering: siteCoords and linearSiteIndex are mutually inverse bijections, for every lattice size, in all four layouts; crtesn/local_site in 1..5 dimensions."""
from qvc.reg import *
META = dict(assumptions=['at most 80e6 local sites', 'lattice extents are legal for the layout: multiples of 2 in direction 0 (CB2, CB3D), of 4 in direction 0 and 2 elsewhere (CB32); parity of the other extents is unrestricted where the code allows it'])
SRC = '''#include "h.h"
#undef QDP_USE_CB2_LAYOUT
#define QDP_USE_%s_LAYOUT 1
#include "qdp_scalar_layout.cc"
#include "qdp_layout.cc"
#define N4 int n0, int n1, int n2, int n3
#define SET { Layout::_layout.nrow.resize(4); Layout::_layout.nrow[0] = n0; Layout::_layout.nrow[1] = n1; Layout::_layout.nrow[2] = n2; Layout::_layout.nrow[3] = n3; Layout::_layout.vol = n0*n1*n2*n3; Layout::_layout.subgrid_vol = Layout::_layout.vol; }
#define GET(c, x) { for (int k = 0; k < 4; ++k) (c)[k] = (x)[k]; }
#define MK(x, c) multi1d<int> x(4); { for (int k = 0; k < 4; ++k) x[k] = (c)[k]; }
H h_coords(N4, int i, int* c) { SET; multi1d<int> x = Layout::siteCoords(0, i); GET(c, x); if (x.size() != 4) QDP_error_exit("size"); }
H h_there(N4, int i, int* out) { SET; *out = Layout::linearSiteIndex(Layout::siteCoords(0, i)); }
H h_back(N4, int* c, int* d, int* out) { SET; MK(x, c); int i = Layout::linearSiteIndex(x); out[0] = i; multi1d<int> y = Layout::siteCoords(Layout::nodeNumber(x), i); GET(d, y); GET(d + 4, x); }
H h_lex(N4, int i, int* out) { SET; out[0] = Layout::linearSiteIndex(i); multi1d<int> x = Layout::siteCoords(0, out[0]); GET(out + 1, x); }
H h_cexp(N4, int i, int* c) { SET; Layout::QDPXX_getSiteCoords(c, 0, i); c[4] = Layout::QDPXX_getLinearSiteIndex(c); c[5] = Layout::QDPXX_nodeNumber(c); multi1d<int> y = Layout::siteCoords(0, i); GET(c + 6, y); }
H h_llc(N4, int i, int* c) { SET; multi1d<int> y = Layout::localLexiCoordFromLinear(i); GET(c, y); }
H h_node(N4, int* c, int* d) { SET; MK(x, c); multi1d<int> y = Layout::nodeCoord(x); GET(d, y); d[4] = Layout::nodeNumber(x); d[5] = Layout::vol(); d[6] = Layout::sitesOnNode(); multi1d<int> z = Layout::getLogicalCoordFrom(0); GET(d + 7, z); }
'''
DIM = '''
template<int D> inline void h_split(const int* L, int i, int* c, int* out) { multi1d<int> n(D); for (int k = 0; k < D; ++k) n[k] = L[k]; multi1d<int> x = crtesn(i, n); for (int k = 0; k < D; ++k) c[k] = x[k]; *out = local_site(x, n); }
template<int D> inline void h_join(const int* L, const int* cin, int* c, int* out) { multi1d<int> n(D), y(D); for (int k = 0; k < D; ++k) { n[k] = L[k]; y[k] = cin[k]; } *out = local_site(y, n); multi1d<int> x = crtesn(*out, n); for (int k = 0; k < D; ++k) c[k] = x[k]; }
''' + ''.join('H h_split%d(const int* L, int i, int* c, int* out) { h_split<%d>(L, i, c, out); }\nH h_join%d(const int* L, const int* cin, int* c, int* out) { h_join<%d>(L, cin, c, out); }\n' % (d, d, d, d) for d in (1, 2, 3, 4, 5))
MULT = {'LEXICO': (1, 1, 1, 1), 'CB2': (2, 1, 1, 1), 'CB3D': (2, 1, 1, 1), 'CB32': (4, 2, 2, 2)}
G = ('_layout', 'Layout')
CAP = 80000000
def prod(l):
    r = 1
    for x in l: r = r * x
    return r

def dims(env, lay):
    mult = MULT[lay]
    h = [env.int('h%d' % k, 1, CAP, pick=lambda r: r.randint(1, 3)) for k in range(4)]
    n = [m * x for m, x in zip(mult, h)]
    # the index arithmetic is exact int: the volume must fit (assumption on the caller)
    env.assume(env.le(prod(n), CAP))
    if lay == 'CB2': env.evens = (0,)
    return n, h

def par(env, c, lay):
    """colour of a coordinate in the order of the layout"""
    if lay == 'CB2': return env.mod(c[0] + c[1] + c[2] + c[3], 2)
    if lay == 'CB3D': return env.mod(c[0] + c[1] + c[2], 2)
    if lay == 'CB32':
        s = sum(env.mod(c[k], 2) * (1 << k) for k in range(4))
        return s + 16 * env.mod(sum(env.div(c[k], 2) for k in range(4)), 2)
    return 0
NCOL = {'LEXICO': 1, 'CB2': 2, 'CB3D': 2, 'CB32': 32}

def inrange(env, lab, c, n):
    for k in range(4):
        env.true('%s coordinate %d >= 0' % (lab, k), env.le(0, c[k]))
        env.true('%s coordinate %d < extent' % (lab, k), env.lt(c[k], n[k]))

for lay in ('LEXICO', 'CB2', 'CB3D', 'CB32'):
    U = unit('lay_' + lay.lower(), '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_scalar_layout.cc', 'qdp_layout.cc'))
    U.text = SRC % lay + (DIM if lay in ('LEXICO', 'CB3D') else '')
    if lay == 'CB2': U.text = U.text.replace('#undef QDP_USE_CB2_LAYOUT\n', '').replace('#define QDP_USE_CB2_LAYOUT 1\n', '')
    NC = NCOL[lay]
    def site(env, lay, n, h, k):
        """every index of the k-th colour block: i = k*volcb + r"""
        vb = prod(h) if lay != 'LEXICO' else prod(n)
        r = env.int('r', 0, vb - 1)
        return k * vb + r
    def mk(lay, NC, U):
        ks = range(NC)
        @contract('C01', U, '%s/siteCoords in range and coloured by block' % lay)
        def _(env):
            n, h = dims(env, lay)
            c = env.array('c', 'i32', 4, init='uninit')
            env.modifies(c, globals_ok=G)
            for k in ks:
                i = site(env, lay, n, h, k)
                def post(res):
                    x = [c.at(j) for j in range(4)]
                    inrange(env, 'site %d' % k, x, n)
                    if lay != 'LEXICO': env.eq('colour of the site', par(env, x, lay), k)
                env.run('h_coords', n + [i, c], post)
        @contract('C01', U, '%s/linearSiteIndex(siteCoords(i)) = i' % lay)
        def _(env):
            n, h = dims(env, lay)
            o = env.array('out', 'i32', 1, init='uninit')
            env.modifies(o, globals_ok=G)
            for k in ks:
                i = site(env, lay, n, h, k)
                env.run('h_there', n + [i, o], lambda res: env.eq('round trip', o.at(0), i))
        @contract('C01', U, '%s/siteCoords(linearSiteIndex(c)) = c, index in range' % lay)
        def _(env):
            n, h = dims(env, lay)
            x = coords(env, lay, n, h)
            d = env.array('d', 'i32', 8, init='uninit'); o = env.array('out', 'i32', 1, init='uninit')
            env.modifies(d, o, globals_ok=G)
            for t, xs in enumerate(x):
                ci = env.array('ci%d' % t, 'i32', 4, init=xs)
                def post(res):
                    for j in range(4):
                        env.eq('coordinate %d' % j, d.at(j), xs[j])
                        env.eq('argument unchanged %d' % j, d.at(4 + j), xs[j])
                    env.true('index >= 0', env.le(0, o.at(0)))
                    env.true('index < volume', env.lt(o.at(0), prod(n)))
                env.run('h_back', n + [ci, d, o], post)
        @contract('C01', U, '%s/linearSiteIndex(lexicographic number)' % lay)
        def _(env):
            n, h = dims(env, lay)
            xss = coords(env, lay, n, h)
            o = env.array('out', 'i32', 5, init='uninit')
            env.modifies(o, globals_ok=G)
            for xs in xss:
                if lay == 'CB3D': i = xs[3] + n[3] * (xs[0] + n[0] * (xs[1] + n[1] * xs[2]))
                else: i = xs[0] + n[0] * (xs[1] + n[1] * (xs[2] + n[2] * xs[3]))
                def post(res):
                    for j in range(4): env.eq('coordinate %d of the site' % j, o.at(1 + j), xs[j])
                env.run('h_lex', n + [i, o], post)
        @contract('C01', U, '%s/C exports agree' % lay)
        def _(env):
            n, h = dims(env, lay)
            c = env.array('c', 'i32', 10, init='uninit')
            env.modifies(c, globals_ok=G)
            for k in (ks if NC <= 2 else (0, 13, 31)):
                i = site(env, lay, n, h, k)
                def post(res):
                    for j in range(4): env.eq('coordinate %d' % j, c.at(j), c.at(6 + j))
                    env.eq('index', c.at(4), i)
                    env.eq('node', c.at(5), 0)
                env.run('h_cexp', n + [i, c], post)
        if lay in ('LEXICO', 'CB2'):
            @contract('C01', U, '%s/localLexiCoordFromLinear' % lay)
            def _(env):
                n, h = dims(env, lay)
                c = env.array('c', 'i32', 4, init='uninit')
                env.modifies(c, globals_ok=G)
                for xs in coords(env, lay, n, h):
                    i = xs[0] + n[0] * (xs[1] + n[1] * (xs[2] + n[2] * xs[3]))
                    env.run('h_llc', n + [i, c], lambda res: [env.eq('coordinate %d' % j, c.at(j), xs[j]) for j in range(4)])
            @contract('C01', U, '%s/nodeCoord, nodeNumber, vol' % lay)
            def _(env):
                n, h = dims(env, lay)
                xs = coords(env, lay, n, h)[0]
                ci = env.array('ci', 'i32', 4, init=xs)
                d = env.array('d', 'i32', 11, init='uninit')
                env.modifies(d, globals_ok=G)
                def post(res):
                    for j in range(4): env.eq('node coordinate %d' % j, d.at(j), 0)
                    env.eq('node', d.at(4), 0); env.eq('vol', d.at(5), prod(n)); env.eq('sitesOnNode', d.at(6), prod(n))
                    for j in range(4): env.eq('logical coordinate %d' % j, d.at(7 + j), 0)
                env.run('h_node', n + [ci, d], post)
    def coords(env, lay, n, h):
        """every coordinate, by colour class: the parity is carried by direction 0 (its extent is even)"""
        if lay == 'LEXICO': return [[env.int('x%d' % k, 0, n[k] - 1) for k in range(4)]]
        if lay in ('CB2', 'CB3D'):
            y = env.int('y0', 0, h[0] - 1); x = [env.int('x%d' % k, 0, n[k] - 1) for k in (1, 2, 3)]
            return [[2 * y + env.mod(p + x[0] + x[1] + (x[2] if lay == 'CB2' else 0), 2)] + x for p in (0, 1)]
        y = [env.int('y%d' % k, 0, h[k] - 1) for k in range(4)]
        return [[4 * y[0] + 2 * env.mod(b + y[1] + y[2] + y[3], 2) + (p & 1)] + [2 * y[k] + (p >> k & 1) for k in (1, 2, 3)] for p in range(16) for b in (0, 1)]
    mk(lay, NC, U)
    if lay in ('LEXICO', 'CB3D'):
        def mkd(lay, U, D):
            # CB3D: the last direction runs fastest
            order = list(range(D)) if lay == 'LEXICO' else [D - 1] + list(range(D - 1))
            def lexi(x, L):
                r = 0
                for k in reversed(order): r = x[k] + L[k] * r
                return r
            def ext(env):
                L = [env.int('L%d' % k, 1, CAP, pick=lambda r: r.randint(1, 4)) for k in range(D)]
                env.assume(env.le(prod(L), CAP))
                return L
            @contract('C01', U, '%s/crtesn then local_site, %d-d' % (lay, D))
            def _(env):
                L = ext(env)
                La = env.array('L', 'i32', D, init=L)
                i = env.int('i', 0, prod(L) - 1)
                c = env.array('c', 'i32', D, init='uninit'); o = env.array('out', 'i32', 1, init='uninit')
                env.modifies(c, o)
                def post(res):
                    env.eq('round trip', o.at(0), i)
                    for k in range(D):
                        env.true('coordinate %d >= 0' % k, env.le(0, c.at(k)))
                        env.true('coordinate %d < extent' % k, env.lt(c.at(k), L[k]))
                env.run('h_split%d' % D, [La, i, c, o], post)
            @contract('C01', U, '%s/local_site then crtesn, %d-d' % (lay, D))
            def _(env):
                L = ext(env)
                La = env.array('L', 'i32', D, init=L)
                x = [env.int('x%d' % k, 0, L[k] - 1) for k in range(D)]
                xa = env.array('x', 'i32', D, init=x)
                c = env.array('c', 'i32', D, init='uninit'); o = env.array('out', 'i32', 1, init='uninit')
                env.modifies(c, o)
                def post(res):
                    env.eq('lexicographic number', o.at(0), lexi(x, L))
                    env.true('in range', env.and_(env.le(0, o.at(0)), env.lt(o.at(0), prod(L))))
                    for k in range(D): env.eq('coordinate %d' % k, c.at(k), x[k])
                env.run('h_join%d' % D, [La, xa, c, o], post)
        for D in (1, 2, 3, 4, 5): mkd(lay, U, D)
