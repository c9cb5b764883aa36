"""Multi-dimensional arrays: addressing is the row-major bijection in every bracket / parenthesis form, for every shape; copies,
assignments (self, sub-array, from a scalar), resizing and element-wise arithmetic act on exactly the elements they should."""
from .common import *
from qvc.reg import unit, contract
META = dict(assumptions=['an array has at most 80e6 elements (the library keeps sizes in int)'])
TT = {'int': 'i32', 'double': 'double', 'float': 'float'}
NMS = 'ijklm'
HEAD = '#include "h.h"\n#include "qdp_arrays.h"\n#define OWN(x) template class x;\ntemplate<class A> __attribute__((noinline)) A& same(A& a) { return a; }\n'
def rev(p, D): return ', '.join('%s%d' % (p, k) for k in range(D, 0, -1))
def gen(D, T):
    """entry points for multi<D>d<T>; extents n<D>..n1, indices i<D>..i1, all as the caller writes them (last index fastest)"""
    A = 'multi%dd<%s>' % (D, T)
    n = ', '.join('int n%d' % k for k in range(D, 0, -1)); i = ', '.join('int i%d' % k for k in range(D, 0, -1)); m = ', '.join('int m%d' % k for k in range(D, 0, -1))
    N, I, M = rev('n', D), rev('i', D), rev('m', D)
    br = ''.join('[i%d]' % k for k in range(D, 0, -1))
    sz = '*'.join('n%d' % k for k in range(1, D + 1)); szm = sz.replace('n', 'm')
    s = '%d_%s' % (D, T)
    sizes = lambda v: ' '.join('o[%d] = %s.size%d();' % (k - 1, v, k) for k in range(1, D + 1))
    t = ''
    t += 'H h_addr%s(%s* F, %s, %s, long* o) { %s a(F, %s); const %s& c = a; o[0] = &a(%s) - F; o[1] = &c(%s) - F; o[2] = &a%s - F; o[3] = &c%s - F; o[4] = a.slice(%s) - F; }\n' % (
        s, T, n, i, A, N, A, I, I, br, br, ', '.join('i%d' % k for k in range(D, 1, -1)))
    t += 'H h_size%s(%s* F, %s, int* o) { %s a(F, %s); %s }\n' % (s, T, n, A, N, sizes('a'))
    t += 'H h_new%s(%s, %s, %s v, %s* w, int* o) { %s a(%s); a = v; a(%s) = *w; for (int x = 0; x < %s; ++x) w[x] = a.F[x]; %s }\n' % (s, n, i, T, T, A, N, I, sz, sizes('a'))
    t += 'H h_resize%s(%s, %s, %s v, %s* w, int* o) { %s a(%s); a = v; a.resize(%s); a = v; for (int x = 0; x < %s; ++x) w[x] = a.F[x]; %s }\n' % (s, m, n, T, T, A, M, N, sz, sizes('a'))
    dump = 'for (int x = 0; x < %s; ++x) w[x] = b.F[x]; %s' % (sz, sizes('b'))
    t += 'H h_copy%s(%s* F, %s, %s* w, int* o) { %s a(F, %s); %s b(a); %s o[%d] = b.F == a.F; b(%s) = b(%s) ; }\n' % (s, T, n, T, A, N, A, dump, D, ', '.join('0' * D), ', '.join('0' * D))
    t += 'H h_copyown%s(%s* F, %s, %s, %s v, %s* w, %s* u, int* o) { %s c(F, %s); %s a(%s); a = c; %s b(a); b(%s) = v; for (int x = 0; x < %s; ++x) u[x] = a.F[x]; %s }\n' % (s, T, n, i, T, T, T, A, N, A, N, A, I, sz, dump)
    t += 'H h_assign%s(%s* F, %s, %s, %s* w, int* o) { %s a(F, %s); %s b(%s); b = a; %s o[%d] = b.F == a.F; }\n' % (s, T, n, m, T, A, N, A, M, dump, D)
    t += 'H h_assigndef%s(%s* F, %s, %s* w, int* o) { %s a(F, %s); %s b; b = a; %s o[%d] = b.F == a.F; }\n' % (s, T, n, T, A, N, A, dump, D)
    t += 'H h_self%s(%s* F, %s, %s* w, int* o) { %s a(F, %s); %s b(a); b = same(b); %s }\n' % (s, T, n, T, A, N, A, dump)
    t += 'H h_fill%s(%s* F, %s, %s v) { %s a(F, %s); a = v; }\n' % (s, T, n, T, A, N)
    t += 'H h_into%s(%s* F, %s* G, %s) { %s a(F, %s); %s b(G, %s); a = b; }\n' % (s, T, T, n, A, N, A, N)
    if D > 1:
        B = 'multi%dd<%s>' % (D - 1, T); N1 = rev('n', D - 1)
        t += 'H h_sub%s(%s* F, %s* G, %s, int i) { %s a(F, %s); %s b(G, %s); a[i] = b; }\n' % (s, T, T, n, A, N, B, N1)
        t += 'H h_subcopy%s(%s* F, %s, int i, %s* w, int* o) { %s a(F, %s); const %s& c = a; %s b; b = c[i]; for (int x = 0; x < %s; ++x) w[x] = b.F[x]; %s }\n' % (
            s, T, n, T, A, N, A, B, sz.rsplit('*', 1)[0], ' '.join('o[%d] = b.size%d();' % (k - 1, k) for k in range(1, D)))
    return t
ND = '''
#define MKNZ(z) multi1d<int> z(D); for (int k = 0; k < D; ++k) z[k] = nz[k];
template<int D, class T> struct At { };
template<class T> struct At<1, T> { static T* p(multiNd<T>& a, const int* i) { return &a(i[0]); } static const T* c(const multiNd<T>& a, const int* i) { return &a(i[0]); } };
template<class T> struct At<2, T> { static T* p(multiNd<T>& a, const int* i) { return &a(i[0], i[1]); } static const T* c(const multiNd<T>& a, const int* i) { return &a(i[0], i[1]); } };
template<class T> struct At<3, T> { static T* p(multiNd<T>& a, const int* i) { return &a(i[0], i[1], i[2]); } static const T* c(const multiNd<T>& a, const int* i) { return &a(i[0], i[1], i[2]); } };
template<class T> struct At<4, T> { static T* p(multiNd<T>& a, const int* i) { return &a(i[0], i[1], i[2], i[3]); } static const T* c(const multiNd<T>& a, const int* i) { return &a(i[0], i[1], i[2], i[3]); } };
template<int D, class T> inline void nd_addr(const int* nz, const int* ix, int off, long* o) { MKNZ(z); multiNd<T> a(z); const multiNd<T>& c = a; multi1d<int> y(D); for (int k = 0; k < D; ++k) y[k] = ix[k];
  o[0] = &a[y] - a.F; o[1] = &c[y] - a.F; o[2] = &a.getElem(off) - a.F; o[3] = &c.getElem(off) - a.F; o[4] = a.numElem(); for (int k = 0; k < D; ++k) { o[5 + k] = a.size(k); o[5 + D + k] = a.size()[k]; } o[5 + 2*D] = a.size().size(); }
template<int D, class T> inline void nd_par(const int* nz, const int* ix, long* o) { MKNZ(z); multiNd<T> a(z); o[0] = At<D, T>::p(a, ix) - a.F; o[1] = At<D, T>::c(a, ix) - a.F; }
template<int D, class T> inline void nd_copy(const int* nz, const T* F, int off, T v, T* w, T* u, int sz, int* o) { MKNZ(z); multiNd<T> a(z); for (int x = 0; x < sz; ++x) a.getElem(x) = F[x]; multiNd<T> b(a); b.getElem(off) = v; for (int x = 0; x < sz; ++x) { w[x] = b.F[x]; u[x] = a.F[x]; } o[0] = b.numElem(); for (int k = 0; k < D; ++k) o[1 + k] = b.size(k); }
template<int D, class T> inline void nd_assign(const int* nz, const T* F, int off, T v, T* w, T* u, int sz, int* o) { MKNZ(z); multiNd<T> a(z), b; for (int x = 0; x < sz; ++x) a.getElem(x) = F[x]; b = a; b.getElem(off) = v; for (int x = 0; x < sz; ++x) { w[x] = b.F[x]; u[x] = a.F[x]; } o[0] = b.numElem(); for (int k = 0; k < D; ++k) o[1 + k] = b.size(k); }
template<int D, class T> inline void nd_self(const int* nz, const T* F, T* w, int sz, int* o) { MKNZ(z); multiNd<T> a(z); for (int x = 0; x < sz; ++x) a.getElem(x) = F[x]; a = same(a); for (int x = 0; x < sz; ++x) w[x] = a.F[x]; o[0] = a.numElem(); for (int k = 0; k < D; ++k) o[1 + k] = a.size(k); }
template<int D, class T> inline void nd_fill(const int* nz, T v, T* w, int sz) { MKNZ(z); multiNd<T> a(z); a = v; for (int x = 0; x < sz; ++x) w[x] = a.F[x]; }
template<class T> inline void nd_empty(int* o) { multiNd<T> a; multiNd<T> b(a), c; c = a; o[0] = a.numElem(); o[1] = b.numElem(); o[2] = c.numElem(); o[3] = b.size().size(); }
'''
def nd(T):
    t = ''
    for D in range(1, 6):
        t += 'H h_ndaddr%d_%s(const int* nz, const int* ix, int off, long* o) { nd_addr<%d, %s>(nz, ix, off, o); }\n' % (D, T, D, T)
        if D < 5: t += 'H h_ndpar%d_%s(const int* nz, const int* ix, long* o) { nd_par<%d, %s>(nz, ix, o); }\n' % (D, T, D, T)
        for f in ('copy', 'assign'): t += 'H h_nd%s%d_%s(const int* nz, const %s* F, int off, %s v, %s* w, %s* u, int sz, int* o) { nd_%s<%d, %s>(nz, F, off, v, w, u, sz, o); }\n' % (f, D, T, T, T, T, T, f, D, T)
        t += 'H h_ndself%d_%s(const int* nz, const %s* F, %s* w, int sz, int* o) { nd_self<%d, %s>(nz, F, w, sz, o); }\n' % (D, T, T, T, D, T)
        t += 'H h_ndfill%d_%s(const int* nz, %s v, %s* w, int sz) { nd_fill<%d, %s>(nz, v, w, sz); }\n' % (D, T, T, T, D, T)
    return t + 'H h_ndempty_%s(int* o) { nd_empty<%s>(o); }\n' % (T, T)

def ext(env, D, p='n', hi=VMAX):
    n = [env.int('%s%d' % (p, k + 1), 1, VMAX, pick=lambda r: r.randint(1, 4)) for k in range(D)]
    V = 1
    for x in n: V = V * x
    env.assume(env.le(V, hi))
    return n, V
def idx(env, n): return [env.int('i%d' % (k + 1), 0, n[k] - 1) for k in range(len(n))]
def off(ix, n):
    o = 0
    for x, e in zip(reversed(ix), reversed(n)): o = o * e + x
    return o
def digits(env, o, n):
    r = []
    for k, e in enumerate(n):
        if k == len(n) - 1: r.append(o)
        else: r.append(env.mod(o, e)); o = env.div(o, e)
    return r
R = lambda l: list(reversed(l))

UA = {}
for T in ('int', 'double'):
    for D in range(1, 6):
        u = unit('multi%d_%s' % (D, T), '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc',)); u.text = HEAD + gen(D, T); UA[D, T] = u
    u = unit('multin_%s' % T, '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc',)); u.text = HEAD + ND + nd(T); UA['n', T] = u

def mk(D, T):
    U = UA[D, T]; s = '%d_%s' % (D, T); et = TT[T]; nm = 'multi%dd<%s> ' % (D, T)
    con = lambda lab: contract('C15', U, nm + lab)
    def F(env, V, name='F', init='sym'): return env.array(name, et, V, init=init)
    def scal(env, nm='v'): return env.int(nm, -2**31, 2**31 - 1, pick=lambda r: r.randint(-99, 99)) if T == 'int' else env.real(nm)
    def same(env, lab, w, f, V): env.forall('x', 0, V, lambda x: env.eq(lab, w.at(x), f(x)))
    def sizes(env, o, n): 
        for k in range(len(n)): env.eq('size%d' % (k + 1), o.at(k), n[k])
    @con('addresses')
    def _(env):
        n, V = ext(env, D); ix = idx(env, n)
        f = F(env, V); o = env.array('o', 'i64', 5, init='uninit'); env.modifies(o)
        e = off(ix, n)
        def post(r):
            for k, lab in enumerate(('a(..)', 'const a(..)', 'a[..]', 'const a[..]')):
                env.eq(lab, o.at(k), e)
            env.eq('slice', o.at(4), e - ix[0])
            env.true('in range', env.and_(env.le(0, o.at(0)), env.lt(o.at(0), V)))
            for k, x in enumerate(digits(env, o.at(0), n)): env.eq('distinct: index %d is determined by the address' % (k + 1), x, ix[k])
        env.run('h_addr' + s, [f] + R(n) + R(ix) + [o], post)
    @con('sizes')
    def _(env):
        n, V = ext(env, D)
        f = F(env, V); o = env.array('o', 'i32', D, init='uninit'); env.modifies(o)
        env.run('h_size' + s, [f] + R(n) + [o], lambda r: sizes(env, o, n))
    @con('constructed, filled, one element stored')
    def _(env):
        n, V = ext(env, D); ix = idx(env, n); v = scal(env)
        w = F(env, V, 'w'); o = env.array('o', 'i32', D, init='uninit'); env.modifies(w, o)
        def post(r):
            sizes(env, o, n); e = off(ix, n)
            env.eq('the element', w.at(e), w.old(0))
            def chk(x): env.eq('the other elements', w.at(x), v)
            env.forall('x', 0, e, chk); env.forall('x', e + 1, V, chk)
        env.run('h_new' + s, R(n) + R(ix) + [v, w, o], post)
    @con('resize')
    def _(env):
        n, V = ext(env, D); m, VM = ext(env, D, 'm'); v = scal(env)
        w = F(env, V, 'w', 'uninit'); o = env.array('o', 'i32', D, init='uninit'); env.modifies(w, o)
        env.run('h_resize' + s, R(m) + R(n) + [v, w, o], lambda r: (sizes(env, o, n), same(env, 'filled', w, lambda x: v, V)))
    for lab, fn, extra in (('copy construction', 'copy', 0), ('assignment to an array of another shape', 'assign', 1), ('assignment to an empty array', 'assigndef', 0)):
        @con(lab)
        def _(env, fn=fn, extra=extra):
            n, V = ext(env, D); m, VM = ext(env, D, 'm') if extra else ([], 0)
            f = F(env, V); w = F(env, V, 'w', 'uninit'); o = env.array('o', 'i32', D + 1, init='uninit'); env.modifies(w, o)
            env.run('h_' + fn + s, [f] + R(n) + R(m) + [w, o], lambda r: (sizes(env, o, n), same(env, 'copied', w, f.old, V), env.eq('own storage', o.at(D), 0)))
    @con('assignment to an array of the same shape')
    def _(env):
        n, V = ext(env, D)
        f = F(env, V); w = F(env, V, 'w', 'uninit'); o = env.array('o', 'i32', D + 1, init='uninit'); env.modifies(w, o)
        env.run('h_assign' + s, [f] + R(n) + R(n) + [w, o], lambda r: (sizes(env, o, n), same(env, 'copied', w, f.old, V), env.eq('own storage', o.at(D), 0)))
    @con('self-assignment')
    def _(env):
        n, V = ext(env, D)
        f = F(env, V); w = F(env, V, 'w', 'uninit'); o = env.array('o', 'i32', D, init='uninit'); env.modifies(w, o)
        env.run('h_self' + s, [f] + R(n) + [w, o], lambda r: (sizes(env, o, n), same(env, 'kept', w, f.old, V)))
    @con('a copy is independent of its source')
    def _(env):
        n, V = ext(env, D); ix = idx(env, n); v = scal(env)
        f = F(env, V); w = F(env, V, 'w', 'uninit'); u = F(env, V, 'u', 'uninit'); o = env.array('o', 'i32', D, init='uninit'); env.modifies(w, u, o)
        def post(r):
            e = off(ix, n); sizes(env, o, n)
            same(env, 'source kept', u, f.old, V)
            env.eq('element of the copy', w.at(e), v)
            def chk(x): env.eq('other elements of the copy', w.at(x), f.old(x))
            env.forall('x', 0, e, chk); env.forall('x', e + 1, V, chk)
        env.run('h_copyown' + s, [f] + R(n) + R(ix) + [v, w, u, o], post)
    @con('fill with a scalar')
    def _(env):
        n, V = ext(env, D); v = scal(env); f = F(env, V); env.modifies(f)
        env.run('h_fill' + s, [f] + R(n) + [v], lambda r: same(env, 'filled', f, lambda x: v, V))
    @con('assignment into wrapped memory')
    def _(env):
        n, V = ext(env, D); f = F(env, V); g = F(env, V, 'G'); env.modifies(f)
        env.run('h_into' + s, [f, g] + R(n), lambda r: same(env, 'copied', f, g.old, V))
    if D > 1:
        @con('sub-array assignment')
        def _(env):
            n, V = ext(env, D); i = env.int('i', 0, n[-1] - 1)
            W = 1
            for x in n[:-1]: W = W * x
            f = F(env, V); g = F(env, W, 'G'); env.modifies(f)
            def post(r):
                env.forall('x', 0, W, lambda x: env.eq('the slab', f.at(i * W + x), g.old(x)))
                def chk(x): env.eq('elsewhere', f.at(x), f.old(x))
                env.forall('x', 0, i * W, chk); env.forall('x', (i + 1) * W, V, chk)
            env.run('h_sub' + s, [f, g] + R(n) + [i], post)
        @con('sub-array copied out')
        def _(env):
            n, V = ext(env, D); i = env.int('i', 0, n[-1] - 1)
            W = 1
            for x in n[:-1]: W = W * x
            f = F(env, V); w = F(env, W, 'w', 'uninit'); o = env.array('o', 'i32', D - 1, init='uninit'); env.modifies(w, o)
            env.run('h_subcopy' + s, [f] + R(n) + [i, w, o], lambda r: (sizes(env, o, n[:-1]), env.forall('x', 0, W, lambda x: env.eq('the slab', w.at(x), f.old(i * W + x)))))
for T in ('int', 'double'):
    for D in range(1, 6): mk(D, T)

def mkn(D, T):
    U = UA['n', T]; s = '%d_%s' % (D, T); et = TT[T]; nm = 'multiNd<%s> rank %d ' % (T, D)
    con = lambda lab: contract('C15', U, nm + lab)
    def scal(env, nm='v'): return env.int(nm, -2**31, 2**31 - 1, pick=lambda r: r.randint(-99, 99)) if T == 'int' else env.real(nm)
    @con('addresses')
    def _(env):
        n, V = ext(env, D); ix = idx(env, n); q = env.int('q', 0, V - 1)
        nz = env.array('nz', 'i32', D, init=R(n)); iz = env.array('ix', 'i32', D, init=R(ix)); o = env.array('o', 'i64', 6 + 2 * D, init='uninit'); env.modifies(o)
        e = off(ix, n)
        def post(r):
            env.eq('a[index]', o.at(0), e); env.eq('const a[index]', o.at(1), e)
            env.eq('getElem', o.at(2), q); env.eq('const getElem', o.at(3), q); env.eq('numElem', o.at(4), V)
            for k in range(D): env.eq('size(%d)' % k, o.at(5 + k), n[D - 1 - k]); env.eq('size()[%d]' % k, o.at(5 + D + k), n[D - 1 - k])
            env.eq('rank', o.at(5 + 2 * D), D)
            env.true('in range', env.and_(env.le(0, o.at(0)), env.lt(o.at(0), V)))
            for k, x in enumerate(digits(env, o.at(0), n)): env.eq('distinct: index %d is determined by the address' % (k + 1), x, ix[k])
        env.run('h_ndaddr' + s, [nz, iz, q, o], post)
    if D < 5:
        @con('parenthesis form agrees')
        def _(env):
            n, V = ext(env, D); ix = idx(env, n)
            nz = env.array('nz', 'i32', D, init=R(n)); iz = env.array('ix', 'i32', D, init=R(ix)); o = env.array('o', 'i64', 2, init='uninit'); env.modifies(o)
            e = off(ix, n)
            env.run('h_ndpar' + s, [nz, iz, o], lambda r: (env.eq('a(..)', o.at(0), e), env.eq('const a(..)', o.at(1), e)))
    for lab, fn in (('copy construction', 'copy'), ('assignment', 'assign')):
        @con(lab)
        def _(env, fn=fn):
            n, V = ext(env, D); q = env.int('q', 0, V - 1); v = scal(env)
            nz = env.array('nz', 'i32', D, init=R(n)); f = env.array('F', et, V); w = env.array('w', et, V, init='uninit'); u = env.array('u', et, V, init='uninit'); o = env.array('o', 'i32', 1 + D, init='uninit')
            env.modifies(w, u, o)
            def post(r):
                env.eq('numElem', o.at(0), V)
                for k in range(D): env.eq('size(%d)' % k, o.at(1 + k), n[D - 1 - k])
                env.forall('x', 0, V, lambda x: env.eq('source kept', u.at(x), f.old(x)))
                env.eq('element of the copy', w.at(q), v)
                def chk(x): env.eq('other elements of the copy', w.at(x), f.old(x))
                env.forall('x', 0, q, chk); env.forall('x', q + 1, V, chk)
            env.run('h_nd' + fn + s, [nz, f, q, v, w, u, V, o], post)
    @con('self-assignment')
    def _(env):
        n, V = ext(env, D)
        nz = env.array('nz', 'i32', D, init=R(n)); f = env.array('F', et, V); w = env.array('w', et, V, init='uninit'); o = env.array('o', 'i32', 1 + D, init='uninit'); env.modifies(w, o)
        def post(r):
            env.eq('numElem', o.at(0), V)
            for k in range(D): env.eq('size(%d)' % k, o.at(1 + k), n[D - 1 - k])
            env.forall('x', 0, V, lambda x: env.eq('kept', w.at(x), f.old(x)))
        env.run('h_ndself' + s, [nz, f, w, V, o], post)
    @con('fill with a scalar')
    def _(env):
        n, V = ext(env, D); v = scal(env)
        nz = env.array('nz', 'i32', D, init=R(n)); w = env.array('w', et, V, init='uninit'); env.modifies(w)
        env.run('h_ndfill' + s, [nz, v, w, V], lambda r: env.forall('x', 0, V, lambda x: env.eq('filled', w.at(x), v)))
for T in ('int', 'double'):
    for D in range(1, 6): mkn(D, T)
    @contract('C15', UA['n', T], 'multiNd<%s> empty' % T)
    def _(env, T=T):
        o = env.array('o', 'i32', 4, init='uninit'); env.modifies(o)
        env.run('h_ndempty_' + T, [o], lambda r: [env.eq('no elements', o.at(k), 0) for k in range(4)])

# ---- element-wise arithmetic, comparisons, concatenation and functions of 1-d arrays
OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}
FUN = ('sqrt', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan')
def gen1(T):
    t = '#define WR(a, F, n) multi1d<%s> a(F, n);\n' % T
    for o, w in OPS.items():
        t += 'H h_%sa_%s(%s* D, %s* A, int n) { WR(d, D, n) WR(a, A, n) d %s= a; }\n' % (w, T, T, T, o)
        t += 'H h_%sself_%s(%s* D, int n) { WR(d, D, n) d %s= same(d); }\n' % (w, T, T, o)
        t += 'H h_%ss_%s(%s* D, %s s, int n) { WR(d, D, n) d %s= s; }\n' % (w, T, T, T, o)
        t += 'H h_b%saa_%s(%s* D, %s* A, %s* B, int n, int* o) { WR(a, A, n) WR(b, B, n) multi1d<%s> c = a %s b; *o = c.size(); for (int x = 0; x < n; ++x) D[x] = c.F[x]; }\n' % (w, T, T, T, T, T, o)
        t += 'H h_b%ssa_%s(%s* D, %s s, %s* B, int n, int* o) { WR(b, B, n) multi1d<%s> c = s %s b; *o = c.size(); for (int x = 0; x < n; ++x) D[x] = c.F[x]; }\n' % (w, T, T, T, T, T, o)
        t += 'H h_b%sas_%s(%s* D, %s s, %s* B, int n, int* o) { WR(b, B, n) multi1d<%s> c = b %s s; *o = c.size(); for (int x = 0; x < n; ++x) D[x] = c.F[x]; }\n' % (w, T, T, T, T, T, o)
    t += 'H h_fromc_%s(%s* D, const %s* A, int n) { WR(d, D, n) d = A; }\n' % (T, T, T)
    t += 'H h_concat_%s(%s* D, %s* A, int n, %s* B, int m, int* o) { WR(a, A, n) WR(b, B, m) multi1d<%s> c = concat(a, b); *o = c.size(); for (int x = 0; x < n + m; ++x) D[x] = c.F[x]; }\n' % (T, T, T, T, T)
    t += 'H h_norm_%s(%s* D, %s* A, int n) { WR(a, A, n) *D = norm2(a); }\n' % (T, T, T)
    for nm, o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
        t += 'extern "C" int h_%s_%s(%s* A, int n, %s* B, int m) { WR(a, A, n) WR(b, B, m) return a %s b; }\n' % (nm, T, T, T, o)
    if T == 'float':
        for f in FUN: t += 'H h_%s_%s(%s* D, %s* A, int n, int* o) { multi1d<Real> a((Real*)A, n); multi1d<Real> c = %s(a); *o = c.size(); for (int x = 0; x < n; ++x) D[x] = toFloat(c.F[x]); }\n' % (f, T, T, T, f)
    return t
FN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}
def mk1(T):
    U = unit('multi1d_arith_%s' % T, '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc',)); U.text = HEAD + gen1(T)
    et = TT[T]; nm = 'multi1d<%s> ' % T
    con = lambda lab, **kw: contract('C15', U, nm + lab, **kw)
    # int overflow is the caller's business: |values| stay below 2^15 so that sums and products fit
    lim = dict(lo=-32000, hi=32000) if T == 'int' else {}
    def arr(env, name, n, div=False): return env.array(name, et, n, **(dict(lo=1, hi=32000) if div and T == 'int' else lim))
    def scal(env, nm='v', div=False): return env.int(nm, 1 if div else -32000, 32000, pick=lambda r: r.randint(1 if div else -99, 99)) if T == 'int' else env.real(nm, nonzero=div)
    def nat(env, name='n', lo=0): return env.int(name, lo, VMAX, pick=lambda r: r.randint(lo, 6))
    def ap(env, w, a, b):
        if w == 'div': return a * env.inv(b)
        return FN[w](a, b)
    for w in OPS.values():
        if w == 'div' and T == 'int': continue      # C++ truncating division: exercised through double
        dv = w == 'div'
        def nz(env, a):
            if dv and env.sym: env.elem_axiom(a, lambda i, v: env.nonzero(v))
        @con('%s= array' % w)
        def _(env, w=w, dv=dv, nz=nz):
            n = nat(env, lo=0); d = arr(env, 'D', n); a = arr(env, 'A', n, dv); env.modifies(d)
            env.run('h_%sa_%s' % (w, T), [d, a, n], lambda r: env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), ap(env, w, d.old(x), a.old(x)))))
        @con('%s= scalar' % w)
        def _(env, w=w, dv=dv):
            n = nat(env); d = arr(env, 'D', n); s = scal(env, div=dv); env.modifies(d)
            env.run('h_%ss_%s' % (w, T), [d, s, n], lambda r: env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), ap(env, w, d.old(x), s))))
        if not dv:
            @con('%s= itself' % w)
            def _(env, w=w):
                n = nat(env); d = arr(env, 'D', n); env.modifies(d)
                env.run('h_%sself_%s' % (w, T), [d, n], lambda r: env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), ap(env, w, d.old(x), d.old(x)))))
        @con('array %s array' % w)
        def _(env, w=w, dv=dv):
            n = nat(env, lo=1); d = env.array('D', et, n, init='uninit'); a = arr(env, 'A', n); b = arr(env, 'B', n, dv); o = env.array('o', 'i32', 1, init='uninit'); env.modifies(d, o)
            env.run('h_b%saa_%s' % (w, T), [d, a, b, n, o], lambda r: (env.eq('size', o.at(0), n), env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), ap(env, w, a.old(x), b.old(x))))))
        @con('scalar %s array' % w)
        def _(env, w=w, dv=dv):
            n = nat(env, lo=1); d = env.array('D', et, n, init='uninit'); b = arr(env, 'B', n, dv); s = scal(env); o = env.array('o', 'i32', 1, init='uninit'); env.modifies(d, o)
            env.run('h_b%ssa_%s' % (w, T), [d, s, b, n, o], lambda r: (env.eq('size', o.at(0), n), env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), ap(env, w, s, b.old(x))))))
        @con('array %s scalar' % w)
        def _(env, w=w, dv=dv):
            n = nat(env, lo=1); d = env.array('D', et, n, init='uninit'); b = arr(env, 'B', n); s = scal(env, div=dv); o = env.array('o', 'i32', 1, init='uninit'); env.modifies(d, o)
            env.run('h_b%sas_%s' % (w, T), [d, s, b, n, o], lambda r: (env.eq('size', o.at(0), n), env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), ap(env, w, b.old(x), s)))))
    @con('= C array')
    def _(env):
        n = nat(env); d = arr(env, 'D', n); a = arr(env, 'A', n); env.modifies(d)
        env.run('h_fromc_' + T, [d, a, n], lambda r: env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), a.old(x))))
    @con('concat')
    def _(env):
        n = nat(env); m = nat(env, 'm'); d = env.array('D', et, n + m, init='uninit'); a = arr(env, 'A', n); b = arr(env, 'B', m); o = env.array('o', 'i32', 1, init='uninit'); env.modifies(d, o)
        def post(r):
            env.eq('size', o.at(0), n + m)
            env.forall('x', 0, n, lambda x: env.eq('left part', d.at(x), a.old(x)))
            env.forall('x', 0, m, lambda x: env.eq('right part', d.at(n + x), b.old(x)))
        env.run('h_concat_' + T, [d, a, n, b, m, o], post)
    if T != 'int':
        @con('norm2')
        def _(env):
            n = nat(env, lo=1); d = env.array('D', et, 1, init='uninit'); a = arr(env, 'A', n); env.modifies(d)
            env.run('h_norm_' + T, [d, a, n], lambda r: env.eq('sum of squares', d.at(0), env.sum(n, lambda i: a.old(i) * a.old(i))))
    if T == 'float':
        for f in FUN:
            @con(f, native_n=300)
            def _(env, f=f):
                n = nat(env, lo=1); d = env.array('D', et, n, init='uninit'); a = env.array('A', et, n, pick=lambda r: [Fraction(r.randint(1, 64), 64) for _ in range(int(n))]) ; o = env.array('o', 'i32', 1, init='uninit'); env.modifies(d, o)
                g = (lambda x: env.sqrt(x)) if f == 'sqrt' else (lambda x: env.fn(f, x))
                env.run('h_%s_%s' % (f, T), [d, a, n, o], lambda r: (env.eq('size', o.at(0), n), env.forall('x', 0, n, lambda x: env.eq('element', d.at(x), g(a.old(x))))))
    if T == 'int':
        # comparisons: equal arrays, and arrays whose first difference is at place p (or that are a proper prefix)
        def pair(env, kind):
            n = nat(env, lo=1)
            if kind == 'same': m = n; p = n
            elif kind == 'prefix': m = nat(env, 'm', 1); env.assume(env.lt(n, m)); p = n
            else: m = nat(env, 'm', 1); p = env.int('p', 0, None, pick=lambda r: r.randint(0, 3)); env.assume(env.lt(p, n)); env.assume(env.lt(p, m))
            if env.sym:
                a = env.array('A', et, n, **lim); b = env.array('B', et, m, **lim)
                from qvc.poly import idiv
                def f(i, v):
                    # b[i] = a[i] below the first difference
                    return env.or_(env.not_(env.lt(i, p)), env.not_(env.le(0, i)), env.eqc(v, a.old(i)))
                env.elem_axiom(b, f)
                env.elem_axiom(a, lambda i, v: env.or_(env.not_(env.lt(i, p)), env.not_(env.le(0, i)), env.eqc(v, b.old(i))))
            else:
                A = [env.rnd.randint(-3, 3) for _ in range(int(n))]; B = [env.rnd.randint(-3, 3) for _ in range(int(m))]
                for i in range(int(p)): B[i] = A[i]
                if kind in ('less', 'greater'):
                    A[int(p)], B[int(p)] = (-1, 2) if kind == 'less' else (5, 1)
                a = env.array('A', et, n, pick=lambda r: A); b = env.array('B', et, m, pick=lambda r: B)
            if kind == 'less': env.assume(env.lt(a.old(p), b.old(p)))
            if kind == 'greater': env.assume(env.lt(b.old(p), a.old(p)))
            return n, m, a, b
        res = {'same': dict(eq=1, ne=0, lt=0, gt=0, le=1, ge=1), 'prefix': dict(eq=0, ne=1, lt=1, gt=0, le=1, ge=0), 'less': dict(eq=0, ne=1, lt=1, gt=0, le=1, ge=0), 'greater': dict(eq=0, ne=1, lt=0, gt=1, le=0, ge=1)}
        for kind, rr in res.items():
            for w, val in rr.items():
                @con('comparison %s, %s' % (w, {'same': 'equal arrays', 'prefix': 'left a proper prefix', 'less': 'left smaller at the first difference', 'greater': 'left larger at the first difference'}[kind]))
                def _(env, kind=kind, w=w, val=val):
                    n, m, a, b = pair(env, kind); env.modifies()
                    env.run('h_%s_%s' % (w, T), [a, n, b, m], lambda r: env.eq('result', r, val))
for T in TT: mk1(T)

# ---- one-based arrays
def gO(D):
    T = 'double'
    n = ', '.join('int n%d' % k for k in range(D, 0, -1)); i = ', '.join('int i%d' % k for k in range(D, 0, -1))
    return 'H h_one%d(%s, %s, double v, double* w, int* o) { Array%ddO<double> a(%s); a = v; a(%s) = *w; const Array%ddO<double>& c = a; Array%ddO<double> b(a), d; d = b; o[0] = &c(%s) == &a(%s); for (int x = 0; x < %s; ++x) w[x] = d.ref().F[x]; %s }\n' % (
        D, n, i, D, rev('n', D), rev('i', D), D, D, rev('i', D), rev('i', D), '*'.join('n%d' % k for k in range(1, D + 1)), ' '.join('o[%d] = d.size%d();' % (k, k) for k in range(1, D + 1)))
UO = unit('arrays_one', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc',)); UO.text = HEAD + ''.join(gO(D) for D in range(2, 6))
for D in range(2, 6):
    @contract('C15', UO, 'Array%ddO: one-based element, copy, fill' % D)
    def _(env, D=D):
        n, V = ext(env, D); ix = idx(env, n); v = env.real('v')
        w = env.array('w', 'double', V); o = env.array('o', 'i32', D + 1, init='uninit'); env.modifies(w, o)
        def post(r):
            e = off(ix, n)
            env.eq('const access agrees', o.at(0), 1)
            for k in range(D): env.eq('size%d' % (k + 1), o.at(k + 1), n[k])
            env.eq('the element', w.at(e), w.old(0))
            def chk(x): env.eq('the other elements', w.at(x), v)
            env.forall('x', 0, e, chk); env.forall('x', e + 1, V, chk)
        env.run('h_one%d' % D, R(n) + [x + 1 for x in R(ix)] + [v, w, o], post)
