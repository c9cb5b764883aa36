"""Models of intrinsics and of external (library / runtime) functions: assumed contracts."""
from .poly import *
from . import poly as P

def _x():
    from . import exec as X
    return X

MODELS = {}
PREFIX_MODELS = []
def M(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def PM(*names):
    def d(f):
        for n in names: PREFIX_MODELS.append((n, f))
        return f
    return d

@PM('llvm.lifetime.')
def lifetime(ex, st, a, ins, name):
    # the contents of a stack temporary die here: what the current loop iteration wrote to it is gone
    X = _x()
    p, n = a[1], a[0]
    if isinstance(p, X.Ptr) and p.obj is not None and p.obj.kind == 'stack' and p.off == 0 and (n == -1 or n == p.obj.size or n is None):
        m = st.mem.get(p.obj)
        if m is not None:
            ls = list(m.layers)
            while ls and ls[-1] is not X.BARRIER: ls.pop()
            st.mem[p.obj] = X.MemO(p.obj, ls, st.tok)
    return None

@PM('llvm.dbg.', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.prefetch', 'llvm.invariant', 'llvm.donothing', 'llvm.stackrestore', 'llvm.x86.sse.sfence', 'llvm.x86.sse2.mfence')
def nop(ex, st, a, ins, name): return None

@PM('llvm.memcpy', 'llvm.memmove')
def memcpy(ex, st, a, ins, name):
    X = _x()
    dst, src, n = a[0], a[1], a[2]
    copy(ex, st, dst, src, n)
    return None

@M('memcpy', 'memmove')
def memcpy_c(ex, st, a, ins, name):
    copy(ex, st, a[0], a[1], a[2])
    return a[0]

def copy(ex, st, dst, src, n):
    X = _x()
    n = n.p if isinstance(n, X.Res) else n
    if not isinstance(n, Poly) and n == 0: return
    if not isinstance(n, Poly) and n <= 4096:
        # element-wise with the natural pieces
        sym, c = X.split(src.off)
        ex.access(st, src.obj, sym, c, n, False)
        mo = st.mem.get(src.obj)
        layers = mo.layers if mo is not None else []
        pos = 0
        out = []
        while pos < n:
            step = 8 if n - pos >= 8 else n - pos
            if step not in (1, 2, 4, 8): step = 4 if step > 4 else 2 if step > 2 else 1
            ps = ex.rd(st, src.obj, layers, len(layers) - 1, sym, c + pos, step, 'i%d' % (8 * step))
            out.append(ps); pos += step
        d = X.Ptr(dst.obj, dst.off)
        # merge slices of one value split over 8-byte reads
        flat = []
        for ps in out:
            for p in ps:
                if flat and flat[-1][1] is p[1] and flat[-1][2] == p[2] and flat[-1][4] == p[4] and flat[-1][3] + flat[-1][0] == p[3] and p[3] > 0:
                    q = flat[-1]; flat[-1] = (q[0] + p[0],) + q[1:]
                else: flat.append(p)
        dsym, dc = X.split(dst.off)
        for nb, val, kind, sub, vnb in flat:
            ex.access(st, dst.obj, dsym, dc, nb, True)
            if kind == 'zero':
                ex.write(st, dst.obj, dsym, dc, nb, val, 'zero', 0, nb)
            else: ex.write(st, dst.obj, dsym, dc, nb, val, kind, sub, vnb)
            dc += nb
        return
    # symbolic length
    for p, w in ((src, False), (dst, True)):
        if p.obj is None: raise X.Undecided('null memcpy')
        if p.obj.dead: raise X.Undecided('use after free')
        if p.obj.size is not None and not ex.tolerant:
            ok = ex.prove(st, c_and(c_le(pneg(p.off)), c_le(psub(padd(p.off, n), p.obj.size))))
            if not ok and not ex.prove(st, c_eq(n)):
                raise X.Refuted('memcpy outside %s: [%s, +%s) of %s' % (p.obj.name, show(p.off), show(n), show(p.obj.size)))
    smo = st.mem.get(src.obj) or X.MemO(src.obj, [], -1)
    snap = X.MemO(src.obj, [l if type(l) is not X.SymLayer else l.copy() for l in smo.layers if l is not X.BARRIER], -1)
    m = ex.wmem(st, dst.obj)
    m.layers.append(X.RangeLayer(dst.off, n, snap, src.off))

@PM('llvm.memset')
def memset(ex, st, a, ins, name):
    fill(ex, st, a[0], a[1], a[2]); return None
@M('memset')
def memset_c(ex, st, a, ins, name):
    fill(ex, st, a[0], ex.wrapc(a[1], 8) if type(a[1]) is int else a[1], a[2]); return a[0]
def fill(ex, st, dst, b, n):
    X = _x()
    n = n.p if isinstance(n, X.Res) else n
    if type(b) is not int: raise X.Undecided('memset value')
    if not isinstance(n, Poly):
        if n == 0: return
        sym, c = X.split(dst.off)
        ex.access(st, dst.obj, sym, c, n, True)
        if b == 0:
            if n <= 4096:
                pos = 0
                while pos < n:
                    k = 8 if n - pos >= 8 else 4 if n - pos >= 4 else 1
                    ex.write(st, dst.obj, sym, c + pos, k, 0, 'zero', 0, k); pos += k
                return
        if n <= 4096:
            for i in range(n): ex.write(st, dst.obj, sym, c + i, 1, b, 'i8')
            return
    if dst.obj.size is not None and not ex.tolerant:
        if not ex.prove(st, c_and(c_le(pneg(dst.off)), c_le(psub(padd(dst.off, n), dst.obj.size)))):
            raise X.Refuted('memset outside %s' % dst.obj.name)
    ex.wmem(st, dst.obj).layers.append(X.RangeLayer(dst.off, n, None, None, b))

# ---------------------------------------------------------------- arithmetic intrinsics
def lanes(v, f):
    X = _x()
    return X.Vec(f(x) for x in v) if isinstance(v, X.Vec) else f(v)
@PM('llvm.sqrt', 'llvm.x86.sse.sqrt', 'llvm.x86.sse2.sqrt')
def _(ex, st, a, ins, name): return lanes(a[0], fsqrt)
def fsqrt(x):
    if not isinstance(x, Poly):
        import math
        r = Fraction(math.isqrt(Fraction(x).numerator), math.isqrt(Fraction(x).denominator)) if x >= 0 else None
        if r is not None and r * r == x: return norm_c(r)
    return app('sqrt', (x,))
P.REBUILD['sqrt'] = fsqrt
@PM('llvm.fabs')
def _(ex, st, a, ins, name): return lanes(a[0], lambda x: app('fabs', (x,)) if isinstance(x, Poly) else abs(x))
for _n in 'sin cos tan exp log log10 sinh cosh tanh asin acos atan floor ceil'.split():
    def _mk(n):
        def f(ex, st, a, ins, name): return lanes(a[0], lambda x: app(n, (x,)))
        return f
    PREFIX_MODELS.append(('llvm.%s.' % _n, _mk(_n)))
    MODELS[_n] = _mk(_n); MODELS[_n + 'f'] = _mk(_n)
for _n in 'pow atan2 fmod hypot ldexp'.split():
    def _mk2(n):
        def f(ex, st, a, ins, name): return app(n, (a[0], a[1]))
        return f
    PREFIX_MODELS.append(('llvm.%s.' % _n, _mk2(_n)))
    MODELS[_n] = _mk2(_n); MODELS[_n + 'f'] = _mk2(_n)
MODELS['sqrtf'] = MODELS['sqrt'] = lambda ex, st, a, ins, name: fsqrt(a[0])
MODELS['fabs'] = MODELS['fabsf'] = lambda ex, st, a, ins, name: app('fabs', (a[0],)) if isinstance(a[0], Poly) else abs(a[0])
@PM('llvm.fmuladd', 'llvm.fma')
def _(ex, st, a, ins, name):
    X = _x()
    if isinstance(a[0], X.Vec): return X.Vec(padd(pmul(x, y), z) for x, y, z in zip(*a[:3]))
    return padd(pmul(a[0], a[1]), a[2])
def _imm(kind):
    def f(ex, st, a, ins, name):
        X = _x()
        w = int(name.rsplit('.i', 1)[1])
        u = kind[0] == 'u'
        g = ex.unsigned if u else ex.signed
        x, y = g(st, a[0], w), g(st, a[1], w)
        if not isinstance(x, Poly) and not isinstance(y, Poly):
            return ex.wrapc(max(x, y) if kind[1:] == 'max' else min(x, y), w)
        c = c_lt(psub(x, y))
        d = ex.decide(st, c)
        if d is None:
            r = ite(c, y, x) if kind[1:] == 'max' else ite(c, x, y)
        else: r = (y if d else x) if kind[1:] == 'max' else (x if d else y)
        return r if not u else ex.mk(r, w)
    return f
for _k in ('smax', 'smin', 'umax', 'umin'): PREFIX_MODELS.append(('llvm.%s.' % _k, _imm(_k)))
@PM('llvm.abs.')
def _(ex, st, a, ins, name):
    w = int(name.rsplit('.i', 1)[1])
    x = ex.signed(st, a[0], w)
    if not isinstance(x, Poly): return ex.wrapc(abs(x), w)
    d = ex.decide(st, c_lt(x))
    if d is None: return ite(c_lt(x), pneg(x), x)
    return pneg(x) if d else x
@PM('llvm.maxnum', 'llvm.maximum')
def _(ex, st, a, ins, name):
    from .ops import minmax
    return minmax('max', a[0], a[1])
@PM('llvm.minnum', 'llvm.minimum')
def _(ex, st, a, ins, name):
    from .ops import minmax
    return minmax('min', a[0], a[1])
MODELS['fmax'] = MODELS['fmaxf'] = lambda ex, st, a, ins, name: __import__('qvc.ops', fromlist=['x']).minmax('max', a[0], a[1])
MODELS['fmin'] = MODELS['fminf'] = lambda ex, st, a, ins, name: __import__('qvc.ops', fromlist=['x']).minmax('min', a[0], a[1])
@PM('llvm.bswap.')
def _(ex, st, a, ins, name):
    w = int(name.rsplit('.i', 1)[1]); X = _x()
    from .ops import flatten, take, cast1
    v = a[0]
    if type(v) is int:
        return ex.wrapc(int.from_bytes((v & ((1 << w) - 1)).to_bytes(w // 8, 'little'), 'big'), w)
    from .ir import INT
    ps = flatten(ex, v, INT(w))
    by = []
    while ps:
        q, ps = take(ps, 1); by += q
    by.reverse()
    return cast1(ex, by, INT(w))
@PM('llvm.x86.sse3.addsub.pd', 'llvm.x86.sse3.addsub.ps')
def _(ex, st, a, ins, name):
    X = _x()
    return X.Vec(psub(x, y) if i % 2 == 0 else padd(x, y) for i, (x, y) in enumerate(zip(a[0], a[1])))
@PM('llvm.x86.sse3.hadd.pd', 'llvm.x86.sse3.hadd.ps')
def _(ex, st, a, ins, name):
    X = _x(); h = lambda v: [padd(v[i], v[i + 1]) for i in range(0, len(v), 2)]
    return X.Vec(h(a[0]) + h(a[1]))
@PM('llvm.vector.reduce.fadd')
def _(ex, st, a, ins, name):
    r = a[0]
    for x in a[1]: r = padd(r, x)
    return r
@PM('llvm.is.constant')
def _(ex, st, a, ins, name): return False
@PM('llvm.expect')
def _(ex, st, a, ins, name): return a[0]
@PM('llvm.objectsize')
def _(ex, st, a, ins, name): return -1
@PM('llvm.stacksave')
def _(ex, st, a, ins, name): return _x().NULL
def _ovf(op, sgn):
    def f(ex, st, a, ins, name):
        X = _x(); w = int(name.rsplit('.i', 1)[1])
        g = ex.signed if sgn else ex.unsigned
        x, y = g(st, a[0], w), g(st, a[1], w)
        r = op(x, y)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgn else (0, (1 << w) - 1)
        if not isinstance(r, Poly): return X.Agg([ex.wrapc(r, w), not lo <= r <= hi])
        return X.Agg([ex.mk(r, w), c_not(c_and(c_le(psub(lo, r)), c_le(psub(r, hi))))])
    return f
for _n, _o in (('mul', pmul), ('add', padd), ('sub', psub)):
    PREFIX_MODELS.append(('llvm.u%s.with.overflow' % _n, _ovf(_o, False)))
    PREFIX_MODELS.append(('llvm.s%s.with.overflow' % _n, _ovf(_o, True)))
@PM('llvm.trap', 'llvm.ubsantrap')
def _(ex, st, a, ins, name): return _x().DEAD

# ---------------------------------------------------------------- memory management
def new(ex, st, a, ins, name):
    X = _x()
    n = a[0].p if isinstance(a[0], X.Res) else a[0]
    o = ex.alloc(st, fresh_name('heap'), n, 'heap', 'uninit')
    return X.Ptr(o, 0)
for _n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnamRKSt9nothrow_t', '_ZnwmRKSt9nothrow_t'): MODELS[_n] = new
# the default pool allocator (a std::map from aligned to raw blocks) is trusted: allocate gives a fresh block, free releases it
@PM('_ZN3QDP9Allocator19QDPDefaultAllocator8allocateEm')
def _(ex, st, a, ins, name): return new(ex, st, a[1:], ins, name)
@PM('_ZN3QDP9Allocator19QDPDefaultAllocator4freeEPv')
def _(ex, st, a, ins, name): return delete(ex, st, a[1:], ins, name)
@M('calloc')
def _(ex, st, a, ins, name):
    X = _x()
    o = ex.alloc(st, fresh_name('heap'), pmul(a[0], a[1]), 'heap', 'zero')
    return X.Ptr(o, 0)
def delete(ex, st, a, ins, name):
    X = _x()
    p = a[0]
    if p.obj is None: return None
    if not (isinstance(p.off, int) and p.off == 0): raise X.Undecided('free of interior pointer %r' % p)
    if p.obj.kind not in ('heap',):
        if p.obj.kind == 'param' and ex.allow_free_param: pass
        else: raise X.Undecided('free of non-heap object %s' % p.obj.name)
    fr = st.ghost.get('$freed', ())
    if p.obj in fr: raise X.Refuted('double free of %s' % p.obj.name)
    st.ghost['$freed'] = fr + (p.obj,)
    return None
for _n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdaPvRKSt9nothrow_t', '_ZdlPvRKSt9nothrow_t'): MODELS[_n] = delete

# ---------------------------------------------------------------- process / diagnostics
def dead(ex, st, a, ins, name): return _x().DEAD
for _n in ('abort', 'exit', '_exit', '__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', '__cxa_pure_virtual', '__assert_fail', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc',
           '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '__clang_call_terminate', '_ZSt16__throw_bad_castv', '_ZSt28__throw_bad_array_new_lengthv', '__stack_chk_fail', '_ZSt21__throw_runtime_errorPKc'): MODELS[_n] = dead
# QDP's own error exits (declared or defined in the library): end of the path
for _n in ('_ZN3QDP14QDP_error_exitEPKcz', '_ZN3QDP9QDP_abortEi', '_ZN3QDP9QDP_errorEPKcz'): MODELS[_n] = dead
for _n in ('__cxa_atexit', '__cxa_guard_release', '__cxa_end_catch', '__cxa_guard_abort', 'printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fputs', 'fputc', 'fwrite', 'vfprintf', 'perror', '__cxa_free_exception'):
    MODELS[_n] = lambda ex, st, a, ins, name: 0
MODELS['__cxa_guard_acquire'] = lambda ex, st, a, ins, name: 1
MODELS['__cxa_allocate_exception'] = new
MODELS['__cxa_begin_catch'] = lambda ex, st, a, ins, name: a[0]
@PM('_ZSt16__ostream_insert', '_ZNSolsE', '_ZStlsI', '_ZNSo3put', '_ZNSo5flush', '_ZNSo9_M_insert', '_ZSt4endl', '_ZNSt8ios_base4Init', '_ZNSt9basic_iosIcSt11char_traitsIcEE5clear')
def ostr(ex, st, a, ins, name): return a[0] if a else None
# standard stream objects: their members touch the stream object only (trusted)
@PM('_ZNSt7__cxx1119basic_istringstream', '_ZNSt7__cxx1119basic_ostringstream', '_ZNSt7__cxx1118basic_stringstream', '_ZNSt14basic_ifstream', '_ZNSt14basic_ofstream', '_ZNSt13basic_fstream', '_ZNSt13basic_filebuf', '_ZNSt7__cxx1115basic_stringbuf')
def stdstream(ex, st, a, ins, name): return None if ins.res is None else True if name.endswith('7is_openEv') else a[0]
@PM('_ZNKSt12__basic_fileIcE7is_openEv', '_ZNKSt13basic_filebuf', '_ZNKSt14basic_ifstream', '_ZNKSt14basic_ofstream', '_ZNKSt13basic_fstream')
def isopen(ex, st, a, ins, name): return True
@M('_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv')
def _(ex, st, a, ins, name):
    from .ir import PTR
    return ex.load(st, a[0], PTR)
@M('strlen')
def _(ex, st, a, ins, name):
    X = _x()
    p = a[0]
    if isinstance(p.off, int):
        for i in range(4096):
            v = ex.read(st, p.obj, 0, p.off + i, 1, 'i8')
            if type(v) is not int: break
            if v == 0: return i
    return fresh('strlen', 'int', 0, 1 << 40)

def demangle_prefix(name):
    return None

# ---- Layout::siteCoords / linearSiteIndex taken by their contract (proved for every layout under C01):
# a bijection between 0..vol-1 and the coordinates, both ways round the identity
def layout_crd(k):
    def f(i):
        if isinstance(i, Poly):
            at = P.the_atom(i)
            if at is not None and at.kind == 'app' and at.data[0] == 'lin': return at.data[1][k]
        r = app('crd%d' % k, (i,), sort='int', lo=0)
        if LAY: P.BOUNDS[P.the_atom(r).id] = (0, psub(LAY['n'][k], 1))
        return r
    return f
def layout_lin(*c):
    ats = [P.the_atom(x) if isinstance(x, Poly) else None for x in c]
    if all(a is not None and a.kind == 'app' and a.data[0] == 'crd%d' % k for k, a in enumerate(ats)) and len({a.data[1][0] for a in ats}) == 1: return ats[0].data[1][0]
    r = app('lin', tuple(c), sort='int', lo=0)
    if LAY: P.BOUNDS[P.the_atom(r).id] = (0, psub(LAY['V'], 1))
    return r
LAY = {}
for _k in range(8): P.REBUILD['crd%d' % _k] = layout_crd(_k)
P.REBUILD['lin'] = layout_lin
def _int(ex, st, x, w=32): return ex.signed(st, x, w)
@M('qvc_crd')
def _(ex, st, a, ins, name):
    X = _x(); i = _int(ex, st, a[1])
    ex.access(st, LAY['objV'], *(X.split(i) + (1, False)))      # precondition: 0 <= i < vol
    ex.assumed.add('Layout::siteCoords/linearSiteIndex by their contract: mutually inverse bijections (proved under C01)')
    return layout_crd(a[0])(i)
@M('qvc_lin')
def _(ex, st, a, ins, name):
    X = _x(); c = [_int(ex, st, x) for x in a]
    for k, x in enumerate(c): ex.access(st, LAY['obj'][k], *(X.split(x) + (1, False)))     # precondition: coordinates in range
    return layout_lin(*c)
# writing a message to a standard stream: no effect on the state
@PM('_ZN3QDP20StandardOutputStreamls')
def message(ex, st, a, ins, name): return a[0]
# ---- products of random seeds by their contract (proved from the real code under C13): a seed is a handle, its digits are functions of it
def _dig(k, h): return app('dig%d' % k, (h,), sort='int', lo=0, hi=2047 if k == 3 else 4095)
SEEDMUL = {}
def _smul(a, b):
    ka, kb = (sorted(x.t.items()) if isinstance(x, Poly) else [((), x)] for x in (a, b))
    return app('smul', (a, b) if ka <= kb else (b, a), sort='int')
P.REBUILD['smul'] = _smul
def seed_handle(d):
    """the handle of a seed given by its four digits"""
    d = list(d)
    if 'one' in SEEDMUL:                       # powers of the multiplier
        if all(not isinstance(x, Poly) for x in d): return {(1, 0, 0, 0): 0, (1645, 712, 1498, 1222): 1}.get(tuple(d))
    a = []
    for x in d:
        if not isinstance(x, Poly) or len(x.t) != 1: break
        (m, c), = x.t.items()
        if c != 1 or len(m) != 1: break
        a.append(P.ATOMS[m[0]])
    if len(a) == 4:
        if all(x.kind == 'app' and x.data[0] == 'dig%d' % k and x.data[1] == a[0].data[1] for k, x in enumerate(a)): return a[0].data[1][0]
    if 'one' in SEEDMUL:
        c = [x.data[0] for x in a if x.kind == 'ite'] + [P.ATOMS[m].data[0] for x in d if isinstance(x, Poly) for mm in x.t for m in mm if P.ATOMS[m].kind == 'ite']
        if c:
            u = [_branch(x, c[0]) for x in d]
            h1, h2 = seed_handle([x[0] for x in u]), seed_handle([x[1] for x in u])
            return None if h1 is None or h2 is None else ite(c[0], h1, h2)
        return None
    return app('pack', tuple(d), sort='int')
def _branch(x, c):
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, k), = x.t.items()
        if len(m) == 1 and k == 1 and P.ATOMS[m[0]].kind == 'ite' and P.ATOMS[m[0]].data[0] == c: return P.ATOMS[m[0]].data[1:3]
    return x, x
def seed_mul(a, b):
    h1, h2 = seed_handle(a), seed_handle(b)
    if h1 is None or h2 is None: raise _x().Undecided('seed is not a power of the multiplier')
    if 'one' in SEEDMUL: h = padd(h1, h2)
    else: h = _smul(h1, h2)
    return [_dig(k, h) for k in range(4)]
@M('qvc_seedmul')
def _(ex, st, a, ins, name):
    X = _x()
    if ex.tolerant and any(x is X.UNDEF for x in a): return P.fresh('guess')
    v = [_int(ex, st, x) for x in a]
    for j, x in enumerate(v[1:]):
        if not ex.tolerant and not (ex.prove(st, c_le(pneg(x))) and ex.prove(st, c_le(psub(x, 2047 if j % 4 == 3 else 4095)))): raise X.Undecided('digit %d of a seed is not in range' % (j % 4))
    ex.assumed.add('product of seeds by its contract: product modulo 2^47 (proved under C13)')
    k = v[0]
    if ex.tolerant:
        try: return seed_mul(v[1:5], v[5:9])[k]
        except X.Undecided: return P.fresh('guess')
    return seed_mul(v[1:5], v[5:9])[k]

# ---- one worker's range (dispatch by its contract)
RANGE = []
@M('qvc_range')
def _(ex, st, a, ins, name):
    st.ghost['range'] = _int(ex, st, a[1])     # the number of sites the caller hands to the dispatch
    return RANGE[a[0]]
