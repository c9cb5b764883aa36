"""Contracts: one description, two readings.

SymEnv   - generates and discharges the verification conditions over the LLVM IR of the real code.
NatEnv   - runs the same contract on the natively compiled real code with concrete inputs
           (replay of counterexamples, search for failing inputs, labelled bounded stand-ins)."""
import ctypes, random, struct, time, os, sys
from fractions import Fraction
from . import poly as P
from .poly import *
from . import exec as X
from .exec import Exec, Obj, Ptr, Vec, Agg, Res, Raw, Undecided, Fork, Refuted, NULL, UNDEF, State, split, knb

CT = {'float': ctypes.c_float, 'double': ctypes.c_double, 'i8': ctypes.c_int8, 'i16': ctypes.c_int16, 'i32': ctypes.c_int32,
      'i64': ctypes.c_int64, 'i1': ctypes.c_uint8, 'ptr': ctypes.c_uint64}

class Failed(Exception):
    """an obligation is not discharged"""
    def __init__(s, label, msg, model=None):
        Exception.__init__(s, '%s: %s' % (label, msg)); s.label = label; s.msg = msg; s.model = model

class Skip(Exception): pass

# =====================================================================================================
class SymArr:
    def __init__(s, env, name, et, n, obj):
        s.env = env; s.name = name; s.et = et; s.n = n; s.obj = obj; s.es = knb(et)
    def __add__(s, k): return Ptr(s.obj, pmul(k, s.es))
    def ptr(s, i=0): return Ptr(s.obj, pmul(i, s.es))
    def old(s, i):
        if s.obj.init != 'sym':
            raise Exception('old() of uninitialised array')
        off = pmul(i, s.es)
        if s.obj.fn is not None:
            r = s.obj.fn(off, s.et, s.es)
            if r is not None: return r
        return s.env.ex.sym_cell(s.obj, off, s.et)
    def at(s, i):
        sym, c = split(pmul(i, s.es))
        v = s.env.ex.read(s.env.st, s.obj, sym, c, s.es, s.et)
        if v is UNDEF: raise Failed('read %s' % s.name, 'element %s is not written' % show(i))
        if s.et[0] == 'i' and s.et != 'i1': v = s.env.ex.signed(s.env.st, v, 8 * s.es)
        return v

class SymEnv:
    sym = True
    def __init__(s, mods, prover=None, timeout=None):
        s.ex = Exec(mods, prover)
        s.st = s.ex.new_state()
        s.arrs = []
        s.obl = 0            # obligations generated and discharged
        s.backend = {}
        s.names = {}
        s.ints = {}          # name -> Poly (free integer parameters)
        s.reals = {}
        s.label = ''
        s.paths = 0
        s.assumptions = []
        s.deadline = None
        s.samples = []
        s.vac = 0

    # ---- parameters
    def int(s, name, lo=None, hi=None, pick=None):
        v = P.var(name, 'int', None if isinstance(lo, Poly) else lo, None if isinstance(hi, Poly) else hi)
        s.ints[name] = v
        if lo is not None: s.st.add(c_le(psub(lo, v)))
        if hi is not None: s.st.add(c_le(psub(v, hi)))
        if isinstance(hi, Poly) and not isinstance(lo, Poly) and lo is not None and lo >= 0: P.BOUNDS[P.the_atom(v).id] = (lo, hi)
        return v
    def choice(s, name, vals):
        """case split over a finite set: handled by the caller through instances"""
        raise Exception('choice')
    def real(s, name, nonzero=False, positive=False, pick=None):
        v = P.var(name, 'real')
        s.reals[name] = v
        if nonzero: s.ex.prover.facts.append(c_not(c_req(v)))
        if positive: s.ex.prover.facts.append(c_rlt(pneg(v)))
        return v
    def array(s, name, et, n, init='sym', lo=None, hi=None, injective=False, pick=None, fn=None, tag=None):
        size = pmul(n, knb(et)) if n is not None else None
        vals = None
        if isinstance(init, (list, tuple)): vals = list(init); init = 'sym'
        o = s.ex.alloc(s.st, name, size, kind='param', init=init, tag=tag or et, lo=lo, hi=hi, fn=fn)
        o.vals = vals
        a = SymArr(s, name, et, n, o)
        s.arrs.append(a)
        if injective: s.inject(o, knb(et))
        if isinstance(n, Poly): s.st.add(c_le(pneg(n)))
        # range axioms with symbolic limits
        if isinstance(lo, Poly) or isinstance(hi, Poly):
            slo, shi = lo, hi
            o.lo = None if isinstance(lo, Poly) else lo
            o.hi = None if isinstance(hi, Poly) else hi
            nm = o.name
            def ax(at, nm=nm, slo=slo, shi=shi, o=o):
                if at.kind == 'cell' and at.data[0] == nm and at.sort == 'int':
                    r = []
                    if slo is not None: r.append(c_le(psub(slo, avar(at))))
                    if shi is not None: r.append(c_le(psub(avar(at), shi)))
                    return r
                return ()
            s.ex.prover.axioms.append(ax)
        return a
    def inject(s, o, es):
        nm = o.name
        def ax(a, b):
            if a.kind == 'cell' and b.kind == 'cell' and a.data[0] == nm and b.data[0] == nm and a.sort == 'int':
                return [c_or(c_eq(psub(a.data[1], b.data[1])), c_ne(psub(avar(a), avar(b))))]
            return ()
        s.ex.prover.axioms2.append(ax)
    def elem_axiom(s, arr, f):
        """for every element i of arr: condition f(i, value)"""
        nm = arr.name; es = arr.es
        def ax(at):
            if at.kind == 'cell' and at.data[0] == nm:
                i = idiv(at.data[1], es)
                return [c for c in [f(i, avar(at))] if c is not True]
            return ()
        s.ex.prover.axioms.append(ax)
    def assume(s, c, note=None):
        s.st.add(c)
        if note: s.assumptions.append(note)
    def null(s): return NULL

    # ---- conditions
    le = staticmethod(lambda a, b: c_le(psub(a, b)))
    lt = staticmethod(lambda a, b: c_lt(psub(a, b)))
    eqc = staticmethod(lambda a, b: c_eq(psub(a, b)))
    nec = staticmethod(lambda a, b: c_ne(psub(a, b)))
    and_ = staticmethod(c_and); or_ = staticmethod(c_or); not_ = staticmethod(c_not)
    div = staticmethod(idiv); mod = staticmethod(umod)
    ite = staticmethod(ite)
    inv = staticmethod(pinv)
    nonzero = staticmethod(lambda a: c_not(c_req(a)))
    def rel(s, f, a, b, real):
        if not real: return getattr(s, f)(a, b)
        return {'lt': lambda: c_rlt(psub(a, b)), 'gt': lambda: c_rlt(psub(b, a)), 'le': lambda: c_not(c_rlt(psub(b, a))), 'ge': lambda: c_not(c_rlt(psub(a, b))),
                'eqc': lambda: c_req(psub(a, b)), 'nec': lambda: c_not(c_req(psub(a, b)))}[f]()
    def gt(s, a, b): return s.lt(b, a)
    def ge(s, a, b): return s.le(b, a)
    def sum(s, n, f): return psum(n, f)
    def extremum(s, kind, n, f):
        """largest / smallest of f(0) .. f(n-1), n >= 1"""
        return X.fold_mm(kind, psub(n, 1), f(0), lambda j: f(padd(j, 1)))
    def bit(s, op, a, b, w=32):
        """bitwise operation on non-negative integers below 2^w"""
        from .ops import bin_int
        r = bin_int(s.ex, s.st, op, w, a, b, ())
        return s.ex.signed(s.st, r, w)
    def shl(s, a, k, hi):
        r = pscale(a, 1 << hi)
        for v in range(hi - 1, -1, -1): r = ite(c_eq(psub(k, v)), pscale(a, 1 << v), r)
        return r
    def shr(s, a, k, hi):
        r = idiv(a, 1 << hi)
        for v in range(hi - 1, -1, -1): r = ite(c_eq(psub(k, v)), idiv(a, 1 << v), r)
        return r
    def probe(s): return P.var('$probe', 'int', lo=0)
    def double_acc(s, exact=False, trunc=False):
        """every loop-carried accumulator must be double, and (unless trunc) no value may be rounded back to float"""
        s.ex.need_double = True
        if not trunc:
            def tr(v):
                if isinstance(v, Poly) and not s.ex.tolerant: s.ex.float_acc.append('rounding to float')
                return v
            s.ex.on_fptrunc = tr
    def sqrt(s, x):
        from .models import fsqrt
        return fsqrt(x)
    def fn(s, name, *a): return app(name, a)
    def val(s, p): return p

    # ---- running
    def arg(s, a):
        if isinstance(a, SymArr): return Ptr(a.obj, 0)
        return a
    def run(s, fname, args, post=None, abort=None):
        ex = s.ex
        st0 = s.st
        if fname not in ex.funcs: raise Undecided('function %s not found in the compiled unit' % fname)
        outs = ex.call(st0, fname, [s.arg(a) for a in args])
        n = 0
        for o in outs:
            if ex.prover.sat(o.pc) == 'unsat': continue
            s.paths += 1
            if o.status == 'abort':
                if abort is None:
                    s.fail(o, 'no abort', 'the call can terminate abnormally')
                else:
                    s.st = o; abort()
                n += 1
                continue
            n += 1
            s.st = o
            s.bounds(o)
            if post is not None: s.split(lambda: post(s.result(o, fname)), o)
            s.frame_all(o, fname)
        if ex.need_double:
            s.obl += 1; s.backend['precision'] = s.backend.get('precision', 0) + 1
            if ex.float_acc: s.fail(st0, 'accumulates in double', 'single precision accumulation: %s' % ', '.join(sorted(set(ex.float_acc)))[:300])
        s.vac += 1
        if n == 0: raise Failed('vacuity', 'no feasible path through %s under the preconditions' % fname)
        s.st = st0
    def result(s, o, fname):
        return o.ret
    def bounds(s, o):
        ex = s.ex
        try: 
            c0 = ex.counters['bounds']
            ex.check_acc(o)
            k = ex.counters['bounds'] - c0
            s.obl += k; s.backend['bounds'] = s.backend.get('bounds', 0) + k
        except Refuted as e:
            s.fail(o, 'bounds', str(e))

    def split(s, f, st):
        """run f, forking the state when a read needs a case distinction"""
        work = [st]
        n = 0
        while work:
            x = work.pop()
            n += 1
            if n > 4000: raise Undecided('too many cases')
            if s.deadline and time.time() > s.deadline: raise Undecided('deadline')
            s.st = x
            try:
                f()
            except Fork as e:
                a = x.fork(); b = x
                a.add(e.cond); b.add(c_not(e.cond))
                for y in (a, b):
                    if False in y.pc: continue
                    if s.ex.prover.sat(y.pc) == 'unsat': continue
                    work.append(y)
        s.st = st

    def cases(s, c, f):
        """run f under c and under not c"""
        if isinstance(c, bool): f(c); return
        st = s.st
        for q in (c, c_not(c)):
            x = st.fork(); x.add(q)
            if False in x.pc or s.ex.prover.sat(x.pc) == 'unsat': continue
            s.split(lambda: f(q == c), x)
        s.st = st
    def set_range(s, lo, hi):
        from . import models as MO
        MO.RANGE[:] = [lo, hi]
    def range_count(s):
        """site count given to the dispatch by the call, None when the call did not dispatch"""
        return s.st.ghost.get('range')
    def forall(s, name, lo, hi, f, cond=None):
        """for all lo <= i < hi (with cond(i)): f(i)"""
        st = s.st
        if not isinstance(lo, Poly) and not isinstance(hi, Poly) and hi - lo <= 64:
            for i in range(lo, hi):
                if cond is not None and cond(i) is False: continue
                x = st.fork()
                if cond is not None: x.add(cond(i))
                if False in x.pc or s.ex.prover.sat(x.pc) == 'unsat': continue
                s.split(lambda: f(i), x)
                s.st = st
            return
        i = P.fresh(name, 'int', lo=lo if not isinstance(lo, Poly) else None, hi=None if isinstance(hi, Poly) else hi - 1)
        x = st.fork()
        x.add(c_le(psub(lo, i))); x.add(c_lt(psub(i, hi)))
        if cond is not None: x.add(cond(i))
        if False not in x.pc and s.ex.prover.sat(x.pc) != 'unsat':
            s.split(lambda: f(i), x)
        s.st = st
    def fail(s, st, label, msg):
        model = None
        r = s.ex.prover.sat(st.pc)
        if r == 'sat':
            model = {}
            for k, v in s.ints.items():
                try: model[k] = s.ex.prover.mval(v)
                except Exception: pass
        raise Failed(label, msg, model)
    bad_st = None
    def eq(s, label, got, want):
        st = s.st; ex = s.ex
        s.bad_st = None
        if isinstance(got, (Res,)): got = ex.signed(st, got, got.w)
        if isinstance(got, bool) or type(got) is tuple:
            got_c = got
            want_c = want if isinstance(want, (bool, tuple)) else c_ne(want)
            ok = got_c == want_c or (ex.prove(st, c_or(c_not(got_c), want_c)) and ex.prove(st, c_or(got_c, c_not(want_c))))
        elif isinstance(got, Ptr) or isinstance(want, Ptr):
            ok = isinstance(got, Ptr) and isinstance(want, Ptr) and got.obj is want.obj and ex.peq(st, got.off, want.off)
        elif got is UNDEF or isinstance(got, Raw):
            ok = False
        elif type(got).__name__ == 'BV' or type(want).__name__ == 'BV':
            from . import bvrec as B
            w = (got if type(got).__name__ == 'BV' else want).e.size()
            x, y = B.of(ex, got, w), B.of(ex, want, w)
            ok = ex.bvrec.same(ex, st, x, y) if ex.bvrec else B.valid(x == y)
        else:
            d = psub(got, want)
            if d == 0:
                ok = True; s.backend['ring'] = s.backend.get('ring', 0) + 1; s.backend['smt'] = s.backend.get('smt', 0) - 1
            else: ok = s.eqcases(st, got, want)
        if not ok:
            # is the point reachable at all?
            s.fail(s.bad_st or st, label, 'got %s, specified %s [path %s]' % (show(got, 600) if isinstance(got, (Poly, int, Fraction)) else got,
                   show(want, 600) if isinstance(want, (Poly, int, Fraction)) else want, '; '.join(cshow(c)[:80] for c in st.pc[:8] if c is not False)))
        s.obl += 1; s.backend['smt'] = s.backend.get('smt', 0) + 1
        if len(s.samples) < 3: s.samples.append('%s: %s' % (label, (show(want, 160) if isinstance(want, (Poly, int, Fraction)) else str(want))))
    def eqcases(s, st, got, want, depth=0):
        ex = s.ex
        if ex.peq(st, got, want): return True
        if depth > 6: s.bad_st = st; return False
        # case split on remaining ite conditions, also those inside arguments and indices
        d = ex.simp(st, psub(got, want))
        if not isinstance(d, Poly): return d == 0
        d2 = ex.resolve_nested(st, d)
        if d2 != d:
            if not isinstance(d2, Poly): return d2 == 0
            d = d2
            if ex.peq(st, d, 0): return True
        top = [ATOMS[a] for m in d.t for a in m if ATOMS[a].kind == 'ite']
        nes = top or ex.nested_ites(d)
        if nes:
            c = nes[0].data[0]
            for q in (c, c_not(c)):
                x = st.fork(); x.add(q)
                if False in x.pc or ex.prover.sat(x.pc) == 'unsat': continue
                if not s.eqcases(x, ex.simp(x, d), 0, depth + 1): return False
            return True
        s.bad_st = st
        return False
    def true(s, label, c):
        if c is True: s.backend['ring'] = s.backend.get('ring', 0) + 1
        elif s.ex.prove(s.st, c): s.backend['smt'] = s.backend.get('smt', 0) + 1
        else: 
            x = s.st.fork(); x.add(c_not(c))
            s.fail(x, label, 'not provable: %s' % cshow(c)[:400])
        s.obl += 1
        if len(s.samples) < 3: s.samples.append('%s: %s' % (label, cshow(c)[:160]))

    # ---- frame
    allowed = ()
    def modifies(s, *arrs, globals_ok=()):
        s.allowed = tuple(a.obj if isinstance(a, SymArr) else a for a in arrs)
        s.gok = globals_ok
    gok = ()
    def frame_all(s, o, fname):
        for ob, mo in o.mem.items():
            if ob.kind == 'param' and ob not in s.allowed:
                arr = [a for a in s.arrs if a.obj is ob]
                if not arr: continue
                if not s.ex.coalesce([l for l in mo.layers if l is not X.BARRIER]):
                    s.obl += 1; s.backend['frame'] = s.backend.get('frame', 0) + 1
                    continue
                a = arr[0]
                if ob.init != 'sym': continue
                s.st = o
                s.forall('fr', 0, a.n, lambda i: s.eq('frame: %s unchanged' % a.name, a.at(i), a.old(i)))
            elif ob.kind == 'global' and not ob.const and s.ex.coalesce([l for l in mo.layers if l is not X.BARRIER]):
                if s.gok == '*' or any(g in ob.name for g in s.gok): continue
                if ob.name.startswith('@_ZGV') or ob.name.startswith('@h_'): continue
                s.fail(o, 'frame', 'global %s is modified' % ob.name)
    def note(s, x):
        if x not in s.assumptions: s.assumptions.append(x)

# =====================================================================================================
GUARD = 256
class NatArr:
    def __init__(s, env, name, et, n, vals):
        s.env = env; s.name = name; s.et = et; s.n = n; s.es = knb(et)
        nb = n * s.es
        s.buf = (ctypes.c_uint8 * (nb + 2 * GUARD + 64))()
        base = ctypes.addressof(s.buf)
        s.addr = (base + GUARD + 31) // 32 * 32
        ctypes.memset(base, 0xA5, len(s.buf))
        s.lead = s.addr - base
        s.view = (CT[et] * n).from_address(s.addr) if n else None
        if vals is not None and n:
            for i, v in enumerate(vals): s.view[i] = v
        s.orig = bytes(s.buf)
        s.nb = nb
    def _get(s, raw, i):
        i = int(i)
        if i < 0 or i >= s.n: raise Failed('contract', 'index %d of %s out of range' % (i, s.name))
        if s.et in ('float', 'double'):
            x = struct.unpack_from('<f' if s.et == 'float' else '<d', raw, s.lead + i * s.es)[0]
            return x
        return int.from_bytes(raw[s.lead + i * s.es: s.lead + (i + 1) * s.es], 'little', signed=s.et != 'i1')
    def old(s, i):
        x = s._get(s.orig, i)
        return Fraction(x) if isinstance(x, float) and x == x and abs(x) != float('inf') else x
    def at(s, i):
        i = int(i)
        if i < 0 or i >= s.n: raise Failed('contract', 'index %d of %s out of range' % (i, s.name))
        x = s.view[i]
        if isinstance(x, float):
            if x != x or abs(x) == float('inf'): return x
            return Fraction(x)
        return x
    def __add__(s, k): return ctypes.c_void_p(s.addr + int(k) * s.es)
    def ptr(s, i=0): return ctypes.c_void_p(s.addr + int(i) * s.es)
    def guards_ok(s):
        b = bytes(s.buf)
        return b[:s.lead] == s.orig[:s.lead] and b[s.lead + s.nb:] == s.orig[s.lead + s.nb:]
    def changed(s):
        b = bytes(s.buf)
        if b == s.orig: return None
        for i in range(s.n):
            if b[s.lead + i * s.es: s.lead + (i + 1) * s.es] != s.orig[s.lead + i * s.es: s.lead + (i + 1) * s.es]: return i
        return None

class NatEnv:
    sym = False
    def __init__(s, lib, sigs, rnd, model=None, size=6, given=None):
        s.lib = lib; s.sigs = sigs; s.rnd = rnd; s.model = model or {}; s.size = size
        s.arrs = []; s.log = {}; s.allowed = None; s.obl = 0; s.assumptions = []
        s.ints = {}; s.pre = True
        s.given = given
    def int(s, name, lo=None, hi=None, pick=None):
        if s.given is not None and name in s.given: v = s.given[name]
        elif name in s.model and s.model[name] is not None: v = s.model[name]
        elif pick is not None:
            if type(lo) is int and type(hi) is int and lo > hi: raise Skip()
            v = pick(s.rnd)
        else:
            l = lo if lo is not None else -s.size
            h = l + s.size
            if hi is not None: h = min(h, hi)
            if int(l) > int(h): raise Skip()
            v = s.rnd.randint(int(l), int(h))
        s.log[name] = v; s.ints[name] = v
        return v
    def num(s): return s.rnd.randint(-4, 4)
    def real(s, name, nonzero=False, positive=False, pick=None):
        if s.given is not None and name in s.given: v = s.given[name]
        elif pick is not None: v = pick(s.rnd)
        else:
            v = s.num()
            while (nonzero and v == 0) or (positive and v <= 0): v = s.num() if not positive else s.rnd.randint(1, 4)
        s.log[name] = v
        return Fraction(v)
    def array(s, name, et, n, init='sym', lo=None, hi=None, injective=False, pick=None, fn=None, tag=None):
        n = int(n)
        s.total = getattr(s, 'total', 0) + n
        if n < 0 or s.total > (1 << 28 if s.given is not None else 300000): raise Skip()
        vals = None
        if isinstance(init, (list, tuple)): vals = [int(x) for x in init] if et not in ('float', 'double') else list(init)
        elif s.given is not None and name in s.given: vals = s.given[name]
        elif init == 'sym':
            if pick is not None: vals = pick(s.rnd)
            elif et in ('float', 'double'):
                vals = [s.num() for _ in range(n)]
            elif injective:
                lo_ = int(lo) if lo is not None else 0
                hi_ = int(hi) if hi is not None else lo_ + 2 * n
                if hi_ - lo_ + 1 < n: raise Skip()
                vals = s.rnd.sample(range(lo_, hi_ + 1), n)
            else:
                w = knb(et) * 8
                lo_ = int(lo) if lo is not None else (-(1 << (w - 1)) if et != 'i1' else 0)
                hi_ = int(hi) if hi is not None else ((1 << (w - 1)) - 1 if et != 'i1' else 1)
                if hi_ < lo_ and n: raise Skip()
                vals = [s.rnd.randint(lo_, hi_) for _ in range(n)]
        a = NatArr(s, name, et, n, vals)
        s.log[name] = (et, vals)
        s.arrs.append(a)
        return a
    def elem_axiom(s, arr, f):
        if arr.n:
            for i in range(arr.n):
                if not f(i, int(arr.view[i])): raise Skip()
    def assume(s, c, note=None):
        if not c: raise Skip()
    def null(s): return ctypes.c_void_p(0)
    le = staticmethod(lambda a, b: a <= b)
    lt = staticmethod(lambda a, b: a < b)
    eqc = staticmethod(lambda a, b: a == b)
    nec = staticmethod(lambda a, b: a != b)
    nonzero = staticmethod(lambda a: a != 0)
    def rel(s, f, a, b, real): return {'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b, 'eqc': a == b, 'nec': a != b}[f]
    and_ = staticmethod(lambda *a: all(a)); or_ = staticmethod(lambda *a: any(a)); not_ = staticmethod(lambda a: not a)
    div = staticmethod(lambda a, b: a // b); mod = staticmethod(lambda a, b: a % b)
    ite = staticmethod(lambda c, a, b: a if c else b)
    def inv(s, x):
        if x == 0: raise Skip()
        return 1 / Fraction(x)
    def sum(s, n, f):
        r = 0
        for i in range(int(n)): r += f(i)
        return r
    def extremum(s, kind, n, f): return (max if kind == 'max' else min)(f(i) for i in range(int(n)))
    def bit(s, op, a, b, w=32):
        a = int(a); b = int(b); return a & b if op == 'and' else a | b if op == 'or' else a ^ b
    def shl(s, a, k, hi): return int(a) << int(k)
    def shr(s, a, k, hi): return int(a) >> int(k)
    def sqrt(s, x): return Fraction(float(x) ** 0.5)
    def fn(s, name, *a):
        import math
        f = {'fabs': abs, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt}.get(name) or getattr(math, name)
        return Fraction(f(*[float(x) for x in a])) if name != 'fabs' else abs(a[0])
    def val(s, p): return p
    def run(s, fname, args, post=None, abort=None):
        f = getattr(s.lib, fname)
        ret, params = s.sigs[fname]
        f.restype = None if ret is None else CT.get(ret, ctypes.c_int64)
        av = []
        for a, t in zip(args, params):
            if isinstance(a, NatArr): av.append(ctypes.c_void_p(a.addr))
            elif t == 'float': av.append(ctypes.c_float(float(a)))
            elif t == 'double': av.append(ctypes.c_double(float(a)))
            elif isinstance(a, ctypes.c_void_p): av.append(a)
            elif t == 'ptr': av.append(ctypes.c_void_p(int(a)))
            else: av.append(CT[t](int(a)))
        s.record(fname)
        r = f(*av)
        if isinstance(r, float): r = Fraction(r) if r == r and abs(r) != float('inf') else r
        for a in s.arrs:
            if not a.guards_ok(): raise Failed('bounds', 'write outside %s' % a.name)
        if post is not None: post(r)
        if s.allowed is not None:
            for a in s.arrs:
                if a not in s.allowed:
                    i = a.changed()
                    if i is not None: raise Failed('frame', '%s[%d] is modified' % (a.name, i))
    def record(s, fname):
        s.log['$call'] = fname
        if s.recorder: s.recorder(s.log)
    recorder = None
    def split(s, f, st): f()
    def cases(s, c, f): f(bool(c))
    def set_range(s, lo, hi): s.lib.qvc_setrange(int(lo), int(hi))
    def range_count(s):
        c = s.lib.qvc_getcount()
        return None if c < 0 else c
    def forall(s, name, lo, hi, f, cond=None):
        lo = int(lo); hi = int(hi)
        n = hi - lo
        idx = range(lo, hi) if n <= 5000 else sorted(set(s.rnd.randrange(lo, hi) for _ in range(3000)) | {lo, hi - 1})
        for i in idx:
            if cond is not None and not cond(i): continue
            f(i)
    def eq(s, label, got, want):
        s.obl += 1
        if isinstance(got, ctypes.c_void_p): got = got.value
        if isinstance(want, ctypes.c_void_p): want = want.value
        if got == want: return
        if isinstance(want, bool): 
            if bool(got) == want: return
        if isinstance(got, (Fraction, float)) or isinstance(want, (Fraction, float)):
            g, w = float(got), float(want)
            if s.exact:
                if g == w: return
            elif abs(g - w) <= 2e-4 * (1 + abs(g) + abs(w)): return
        raise Failed(label, 'got %s, specified %s' % (float(got) if isinstance(got, Fraction) else got, float(want) if isinstance(want, Fraction) else want))
    def true(s, label, c):
        s.obl += 1
        if not c: raise Failed(label, 'condition is false')
    def modifies(s, *arrs, globals_ok=()):
        s.allowed = list(arrs)
    exact = False
    def double_acc(s, exact=False, trunc=False):
        if exact:
            s.exact = True
            s.num = lambda: s.rnd.choice([1, 2, 3, -1, 1 << 25, 1 << 26, 7])
    def note(s, x): pass
