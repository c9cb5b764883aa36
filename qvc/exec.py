"""Symbolic execution / VC generation over LLVM IR with automatic, then verified, loop invariants."""
import struct, sys, os, time
import math
from fractions import Fraction
from . import ir
from .ir import Reg, GRef, CInt, CFP, CAgg, CZero, CStr, CUndef, CNull, CExpr, TokenMeta, INT, FLOAT, DOUBLE, PTR
from . import poly as P
from .poly import *
from .smt import Prover

class Undecided(Exception): pass
class Fork(Exception):
    def __init__(s, cond): s.cond = cond
class NeedSummary(Exception):
    def __init__(s, key): s.key = key
class Refuted(Exception): pass

# ------------------------------------------------------------------ values
class Res:
    """w-bit integer known modulo 2^w"""
    __slots__ = ('p', 'w', 'raw')       # raw: the byte pieces it was assembled from, if any
    def __init__(s, p, w): s.p = p; s.w = w; s.raw = None
    def __repr__(s): return 'Res%d(%s)' % (s.w, show(s.p, 100))
    def __eq__(s, o): return isinstance(o, Res) and s.p == o.p and s.w == o.w
    def __hash__(s): return hash((s.p, s.w))
class BV:
    """bit-vector value (z3 expression)"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    def __repr__(s): return 'BV(%s)' % str(s.e)[:80]
def bvrec():
    from . import bvrec as B
    return B
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return '&%s+%s' % (s.obj.name if s.obj else 'null', show(s.off, 80))
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off
    def __hash__(s): return hash((id(s.obj), s.off))
class Raw:
    """uninterpreted bytes: pieces (nb, val, kind, sub, vnb)"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __repr__(s): return 'Raw%r' % (s.p,)
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
NULL = Ptr(None, 0)
class Agg(list): pass      # struct / array value
class Vec(list): pass

KSIZE = {'float': 4, 'double': 8, 'ptr': 8}
def kind_of(t):
    if t.k == 'i': return 'i%d' % t.w
    return t.k
def knb(k):
    if k[0] == 'i': return (int(k[1:]) + 7) // 8
    return KSIZE[k]
def isint(k): return k[0] == 'i'

class Obj:
    n = 0
    def __init__(s, name, size=None, kind='param', init='sym', tag=None, lo=None, hi=None, fn=None, const=False):
        Obj.n += 1
        s.id = Obj.n
        s.name = name; s.size = size; s.kind = kind; s.init = init; s.tag = tag; s.lo = lo; s.hi = hi
        s.vals = None      # optional list of initial element values
        s.fn = fn          # optional initial content: fn(off Poly, kind, nb) -> value or None
        s.const = const
        s.cells = None     # concrete initialiser cells {off: (nb, val, kind)}
        s.dead = False
    def __repr__(s): return s.name

class SymLayer:
    __slots__ = ('sym', 'cells', 'lo', 'hi')
    def __init__(s, sym): s.sym = sym; s.cells = {}; s.lo = None; s.hi = None
    def copy(s):
        r = SymLayer(s.sym); r.cells = dict(s.cells); r.lo = s.lo; r.hi = s.hi
        return r
    def overlaps(s, c, nb):
        cells = s.cells
        x = cells.get(c)
        if x is not None and x[0] >= nb: return [(c, x)]
        if len(cells) <= nb + 32:
            r = [(k, v) for k, v in cells.items() if k < c + nb and k + v[0] > c]
        else:
            r = []
            for k in range(c - 31, c + nb):
                v = cells.get(k)
                if v is not None and k + v[0] > c: r.append((k, v))
        r.sort()
        return r
    def put(s, c, nb, val, kind):
        ov = s.overlaps(c, nb)
        for k, v in ov:
            if k >= c and k + v[0] <= c + nb: del s.cells[k]
            else:
                del s.cells[k]
                if k < c: s.cells[k] = (c - k,) + slice_piece(v, 0, c - k)
                e = k + v[0]
                if e > c + nb: s.cells[c + nb] = (e - c - nb,) + slice_piece(v, c + nb - k, e - c - nb)
        s.cells[c] = (nb, val, kind, 0, nb)
        if s.lo is None or c < s.lo: s.lo = c
        if s.hi is None or c + nb > s.hi: s.hi = c + nb

def slice_piece(v, at, nb):
    # v = (nb, val, kind, sub, vnb)
    return (v[1], v[2], v[3] + at, v[4])

class RangeLayer:
    """bytes [start, start+len): copy of src object contents (snapshot) or a fill byte"""
    __slots__ = ('start', 'len', 'src', 'sstart', 'fill')
    def __init__(s, start, len, src=None, sstart=None, fill=None):
        s.start = start; s.len = len; s.src = src; s.sstart = sstart; s.fill = fill

class ForAllLayer:
    """for j in [0,K): for alt with guard: layers (in order), expressed in atom j"""
    __slots__ = ('j', 'K', 'alts')
    def __init__(s, j, K, alts): s.j = j; s.K = K; s.alts = alts

class FreeLayer:
    """the whole object holds arbitrary values: reads give $free(tag, offset)"""
    __slots__ = ('tag',)
    def __init__(s, tag): s.tag = tag

class AccLayer:
    """after the loops  vars = [(atom, count)..]  each cell at byte offset x holds  (value below) + Sum ite(guard & addr == x, delta, 0)
    over all iterations;  adds: list of (vars, guard, addr, nb, kind, delta)"""
    __slots__ = ('adds',)
    def __init__(s, adds): s.adds = adds

class HavocLayer:
    """bytes whose content is unknown at [c, c+nb)"""

class MemO:
    __slots__ = ('obj', 'layers', 'own')
    def __init__(s, obj, layers, own): s.obj = obj; s.layers = layers; s.own = own

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'prev', 'dest', 'normal', 'objs', 'path', 'code')
    def copy(s):
        f = Frame()
        f.fn = s.fn; f.regs = dict(s.regs); f.blk = s.blk; f.idx = s.idx; f.prev = s.prev
        f.dest = s.dest; f.normal = s.normal; f.objs = list(s.objs); f.path = s.path; f.code = s.code
        return f

class State:
    n = 0
    def __init__(s):
        State.n += 1
        s.tok = State.n
        s.frames = []; s.mem = {}; s.pc = (); s.acc = {}; s.ret = None; s.status = None
        s.ghost = {}; s.decided = {}; s.visits = {}
    def fork(s):
        r = State()
        r.frames = [f.copy() for f in s.frames]
        r.mem = dict(s.mem); r.pc = s.pc; r.acc = dict(s.acc); r.ret = s.ret; r.status = s.status
        r.ghost = dict(s.ghost)
        # after a fork both share memory objects: force copy on write
        State.n += 1
        s.tok = State.n
        return r
    def add(s, c):
        if c is True: return
        if c is False: s.pc = s.pc + (False,); return
        if c[0] == 'and':
            for x in c[1]: s.add(x)
            return
        if c not in s.pc: s.pc = s.pc + (c,)

def split(off):
    """poly offset -> (symbolic part, constant)"""
    if not isinstance(off, Poly): return 0, off
    c = off.t.get((), 0)
    if c == 0: return off, 0
    return psub(off, c), c

class LoopInfo: pass

from .models import MODELS, PREFIX_MODELS, demangle_prefix

class Exec:
    need_double = False
    def __init__(s, mods, prover=None):
        s.mods = mods
        s.prover = prover or Prover()
        s.funcs = {}
        s.gdefs = {}
        for m in mods:
            for n, f in m.funcs.items():
                if f.body is not None or f.order:
                    if n not in s.funcs: s.funcs[n] = f
        for m in mods:
            for n, g in m.globs.items():
                if g.init is not None and not g.local:
                    s.gdefs.setdefault(n, (g, m))
        s.gobjs = {}
        s.fobjs = {}
        s.summ = set()         # loops to summarise (fn, header)
        s.nounroll_fail = set()
        s.tolerant = 0
        s.noall = set()
        s.unroll_decided = False
        s.bvrec = None
        s.oblig = []           # (name, ok, backend)
        s.overrides = {}
        def sum_ax(at):
            if at.kind != 'sum' or at.sort != 'int': return ()
            lo, hi = P.rng(at.data[1]); n = at.data[0]
            r = []
            if lo is not None: r.append(c_or(c_lt(n), c_le(psub(pscale(n, lo), avar(at)))))
            if hi is not None: r.append(c_or(c_lt(n), c_le(psub(avar(at), pscale(n, hi)))))
            return r
        s.prover.axioms.append(sum_ax)
        # a count of indices with a property (a sum of 0/1): it steps by the body, and every value below the total is taken at exactly one counted index
        def count_ax(x, y):
            if x.kind == 'sum' and y.kind == 'sum' and x.sort == y.sort == 'int':
                if x.data[1] != y.data[1] or not P.counting(x.data[1]): return ()
                m, n = x.data[0], y.data[0]
                sx, sy = avar(x), avar(y)
                return [c_or(c_lt(m), c_lt(psub(n, m)), c_and(c_le(psub(sx, sy)), c_le(psub(psub(sy, sx), psub(n, m))))),
                        c_or(c_lt(m), c_le(psub(n, m)), c_le(psub(padd(sx, P.count_at(x, m)), sy)))]
            if x.kind == 'app' and x.data[0][:3] == 'pos' and y.kind == 'sum':
                t = P.COUNTED.get(x.data[0])
                if t is None or t[0] != y.data[1]: return ()
                q = x.data[1][0]; px = avar(x); n = y.data[0]
                return [c_or(c_lt(q), c_le(psub(avar(y), q)), c_lt(n), c_and(c_le(pneg(px)), c_lt(psub(px, n)), c_eq(psub(P.count_at(y, px), 1)), c_eq(psub(P.count_to(y, px), q))))]
            return ()
        s.prover.axioms2.append(count_ax)
        s.float_acc = []
        s.bounds_fail = []
        s.hints = {}           # loop hints
        s.maxsteps = 40_000_000
        s.steps = 0
        s.maxiter = 200000
        s.maxpaths = 4000
        s.used_funcs = {}
        s.assumed = set()
        s.trace = bool(os.environ.get('QVC_TRACE'))
        s.loop_invs = 0
        s.depth = 0
        s.region_stack = []
        s.noretcheck = False
        s.check_bounds = True
        s.bv_objs = set()
        s.int_track = False
        s.max_unroll_sym = 0
        s.counters = dict(forks=0, loops=0, bounds=0)
        s.deadline = None
        s.tol_smt = 0
        s.allow_free_param = False
        s.eager_fork = True

    # ------------------------------------------------------------ memory objects
    def new_state(s):
        return State()

    def alloc(s, st, name, size, kind='heap', init='uninit', **kw):
        o = Obj(name, size, kind, init, **kw)
        st.mem[o] = MemO(o, [], st.tok)
        return o

    def wmem(s, st, o):
        m = st.mem.get(o)
        if m is None:
            m = MemO(o, [], st.tok); st.mem[o] = m
            return m
        if m.own != st.tok:
            ls = list(m.layers)
            if ls and type(ls[-1]) is SymLayer: ls[-1] = ls[-1].copy()
            m = MemO(o, ls, st.tok); st.mem[o] = m
        return m

    def gobj(s, name, mod):
        g = mod.globs.get(name)
        if g is not None and g.local:
            key = (name, id(mod))
        else: key = name
        o = s.gobjs.get(key)
        if o is None:
            d = None; gm = mod
            if g is not None and g.init is not None: d = g
            elif name in s.gdefs: d, gm = s.gdefs[name]
            if d is None:
                o = Obj('@' + name, None, 'global', 'sym')
                s.gobjs[key] = o
                return o
            o = Obj('@' + name, d.ty.size, 'global', 'const', const=d.const)
            s.gobjs[key] = o
            o.cells = ('lazy', d, gm)
        return o

    def gcells(s, o):
        if type(o.cells) is tuple:
            _, d, gm = o.cells
            L = SymLayer(0)
            o.cells = L
            s.fill_const(L, 0, d.ty, d.init, gm)
        return o.cells

    def fill_const(s, L, off, ty, c, mod):
        if isinstance(c, CZero) or isinstance(c, CUndef):
            if ty.size: L.cells[off] = (ty.size, 0 if isinstance(c, CZero) else UNDEF, 'zero', 0, ty.size) ; L.lo = min(L.lo or 0, off); L.hi = max(L.hi or 0, off + ty.size)
            return
        if isinstance(c, CStr):
            for i, b in enumerate(c.b): L.put(off + i, 1, b - 256 if b > 127 else b, 'i8')
            return
        if isinstance(c, CAgg):
            if ty.k == 'struct':
                for (t, v), o in zip(c.els, ty.offs): s.fill_const(L, off + o, t, v, mod)
            else:
                for i, (t, v) in enumerate(c.els): s.fill_const(L, off + i * t.size, t, v, mod)
            return
        v = s.const(c, ty, mod)
        L.put(off, ty.size, v, kind_of(ty))

    def fobj(s, name):
        o = s.fobjs.get(name)
        if o is None:
            o = s.fobjs[name] = Obj(name, 0, 'func', 'uninit')
        return o

    # ------------------------------------------------------------ constants
    def const(s, c, ty, mod):
        if isinstance(c, CInt):
            if ty.k == 'i':
                w = ty.w
                v = c.v & ((1 << w) - 1)
                if w == 1: return bool(v)
                if v >> (w - 1): v -= 1 << w
                return v
            return c.v
        if isinstance(c, CFP): return c.v
        if isinstance(c, CNull): return NULL
        if isinstance(c, CUndef):
            if ty is not None and ty.k in ('struct', 'arr'):
                return Agg(s.const(CUndef(t), t, mod) for t in (ty.fields if ty.k == 'struct' else [ty.el] * ty.n))
            if ty is not None and ty.k == 'vec': return Vec([UNDEF] * ty.n)
            return UNDEF
        if isinstance(c, CZero):
            if ty.k == 'vec': return Vec([s.const(CZero(ty.el), ty.el, mod)] * ty.n)
            if ty.k == 'struct': return Agg(s.const(CZero(t), t, mod) for t in ty.fields)
            if ty.k == 'arr': return Agg(s.const(CZero(ty.el), ty.el, mod) for _ in range(ty.n))
            if ty.k == 'ptr': return NULL
            if ty.k == 'i' and ty.w == 1: return False
            return 0
        if isinstance(c, CAgg):
            els = [s.const(v, t, mod) for t, v in c.els]
            return Vec(els) if ty.k == 'vec' else Agg(els)
        if isinstance(c, GRef):
            n = c.n
            if n in mod.aliases:
                return s.const(mod.aliases[n], PTR, mod)
            if n in mod.funcs and n not in mod.globs: return Ptr(s.fobj(n), 0)
            if n in mod.globs: return Ptr(s.gobj(n, mod), 0)
            for m in s.mods:
                if n in m.aliases: return s.const(m.aliases[n], PTR, m)
            return Ptr(s.fobj(n), 0)
        if isinstance(c, CExpr):
            if c.op == 'getelementptr':
                t, args = c.args
                base = s.const(args[0][1], args[0][0], mod)
                off = 0
                cur = t
                for i, (at, av) in enumerate(args[1:]):
                    ix = s.const(av, at, mod)
                    if i == 0: off += ix * cur.size
                    elif cur.k == 'struct': off += cur.offs[ix]; cur = cur.fields[ix]
                    else: cur = cur.el; off += ix * cur.size
                return Ptr(base.obj, padd(base.off, off))
            if c.op in ('bitcast', 'addrspacecast'): return s.const(c.args[1], c.args[0], mod)
            if c.op in ('ptrtoint', 'inttoptr'):
                return s.const(c.args[1], c.args[0], mod)
            if c.op in ('sub', 'add'):
                a, b = [s.const(v, t, mod) for t, v in c.args[1]]
                if isinstance(a, int) and isinstance(b, int): return a + b if c.op == 'add' else a - b
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and c.op == 'sub': return psub(a.off, b.off)
                if isinstance(a, Ptr) and isinstance(b, int): return Ptr(a.obj, a.off + (b if c.op == 'add' else -b))
        raise Undecided('constant %r' % (c,))

    # ------------------------------------------------------------ proving helpers
    def prove(s, st, c, timeout=None):
        if c is True: return True
        if c is not False and c in st.pc: return True
        return s.prover.prove(st.pc, c, timeout)

    def decide(s, st, c):
        """True / False / None under the path condition"""
        if c is True or c is False: return c
        if c in st.pc: return True
        n = c_not(c)
        if n in st.pc: return False
        if s.tolerant and not s.tol_smt: return None
        if s.prover.sat(list(st.pc) + [n]) == 'unsat': return True
        if s.prover.sat(list(st.pc) + [c]) == 'unsat': return False
        return None

    def signed(s, st, v, w):
        if type(v) is int or isinstance(v, Poly): return v
        if isinstance(v, Res):
            p = v.p
            h = 1 << (w - 1)
            if not isinstance(p, Poly):
                p &= (1 << w) - 1
                return p - (1 << w) if p >= h else p
            lo, hi = rng(p)
            if lo is not None and hi is not None and lo >= -h and hi < h: return p
            if s.tolerant: return p
            if s.prove(st, c_and(c_le(psub(p, h - 1)), c_le(psub(-h, p)))): return p
            return psub(umod(padd(p, h), 1 << w), h)
        if v is True or v is False or type(v) is tuple:
            return ite(v, -1, 0)
        if isinstance(v, Ptr): raise Undecided('pointer used as integer')
        if v is UNDEF: raise Undecided('undef used')
        if isinstance(v, BV): return v
        if isinstance(v, Raw):
            x = s.raw_to_int(v, w)
            if x is not None: return s.signed(st, x, w)
        raise Undecided('signed(%r)' % (v,))

    def unsigned(s, st, v, w):
        if type(v) is int: return v & ((1 << w) - 1)
        if v is True: return 1
        if v is False: return 0
        if type(v) is tuple: return ite(v, 1, 0)
        p = v.p if isinstance(v, Res) else v
        if isinstance(p, Poly) or type(p) is int:
            if type(p) is int: return p & ((1 << w) - 1)
            lo, hi = rng(p)
            if lo is not None and lo >= 0 and (not isinstance(v, Res) or (hi is not None and hi < (1 << w))): return p
            if s.tolerant: return p
            if s.prove(st, c_and(c_le(pneg(p)), c_le(psub(p, (1 << w) - 1)))): return p
            if hi is not None and hi < 0 and lo is not None and lo >= -(1 << w): return padd(p, 1 << w)
            return umod(p, 1 << w)
        if isinstance(v, Raw):
            x = s.raw_to_int(v, w)
            if x is not None: return s.unsigned(st, x, w)
        raise Undecided('unsigned(%r)' % (v,))

    def raw_to_int(s, v, w):
        """assemble an integer from integer byte pieces (little endian)"""
        r = 0; sh = 0
        for nb, val, kind, sub, vnb in v.p:
            if kind == 'zero': x = 0
            elif kind[0] == 'i' and (type(val) is int or isinstance(val, (Poly, Res))):
                p = val.p if isinstance(val, Res) else val
                x = umod(p, 1 << (8 * vnb))
                x = umod(idiv(x, 1 << (8 * sub)), 1 << (8 * nb))
            elif kind in ('float', 'double') and not isinstance(val, Poly):
                b = struct.pack('<f' if kind == 'float' else '<d', float(val))[sub:sub + nb]
                x = int.from_bytes(b, 'little')
            else: return None
            r = padd(r, pscale(x, 1 << sh)); sh += 8 * nb
        return Res(r, w) if isinstance(r, Poly) else s.wrapc(r, w)

    def wrapc(s, v, w):
        v &= (1 << w) - 1
        return v - (1 << w) if v >> (w - 1) else v

    def mk(s, p, w, exact=False):
        if not isinstance(p, Poly): return s.wrapc(p, w)
        if exact: return p
        lo, hi = rng(p)
        h = 1 << (w - 1)
        if lo is not None and hi is not None and lo >= -h and hi < h: return p
        return Res(p, w)

    def cond(s, st, v):
        if v is True or v is False or type(v) is tuple: return v
        if type(v) is int: return bool(v & 1)
        if v is UNDEF: raise Undecided('branch on undef')
        raise Undecided('cond %r' % (v,))

    # ------------------------------------------------------------ memory read
    def access(s, st, obj, sym, c, nb, write):
        if obj is None: raise Undecided('null dereference')
        if obj.kind == 'func': raise Undecided('access to function')
        if obj.dead: raise Undecided('use after free of %s' % obj.name)
        k = (obj, sym, write)
        a = st.acc.get(k)
        if a is None: st.acc[k] = (c, c + nb)
        elif c < a[0] or c + nb > a[1]: st.acc[k] = (min(a[0], c), max(a[1], c + nb))

    def load(s, st, ptr, ty):
        if not isinstance(ptr, Ptr):
            raise Undecided('load through %r' % (ptr,))
        k = ty.k
        if k in ('vec', 'arr'):
            es = ty.el.size
            r = [s.load(st, Ptr(ptr.obj, padd(ptr.off, i * es)), ty.el) for i in range(ty.n)]
            return Vec(r) if k == 'vec' else Agg(r)
        if k == 'struct':
            return Agg(s.load(st, Ptr(ptr.obj, padd(ptr.off, o)), t) for t, o in zip(ty.fields, ty.offs))
        sym, c = split(ptr.off)
        nb = ty.size if k != 'i' else (ty.w + 7) // 8
        s.access(st, ptr.obj, sym, c, nb, False)
        kind = kind_of(ty)
        return s.read(st, ptr.obj, sym, c, nb, kind)

    def read(s, st, obj, sym, c, nb, kind):
        mo = st.mem.get(obj)
        layers = mo.layers if mo is not None else []
        ps = s.rd(st, obj, layers, len(layers) - 1, sym, c, nb, kind)
        return s.assemble(st, ps, kind, nb)

    def assemble(s, st, ps, kind, nb):
        if len(ps) == 1:
            n, val, k, sub, vnb = ps[0]
            if sub == 0 and n == vnb == nb:
                if k == kind: return val
                if val is UNDEF: return UNDEF
        if any(p[1] is UNDEF for p in ps):
            if all(p[1] is UNDEF for p in ps): return UNDEF
            return Raw(ps)
        return s.from_raw(st, ps, kind, nb)

    def from_raw(s, st, ps, kind, nb):
        if len(ps) == 1:
            n, val, k, sub, vnb = ps[0]
            if k == kind and sub == 0 and n == vnb: return val
            if k == 'zero':
                if kind == 'ptr': return NULL
                if kind == 'i1': return False
                return 0
        if all(p[2] == 'zero' or (p[2] != 'ptr' and p[1] == 0 and not isinstance(p[1], (Poly, Res, Ptr))) for p in ps):
            return NULL if kind == 'ptr' else 0
        if isint(kind):
            w = int(kind[1:])
            if len(ps) == 1:
                n, val, k, sub, vnb = ps[0]
                if k == 'ptr' and n == 8 and sub == 0: return val
                if w == 8 and k == 'i1' and n == 1:
                    return ite(val, 1, 0) if not isinstance(val, (int, bool)) else int(val) & 1
                if w == 1 and k == 'i8' and n == 1:
                    if type(val) is int: return bool(val & 1)
                    return c_ne(val if isinstance(val, Poly) else val.p)
            r = s.raw_to_int(Raw(ps), w)
            if r is not None:
                if isinstance(r, Res) and len(ps) > 1: r.raw = list(ps)
                return r
            return Raw(ps)
        if kind in ('float', 'double'):
            r = s.raw_to_int(Raw(ps), 8 * nb)
            if type(r) is int:
                b = (r & ((1 << 8 * nb) - 1)).to_bytes(nb, 'little')
                f = struct.unpack('<f' if nb == 4 else '<d', b)[0]
                return norm_c(Fraction(f))
            if all(p[1] is not UNDEF and isint(p[2]) for p in ps): return Raw(ps)       # moved as bytes; arithmetic on it is undecided
            raise Undecided('reinterpret %r as %s' % (ps, kind))
        if kind == 'ptr':
            if len(ps) == 1 and ps[0][2] == 'i64' and isinstance(ps[0][1], Ptr): return ps[0][1]
            raise Undecided('reinterpret %r as ptr' % (ps,))
        raise Undecided('reinterpret')

    def rd(s, st, obj, layers, li, sym, c, nb, kind):
        i = li
        while i >= 0:
            L = layers[i]
            t = type(L)
            if t is SymLayer:
                d = 0
                if L.sym == sym or (not isinstance(L.sym, Poly) and not isinstance(sym, Poly)):
                    ov = L.overlaps(c, nb)
                else:
                    r = s.rel(st, sym, c, nb, L)
                    if r is None: i -= 1; continue
                    d = r
                    ov = L.overlaps(c + d, nb)
                if not ov: i -= 1; continue
                c2 = c + d
                k0, v0 = ov[0]
                if len(ov) == 1 and k0 <= c2 and k0 + v0[0] >= c2 + nb:
                    if k0 == c2 and v0[0] == nb: return [v0]
                    return [(nb,) + slice_piece(v0, c2 - k0, nb)]
                out = []; pos = c2
                for k, v in ov:
                    if k > pos:
                        out.extend(s.rd(st, obj, layers, i - 1, sym, pos - d, k - pos, kind)); pos = k
                    e = min(k + v[0], c2 + nb)
                    out.append((e - pos,) + slice_piece(v, pos - k, e - pos))
                    pos = e
                if pos < c2 + nb:
                    out.extend(s.rd(st, obj, layers, i - 1, sym, pos - d, c2 + nb - pos, kind))
                return out
            elif t is RangeLayer:
                off = padd(sym, c)
                a = c_le(psub(padd(off, nb), L.start))
                b = c_le(psub(padd(L.start, L.len), off))
                dis = c_or(a, b)
                inside = c_and(c_le(psub(L.start, off)), c_le(psub(padd(off, nb), padd(L.start, L.len))))
                if dis is True or (inside is not True and s.prove(st, dis)): i -= 1; continue
                if inside is True or s.tolerant or s.prove(st, inside):        # (a guess is checked when the iteration is verified)
                    if L.fill is not None:
                        if L.fill == 0: return [(nb, 0, 'zero', 0, nb)]
                        return [(1, L.fill, 'i8', 0, 1)] * nb
                    ssym, sc = split(padd(psub(off, L.start), L.sstart))
                    return s.rd(st, L.src.obj, L.src.layers, len(L.src.layers) - 1, ssym, sc, nb, kind)
                raise Fork(dis)
            elif t is ForAllLayer:
                r = s.rd_forall(st, obj, L, sym, c, nb, kind, layers, i)
                if r is not None: return r
                i -= 1
            elif t is FreeLayer:
                return [(nb, P.app('$free', (L.tag, padd(sym, c)), 'real' if kind in ('float', 'double') else 'int'), kind, 0, nb)]
            elif t is AccLayer:
                return s.rd_acc(st, obj, layers, i, L, sym, c, nb, kind)
            else: raise Undecided('layer')
        return s.rd_init(st, obj, sym, c, nb, kind)

    def rd_acc(s, st, obj, layers, i, L, sym, c, nb, kind):
        off = padd(sym, c)
        if kind not in ('float', 'double'):
            # a raw copy of a floating point cell
            ks = {a[4] for a in L.adds if a[3] == nb}
            if len(ks) == 1: kind = ks.pop()
        v = s.assemble(st, s.rd(st, obj, layers, i - 1, sym, c, nb, kind), kind, nb)
        tot = 0
        for vs, g, addr, anb, akind, delta in L.adds:
            d = psub(addr, off)
            if akind != kind or anb != nb or any(q % nb for q in terms(d).values()): 
                dis = c_or(c_le(psub(padd(addr, anb), off)), c_le(psub(padd(off, nb), addr)))
                pc = list(st.pc)
                for a, K in vs: pc += [c_le(pneg(avar(a))), c_lt(psub(avar(a), K))]
                if s.prover.prove(pc, dis): continue
                raise Undecided('partial access to an accumulated cell: %s at %s %s, accumulated %s %s' % (obj.name, show(off), kind, show(addr), akind))
            if not isinstance(d, Poly) and d != 0: continue
            vs, cond, delta = s.row_of(st, vs, c_and(g, c_eq(d)), g, addr, delta, off)
            tot = padd(tot, s.sum_adds(vs, cond, delta))
        if v is UNDEF or isinstance(v, (Ptr, Raw)):
            if tot == 0: return [(nb, v, kind, 0, nb)]
            if s.tolerant: return [(nb, fresh('guess', 'real'), kind, 0, nb)]
            raise Undecided('accumulation into an undefined cell')
        return [(nb, padd(v, tot), kind, 0, nb)]

    def sum_adds(s, vs, cond, delta):
        t = pmul(ite(cond, 1, 0), delta)
        for a, K in reversed(vs):
            b = P.bvar(P._maxb(t))
            t = psum_body(K, subst(t, {a.id: avar(b)}), b)
        return t
    def row_of(s, st, vs, cond, g, addr, delta, off):
        """S*v + r == S*q + r' with r, r' in the same row: v is q"""
        for v, K in vs:
            z = s.stride_q(addr, v, off)
            if z is None: continue
            q, S, r = z
            if any(v.id in depsof(K2) for _, K2 in vs): continue
            pc = list(st.pc)
            for a, K2 in vs: pc += [c_le(pneg(avar(a))), c_lt(psub(avar(a), K2))]
            if not s.prover.prove(pc, c_and(c_lt(psub(r, S)), c_lt(psub(pneg(r), S)))): continue
            m = {v.id: q}
            inr = c_and(c_le(pneg(q)), c_lt(psub(q, K)))
            dec = s.decide(st, inr)
            if dec is None and not s.tolerant: raise Fork(inr)
            inr = inr if dec is None else dec
            return [x for x in vs if x[0] is not v], c_and(inr, csubst(g, m), c_eq(r)), subst(delta, m)
        sp = s.split_row(st, psub(addr, off), vs)
        if sp:
            h, r = sp
            same = c_eq(h); dec = s.decide(st, same)
            if dec is None and not s.tolerant: raise Fork(same)
            if dec and same not in st.pc: st.add(same)
            return vs, c_and(g, same if dec is None else dec, c_eq(r)), delta
        return vs, cond, delta
    def split_row(s, st, d, vs=()):
        """d = S*h + r with |r| < S: d is zero where h and r are; (h, r)"""
        ids = {v.id for v, _ in vs}
        for x in sorted({x for m in terms(d) for x in m if ATOMS[x].kind == 'v' and x not in ids}):
            h = {}; r = {}
            for m, c in terms(d).items():
                if x in m: k = list(m); k.remove(x); h[tuple(k)] = c
                else: r[m] = c
            if len(h) < 2: continue
            gg = math.gcd(*h.values()); h = mkpoly({m: c // gg for m, c in h.items()}); r = mkpoly(r); X = pscale(avar(ATOMS[x]), gg)
            if ids & depsof(h): continue
            pc = list(st.pc)
            for a, K2 in vs: pc += [c_le(pneg(avar(a))), c_lt(psub(avar(a), K2))]
            if s.prover.prove(pc, c_and(c_lt(psub(r, X)), c_lt(psub(pneg(r), X)))): return h, r
        return None

    def acc_adds(s, o, layers, tag, ka, guard):
        """layers written by one latch path over a FreeLayer: list of (vars, guard, addr, nb, kind, delta) if they only add; else None"""
        out = []; prev = []
        for ly in layers:
            if type(ly) is AccLayer:
                for a in ly.adds:
                    if tag.id in depsof(a[2]) | depsof(a[5]) | cdeps(a[1]): return None
                    prev.append(tuple(a[:6]))
                    out.append((a[0], c_and(guard, a[1]) if a[1] is not True or guard is not True else True) + tuple(a[2:]))
                continue
            if type(ly) is not SymLayer: return None
            if tag.id in depsof(ly.sym): return None
            mine = []
            for c, v in ly.cells.items():
                if v[2] not in ('float', 'double') or v[3] != 0 or v[0] != v[4] or not isinstance(v[1], (Poly, int, Fraction)): return None
                addr = padd(ly.sym, c)
                delta = psub(v[1], P.app('$free', (avar(tag), addr), 'real'))
                if tag.id in depsof(delta): return None
                # the cell may hold additions made before on the same way through the body
                for vs, g, addr2, anb, akind, dl in prev:
                    if anb != v[0] or akind != v[2]: return None
                    d = psub(addr2, addr)
                    vs, cond, dl = s.row_of(o, vs, c_and(g, c_eq(d)), g, addr2, dl, addr)
                    delta = psub(delta, s.sum_adds(vs, cond, dl))
                mine.append(([], True, addr, v[0], v[2], delta))
            prev += mine
            out += [(vs, guard, a, n, k, dl) for vs, g, a, n, k, dl in mine]
        for x in out:
            for y in out:
                d = psub(x[2], y[2])
                if x[3] != y[3] or x[4] != y[4]: return None
                if any(q % x[3] for q in terms(d).values()): return None
        return out

    def rel(s, st, sym, c, nb, L):
        """None: the bytes [sym+c, +nb) are disjoint from every cell of L;  else constant d with sym == L.sym + d"""
        d = psub(sym, L.sym)
        # overlap possible iff  L.lo - (c+nb) < d < L.hi - c
        if not isinstance(d, Poly):
            return d if L.lo - (c + nb) < d < L.hi - c else None
        if s.tolerant and not s.tol_smt: return None
        key = (sym, c, nb, id(L), L.lo, L.hi)
        dis = c_or(c_le(psub(padd(d, c + nb), L.lo)), c_le(psub(L.hi, padd(d, c))))
        if s.prove(st, dis): return None
        # overlapping: find the constant difference
        n0 = s.prover.sat(list(st.pc) + [c_not(dis)])
        if n0 != 'sat': raise Undecided('alias of %s+%s' % (show(sym, 80), c))
        dv = s.prover.mval(d)
        if dv is None: raise Undecided('alias')
        eq = c_eq(psub(d, dv))
        if s.prove(st, eq): return dv
        # cells precise?
        if s.prove(st, c_not(eq)): raise Undecided('alias loop')
        sp = s.split_row(st, psub(d, dv)) if any(len(m) > 1 for m in terms(d)) and not s.tolerant else None
        if sp:
            same = c_eq(sp[0]); dec = s.decide(st, same)
            if dec is None: raise Fork(same)
            if dec:
                if same not in st.pc: st.add(same)
                raise Fork(c_eq(sp[1]))
        raise Fork(eq)

    def flat(s, L):
        """ForAllLayer -> list of (vars [(atom,K)], guards, SymLayer) from first to last write"""
        out = []
        for guard, layers in L.alts:
            for x in layers:
                if type(x) is SymLayer: out.append(([(L.j, L.K)], [guard] if guard is not True else [], x))
                elif type(x) is ForAllLayer:
                    for vs, gs, y in s.flat(x):
                        out.append(([(L.j, L.K)] + vs, ([guard] if guard is not True else []) + gs, y))
                else: raise Undecided('range layer in loop')
        return out

    def candidates(s, st, j, a, b):
        """values v for atom j such that a(j := v) == b might hold"""
        d = psub(a, b)
        out = []
        if not isinstance(d, Poly): return out
        # linear occurrence
        lin = 0; ok = True
        rest = {}
        for m, cc in d.t.items():
            if any(j.id in ATOMS[x].deps for x in m):
                if m == (j.id,): lin += cc
                else: ok = False
            else: rest[m] = cc
        if lin and ok:
            r = mkpoly(rest)
            q = s.pdivint(pneg(r), lin)
            if q is not None: out.append(q)
        elif len([m for m in d.t if any(j.id in ATOMS[x].deps for x in m)]) == 1:
            # one term c*M*j: the terms of the other side that M divides
            (m,) = [m for m in d.t if any(j.id in ATOMS[x].deps for x in m)]
            if list(m).count(j.id) == 1 and not any(x != j.id and j.id in ATOMS[x].deps for x in m):
                M = list(m); M.remove(j.id); cj = d.t[m]; q = {}
                for t, cc in pneg(mkpoly(rest)).t.items() if isinstance(mkpoly(rest), Poly) else ():
                    r = list(t)
                    for x in M:
                        if x in r: r.remove(x)
                        else: break
                    else:
                        if cc % cj == 0: q[tuple(r)] = cc // cj
                out.append(mkpoly(q))
        # unify atoms
        def unify_atom(x, y):
            if x.kind != y.kind or x.sort != y.sort: return
            if x.kind == 'cell' and x.data[0] == y.data[0] and x.data[2] == y.data[2]:
                out.extend(s.candidates(st, j, x.data[1], y.data[1]))
            elif x.kind == 'app' and x.data[0] == y.data[0]:
                for p, q in zip(x.data[1], y.data[1]):
                    if j.id in depsof(p): out.extend(s.candidates(st, j, p, q))
            elif x.kind == 'div':
                if j.id in depsof(x.data[0]): out.extend(s.candidates(st, j, x.data[0], y.data[0]))
        xs = set(); ys = set()
        for m in terms(a):
            for x in m:
                if j.id in ATOMS[x].deps and x != j.id: xs.add(x)
        for m in terms(b):
            for y in m: ys.add(y)
        for x in xs:
            for y in ys: unify_atom(ATOMS[x], ATOMS[y])
        r = []
        for q in out:
            if q not in r: r.append(q)
        return r

    def pdivint(s, p, n):
        if n < 0: p = pneg(p); n = -n
        if n == 1: return p
        t = terms(p)
        if all(c % n == 0 for c in t.values()):
            return mkpoly({m: c // n for m, c in t.items()})
        return None

    def rd_forall(s, st, obj, L, sym, c, nb, kind, layers, li):
        off = padd(sym, c)
        fl = s.flat(L)
        # quick exits: prove disjointness of each entry for arbitrary bound variables
        hits = []
        for idx, (vs, gs, y) in enumerate(fl):
            ysym = y.sym
            # constant-offset cells independent of the loop variables
            cand = None
            js = [v for v, _ in vs]
            d0 = psub(y.sym, sym)
            if not isinstance(d0, Poly):
                # loop invariant address: last iteration
                if y.overlaps(c - d0, nb): hits.append((idx, 'inv', d0)); continue
                continue
            if s.tolerant:
                # look for a syntactic match only
                pass
            # arbitrary instance disjoint?
            fr = {v.id: fresh('q', lo=0) for v, _ in vs}
            conds = []
            for v, K in vs: conds.append(c_lt(psub(fr[v.id], subst(K, fr))))
            conds += [csubst(g, fr) for g in gs]
            ys = subst(y.sym, fr)
            dd = psub(sym, ys)
            ovl = [c_not(c_le(psub(padd(dd, c + nb), y.lo))), c_not(c_le(psub(y.hi, padd(dd, c))))]
            if s.tolerant and not s.tol_smt: continue
            if any(x is False for x in ovl) : continue
            if gap_disjoint(dd, c, nb, y): continue
            conds += s.all_stride_facts(y, vs, fr, off)
            if s.prover.sat(list(st.pc) + conds + ovl) == 'unsat': continue
            hits.append((idx, 'sym', (fr, conds, ovl)))
        if s.tolerant and not s.tol_smt and obj.init == 'uninit':
            # guessing: take the matching cell of the latest writer (checked when the invariant is verified)
            for vs, gs, y in reversed(fl):
                if len(vs) != 1: continue
                j = vs[0][0]
                for cc, cell_ in y.cells.items():
                    for e in range(0, max(1, cell_[0] - nb + 1), nb):
                        for q in s.candidates(st, j, padd(y.sym, cc + e), off):
                            if cell_[0] >= nb + e and psub(subst(padd(y.sym, cc + e), {j.id: q}), off) == 0:
                                v0 = (cell_[0], s.vsubst(cell_[1], {j.id: q})) + cell_[2:]
                                return [(nb,) + slice_piece(v0, e, nb)]
        if s.tolerant and (not s.tol_smt or obj.init == 'uninit'):
            # guessing (checked when the invariant is verified): a nested loop which writes the address
            for vs, gs, y in reversed(fl):
                if len(vs) < 2: continue
                for cc, cell_ in y.cells.items():
                    if cell_[0] < nb: continue
                    for m, e in s.multi_sols(st, vs, y, cc, off)[0]:
                        if len(m) == len(vs) and psub(e, off) == 0:
                            for _ in range(len(vs)): m = {k: subst(x, {k2: x2 for k2, x2 in m.items() if k2 != k}) for k, x in m.items()}
                            v0 = (cell_[0], s.vsubst(cell_[1], m)) + cell_[2:]
                            return [(nb,) + slice_piece(v0, 0, nb)]
            if all(s.symbolic_stride(vs, y) for vs, gs, y in fl): return None
        if not hits: return None
        if s.tolerant and not s.tol_smt: return None
        # latest possible writer: try to find a definite witness among the hits
        for idx, how, info in reversed(hits):
            vs, gs, y = fl[idx]
            if how == 'inv':
                v, K = vs[0]
                if len(vs) > 1 or gs: raise Undecided('nested loop invariant write')
                dec = s.decide(st, c_lt(pneg(K)))
                if dec is None: raise Fork(c_lt(pneg(K)))
                if dec is False: continue
                ps = s.rd(st, obj, [y], 0, padd(sym, info), c, nb, kind) if False else None
                d0 = info
                ov = y.overlaps(c - d0, nb)
                m = {v.id: psub(K, 1)}
                k0, v0 = ov[0]
                if not (len(ov) == 1 and k0 <= c - d0 and k0 + v0[0] >= c - d0 + nb): raise Undecided('partial overlap in loop')
                if len(hits) > 1: raise Undecided('several writers in loop')
                v0 = (v0[0], s.vsubst(v0[1], m)) + v0[2:]
                return [(nb,) + slice_piece(v0, c - d0 - k0, nb)]
            fr, conds, ovl = info
            if len(vs) == 1:
                j, K = vs[0]
                # the cell inside y: try every cell that could be the one
                cs = set()
                for cc in y.cells:
                    for e in range(0, max(1, y.cells[cc][0] - nb + 1), nb):
                        for q in s.candidates(st, j, padd(y.sym, cc + e), off): cs.add((q, cc, e))
                if not cs:
                    r = s.rank_witness(st, y, j, K, gs, off, nb, hits, fl, idx)
                    if r is not None: return r
                    # residue split: a*j + cc == off  for some cell
                    sp = s.residue_split(st, y, j, off, nb)
                    if sp is not None: raise Fork(sp)
                for cc in y.cells:
                    z = s.stride_q(padd(y.sym, cc), j, off)
                    if z is None: continue
                    for q in (z[0], padd(z[0], 1), psub(z[0], 1)):
                        same = c_eq(psub(subst(padd(y.sym, cc), {j.id: q}), off))
                        dec = s.decide(st, same)
                        if dec is None: raise Fork(same)
                        if dec: cs.add((q, cc, 0))
                for q, cc, ce in cs:
                    m = {j.id: q}
                    cell_ = y.cells[cc]
                    if cell_[0] < nb + ce: continue
                    if psub(subst(padd(y.sym, cc + ce), m), off) != 0 and not (ce == 0 and s.decide(st, c_eq(psub(subst(padd(y.sym, cc), m), off))) is True): continue
                    inr = c_and(c_le(pneg(q)), c_lt(psub(q, subst(K, m))), *[csubst(g, m) for g in gs])
                    dec = s.decide(st, inr)
                    if dec is None:
                        h = psub(q, s.mod_monomial(q, subst(K, m))) if not gs else 0
                        if isinstance(h, Poly) and any(len(x) > 2 for x in terms(h)): raise Undecided('nonlinear witness for a read of %s' % obj.name)
                        raise Fork(inr)
                    if dec is False: continue
                    # last writer: no other instance of any entry at or after this one may overlap
                    for idx2, how2, info2 in hits:
                        vs2, gs2, y2 = fl[idx2]
                        if how2 == 'inv': raise Undecided('mixed writers')
                        fr2, conds2, ovl2 = info2
                        jj = fr2[vs2[0][0].id]
                        later = c_lt(psub(q, jj)) if idx2 <= idx else c_le(psub(q, jj))
                        if idx2 == idx or idx2 < idx:
                            later = c_lt(psub(q, jj))
                        else:
                            later = c_le(psub(q, jj))
                        if s.prover.sat(list(st.pc) + conds2 + ovl2 + [later]) != 'unsat':
                            # overlapping cells may be distinct cells of the same block: check exact cell ranges
                            if not s.cellwise_disjoint(st, y2, fr2, conds2, later, off, nb):
                                raise Undecided('overwritten later in the loop?')
                    v0 = (cell_[0], s.vsubst(cell_[1], m)) + cell_[2:]
                    return [(nb,) + slice_piece(v0, ce, nb)]
            else:
                r = s.match_multi(st, obj, fl, idx, hits, off, nb)
                if r is not None: return r
            if nb in (2, 4, 8, 16) and any(cl[0] < nb for vs_, g_, y_ in fl for cl in y_.cells.values()):
                # the bytes may lie in several smaller cells
                h = nb // 2; k_ = 'i%d' % (8 * h)
                return list(s.rd(st, obj, layers, li, sym, c, h, k_)) + list(s.rd(st, obj, layers, li, sym, c + h, h, k_))
            raise Undecided('no witness for read of %s at %s' % (obj.name, show(off, 100)))
        return None

    def rank_witness(s, st, y, j, K, gs, off, nb, hits, fl, idx):
        """a write at address a*S(j) + b, S counting the writing iterations below j: offset a*q + b was written by the q-th of them"""
        if len(y.cells) != 1 or len(hits) != 1: return None
        (cc, cell_), = y.cells.items()
        if cell_[0] < nb: return None
        d = psub(off, padd(y.sym, cc))
        cnt = [(m, c) for m, c in terms(d).items() if any(j.id in ATOMS[x].deps for x in m)]
        if len(cnt) != 1 or len(cnt[0][0]) != 1: return None
        S = ATOMS[cnt[0][0][0]]; a = -cnt[0][1]
        if S.kind != 'sum' or not P.counting(S.data[1]) or S.data[0] != avar(j) or a < 1: return None
        q = s.pdivint(padd(d, pscale(avar(S), a)), a)
        if q is None: return None
        p = P.count_pos(S, q); m = {j.id: p}
        inr = c_and(c_le(pneg(p)), c_lt(psub(p, subst(K, m))), c_eq(psub(P.count_to(S, p), q)), *[csubst(g, m) for g in gs])
        dec = s.decide(st, inr)
        if dec is not True:
            tot = P.count_to(S, K)
            b = c_and(c_le(pneg(q)), c_lt(psub(q, tot)))
            if s.decide(st, b) is None: raise Fork(b)
            raise Undecided('rank of a read')
        fr, conds, ovl = hits[0][2]
        if s.prover.sat(list(st.pc) + conds + ovl + [c_lt(psub(p, fr[j.id]))]) != 'unsat': raise Undecided('overwritten later in the loop? (rank)')
        v0 = (cell_[0], s.vsubst(cell_[1], m)) + cell_[2:]
        return [(nb,) + slice_piece(v0, 0, nb)]
    def nonlin(s, p, vs):
        ids = {v.id for v, _ in vs}
        return any(len(m) > 1 and any(x in ids for x in m) for m in terms(p))
    def symbolic_stride(s, vs, y):
        ids = {v.id for v, _ in vs}
        return any(len(m) > 1 and ids & set(m) for m in terms(y.sym))
    def multi_sols(s, st, vs, y, cc, off):
        """values of the bound variables at which a write could have hit off"""
        strided = False
        orders = [vs] if s.nonlin(y.sym, vs) else [list(reversed(vs))]
        deg = {v.id: max([len(k) for k in terms(y.sym) if v.id in k] or [0]) for v, _ in vs}
        if max(deg.values()) > 1 and all(len(k) - 1 < 2 or sum(x in deg for x in k) < 2 for k in terms(y.sym)): orders = [sorted(vs, key=lambda z: -deg[z[0].id])]
        allsols = []
        for o in orders:
            sols = [({}, padd(y.sym, cc))]
            for v, K in o:
                nxt = []
                for m, e in sols:
                    if v.id not in depsof(e): nxt.append((m, e)); continue
                    qs = list(s.candidates(st, v, e, off))
                    z = s.stride_q(e, v, off)
                    if z is not None: qs = [z[0], padd(z[0], 1), psub(z[0], 1)]; strided = True
                    if z is None and strided: qs = [s.mod_monomial(q, K) for q in qs]
                    for q in qs:
                        m2 = dict(m); m2[v.id] = q
                        nxt.append((m2, subst(e, {v.id: q})))
                sols = nxt
            allsols += sols
            if any(len(m) == len(vs) and psub(e, off) == 0 for m, e in sols): break
        sols = sorted(allsols, key=lambda z: psub(z[1], off) != 0)
        return sols, strided
    def match_multi(s, st, obj, fl, idx, hits, off, nb):
        vs, gs, y = fl[idx]
        # solve variables one after the other (outermost last)
        for cc, cell_ in y.cells.items():
            if cell_[0] < nb: continue
            sols, strided = s.multi_sols(st, vs, y, cc, off)
            quo = s.quotient_candidates(y, cc, vs, off)
            for m, e, facts in [(m, e, None) for m, e in sols] + quo:
                # substitute solutions into one another
                for _ in range(len(vs)):
                    m = {k: subst(x, {k2: x2 for k2, x2 in m.items() if k2 != k}) for k, x in m.items()}
                if len(m) < len(vs): continue
                same = psub(subst(padd(y.sym, cc), m), off)
                if same != 0:
                    if not isinstance(same, Poly) or not strided: continue
                    same = s.strip_monomial(same)
                    dec = s.decide(st, c_eq(same))
                    if dec is None: raise Fork(c_eq(same))
                    if not dec: continue
                inr = c_and(*([c_le(pneg(m[v.id])) for v, K in vs] + [c_lt(psub(m[v.id], subst(K, m))) for v, K in vs] + [csubst(g, m) for g in gs]))
                st2 = st
                if facts:
                    st2 = st.fork()
                    for f in facts({}): st2.add(f)
                dec = s.decide(st2, inr)
                if dec is None: raise Fork(inr)
                if dec is False: continue
                # uniqueness: any other instance (of any entry) overlapping must be this one
                for idx2, how2, info2 in hits:
                    if how2 == 'inv': raise Undecided('mixed')
                    vs2, gs2, y2 = fl[idx2]
                    fr2, conds2, ovl2 = info2
                    if idx2 == idx:
                        other = c_or(*[c_ne(psub(fr2[v.id], m[v.id])) for v, K in vs])
                        if s.prover.sat(list(st2.pc) + conds2 + ovl2 + [other] + (facts(fr2) if facts else [])) != 'unsat': raise Undecided('overwritten (multi)')
                    else: raise Undecided('several multi writers')
                return [(nb, s.vsubst(cell_[1], m)) + cell_[2:]]
        return None

    def stride_q(s, e, v, off):
        """e = S*v + ..., S a symbolic monomial: the quotient of off by the stride S, read off term by term; (q, S, remainder)"""
        D = psub(off, e); S = None; rest = {}
        for m, c in terms(D).items():
            if v.id in m:
                k = list(m); k.remove(v.id)
                if S is not None or not k or v.id in k or any(v.id in ATOMS[x].deps for x in k): return None
                S = (tuple(k), -c)
            elif any(v.id in ATOMS[x].deps for x in m): return None
            else: rest[m] = c
        if S is None: return None
        sm, sc = S
        q = {}; r = {}
        for m, c in rest.items():
            k = list(m)
            try:
                for x in sm: k.remove(x)
            except ValueError: r[m] = c; continue
            if c % sc: r[m] = c; continue
            q[tuple(k)] = c // sc
        return mkpoly(q), mkpoly({sm: sc}), mkpoly(r)
    def mod_monomial(s, q, K):
        """the terms of q which are not multiples of the monomial K"""
        if not isinstance(K, Poly) or len(K.t) != 1 or not isinstance(q, Poly): return q
        (km, kc), = K.t.items()
        if kc != 1 or not km: return q
        def div(m):
            m = list(m)
            try:
                for x in km: m.remove(x)
            except ValueError: return False
            return True
        return mkpoly({m: c for m, c in terms(q).items() if not div(m)})
    def strip_monomial(s, p):
        """p without the atoms common to all its terms (p is zero where the result is)"""
        ms = [list(m) for m in terms(p)]
        com = []
        for x in set(ms[0]) if ms else ():
            k = min(m.count(x) for m in ms); com += [x] * k
        if not com: return p
        r = {}
        for m, c in terms(p).items():
            l = list(m)
            for x in com: l.remove(x)
            r[tuple(l)] = c
        return mkpoly(r)
    def stride_facts(s, e, v, off):
        """valid facts of integer arithmetic: addresses with a symbolic stride S agree only in the same row"""
        z = s.stride_q(e, v, off)
        if z is None: return []
        q, S, r = z
        d = psub(avar(v), q); Sd = pmul(S, d)
        f = [c_or(c_lt(S), c_eq(psub(d, k)), c_le(psub(pscale(S, k + 1), Sd)), c_le(psub(Sd, pscale(S, k - 1)))) for k in (0, 1, -1)]
        (sm, sc), = S.t.items()
        mon = lambda ids: mkpoly({tuple(sorted(ids)): 1}) if ids else 1
        for m in terms(r):
            for x in set(m):
                M = list(m); M.remove(x)
                if not M or x in M: continue
                N = list(sm)
                try:
                    for y in M: N.remove(y)
                except ValueError: continue
                if not N: continue
                M, N, X = mon(M), mon(N), avar(ATOMS[x])
                f.append(c_or(c_lt(M), c_lt(psub(N, padd(X, 1))), c_le(psub(pmul(M, padd(X, 1)), pmul(M, N)))))
                f.append(c_or(c_lt(M), c_lt(X), c_le(pneg(pmul(M, X)))))
        return f
    def all_stride_facts(s, y, vs, fr, off):
        f = []
        ids = {v.id for v, _ in vs}
        if not any(len(m) > 1 and ids & set(m) for m in terms(y.sym)): return f
        for c in list(y.cells)[:4]:
            e = subst(padd(y.sym, c), fr)
            for v, _ in vs:
                w = ATOMS[next(iter(terms(fr[v.id])))[0]] if fr else v
                f += s.stride_facts(e, w, off)
        return f

    def quotient_candidates(s, y, cc, vs, off):
        """A*(M*u + v) == off with v < M: u and v are the quotient and the remainder"""
        if len(vs) != 2: return []
        d = psub(padd(y.sym, cc), off)
        if not isinstance(d, Poly): return []
        r = []
        for (u, K), (v, M) in (vs, vs[::-1]):
            if u.id in depsof(M) or v.id in depsof(M): continue
            A = d.t.get((v.id,))
            if type(A) is not int: continue
            rest = psub(d, pscale(padd(pmul(M, avar(u)), avar(v)), A))
            if {u.id, v.id} & depsof(rest): continue
            x = s.pdivint(pneg(rest), A) if A > 0 else s.pdivint(rest, -A)
            if x is None: continue
            q = idiv(x, M)
            def facts(fr, x=x, M=M, q=q, u=u, v=v, K=K):
                # division with remainder: the bounds of the quotient, and its uniqueness
                f = [c_or(c_le(M), c_and(c_le(psub(pmul(M, q), x)), c_lt(psub(x, padd(pmul(M, q), M))))),
                     c_or(c_le(M), c_lt(x), c_le(pneg(q))),
                     c_or(c_le(M), c_le(psub(pmul(M, K), x)), c_lt(psub(q, K)))]
                if fr:
                    i, k = fr[u.id], fr[v.id]
                    f.append(c_or(c_lt(k), c_le(psub(M, k)), c_ne(psub(padd(pmul(M, i), k), x)), c_eq(psub(i, q))))
                return f
            r.append(({u.id: q, v.id: psub(x, pmul(M, q))}, 0, facts))
        return r

    def cellwise_disjoint(s, st, y2, fr2, conds2, later, off, nb):
        for cc, cell_ in y2.cells.items():
            d = psub(off, padd(subst(y2.sym, fr2), cc))
            ov = [c_not(c_le(padd(d, nb))), c_not(c_le(psub(cell_[0], d)))]
            if s.prover.sat(list(st.pc) + conds2 + ov + [later]) != 'unsat': return False
        return True

    def residue_split(s, st, y, j, off, nb):
        """off = a*j + cc with |a| const: fork on the residue of off so that a candidate appears"""
        d = psub(y.sym, 0)
        lin = None
        if isinstance(d, Poly):
            lin = d.t.get((j.id,))
        if not lin: return None
        a = abs(lin)
        # need off's variable part divisible: look for a single variable with coefficient g | a
        t = {m: c for m, c in terms(off).items() if m != ()}
        for m, cc in t.items():
            if a % abs(cc) == 0 and abs(cc) != a and len(m) == 1 and ATOMS[m[0]].kind == 'v':
                # variable x = (a/cc)*x' + r
                k = a // abs(cc)
                x = avar(ATOMS[m[0]])
                for r in range(k):
                    cnd = c_eq(psub(psub(x, r), pscale(idiv(psub(x, r), k), k)))
                    dec = s.decide(st, cnd)
                    if dec is None: return cnd
        return None

    def vsubst(s, v, m):
        if isinstance(v, Poly): return subst(v, m)
        if isinstance(v, Res):
            p = subst(v.p, m)
            return Res(p, v.w) if isinstance(p, Poly) else s.wrapc(p, v.w)
        if isinstance(v, Ptr): return Ptr(v.obj, subst(v.off, m))
        if isinstance(v, Raw): return Raw([(p[0], s.vsubst(p[1], m)) + tuple(p[2:]) for p in v.p])
        if type(v) is tuple: return csubst(v, m)
        if isinstance(v, (Agg, Vec)): return type(v)(s.vsubst(x, m) for x in v)
        if isinstance(v, BV): return bvrec().vsubst(v, m)
        return v

    def rd_init(s, st, obj, sym, c, nb, kind):
        off = padd(sym, c)
        if obj.fn is not None:
            r = obj.fn(off, kind, nb)
            if r is not None:
                return [(nb, r, kind, 0, nb)]
        if obj.init == 'uninit': return [(nb, UNDEF, kind, 0, nb)]
        if obj.init == 'zero': return [(nb, 0, 'zero', 0, nb)]
        if obj.init == 'const':
            L = s.gcells(obj)
            if isinstance(sym, Poly):
                if not obj.const: raise Undecided('symbolic index into mutable global')
                r = bvrec().read_table(s, obj, L, off, nb)
                if r is not None: return [(nb, r, kind, 0, nb)]
                return [(nb, s.const_table(st, obj, L, off, nb, kind), kind, 0, nb)]
            ov = L.overlaps(c, nb)
            if not ov:
                # large zero-initialised cells are keyed by start only
                for k, v in L.cells.items():
                    if k <= c and k + v[0] >= c + nb: ov = [(k, v)]; break
            if not ov: return [(nb, UNDEF, kind, 0, nb)]
            out = []
            pos = c
            for k, v in ov:
                if k > pos: out.append((k - pos, UNDEF, 'i8', 0, k - pos)); pos = k
                e = min(k + v[0], c + nb)
                if v[2] == 'zero': out.append((e - pos, v[1], 'zero', 0, e - pos))
                else: out.append((e - pos,) + slice_piece(v, pos - k, e - pos))
                pos = e
            if len(out) == 1 and out[0][0] == nb: 
                if out[0][1] is UNDEF: return [(nb, UNDEF, kind, 0, nb)]
                return out
            if pos < c + nb: out.append((c + nb - pos, UNDEF, 'i8', 0, c + nb - pos))
            return out
        # symbolic
        tag = obj.tag
        if tag is None: tag = kind
        if callable(tag): tag = tag(sym, c)
        if tag == kind or knb(tag) == nb:
            return [(nb, s.sym_cell(obj, off, tag), tag, 0, nb)]
        tn = knb(tag)
        if tn < nb:
            out = []
            pos = 0
            while pos < nb:
                t2 = tag if not callable(obj.tag) else obj.tag(sym, c + pos)
                n2 = knb(t2)
                out.append((n2, s.sym_cell(obj, padd(off, pos), t2), t2, 0, n2)); pos += n2
            return out
        # reading part of a bigger cell: need alignment of the offset
        r = umod(off, tn)
        if isinstance(r, Poly): raise Undecided('misaligned symbolic read')
        return [(nb, s.sym_cell(obj, psub(off, r), tag), tag, r, tn)]

    def sym_cell(s, obj, off, tag):
        if obj.vals is not None:
            i = idiv(off, knb(tag)); n = len(obj.vals)
            if not isinstance(i, Poly):
                if not 0 <= i < n: raise Undecided('read outside an initialised array')
                return obj.vals[i]
            r = obj.vals[n - 1]
            for k in range(n - 2, -1, -1): r = ite(c_eq(psub(i, k)), obj.vals[k], r)
            return r
        if isint(tag):
            w = int(tag[1:])
            if tag == 'i1': return c_ne(cell(obj.name, off, tag, 'int', 0, 1))
            h = 1 << (w - 1)
            lo = -h if obj.lo is None else obj.lo
            hi = h - 1 if obj.hi is None else obj.hi
            return cell(obj.name, off, tag, 'int', lo, hi)
        if tag == 'ptr': raise Undecided('symbolic pointer load from %s+%s' % (obj.name, show(off)))
        return cell(obj.name, off, tag, 'real')

    def const_table(s, st, obj, L, off, nb, kind):
        """symbolic index into a constant table: an opaque function of the offset with range"""
        vals = [v[1] for k, v in L.cells.items() if v[0] == nb]
        if not vals or any(not isinstance(v, (int, Fraction)) for v in vals): raise Undecided('const table')
        if not isint(kind): return cell(obj.name, off, kind, 'real')
        a = cell(obj.name, off, kind, 'int', min(vals), max(vals))
        s.tables = getattr(s, 'tables', {})
        s.tables[obj.name] = (nb, {k: v[1] for k, v in L.cells.items()})
        return a

    # ------------------------------------------------------------ memory write
    def store(s, st, ptr, v, ty):
        if not isinstance(ptr, Ptr): raise Undecided('store through %r' % (ptr,))
        k = ty.k
        if k in ('vec', 'arr'):
            es = ty.el.size
            if isinstance(v, Raw): return s.store_raw(st, ptr, v)
            if v is UNDEF: v = [UNDEF] * ty.n
            for i in range(ty.n): s.store(st, Ptr(ptr.obj, padd(ptr.off, i * es)), v[i], ty.el)
            return
        if k == 'struct':
            for x, t, o in zip(v, ty.fields, ty.offs): s.store(st, Ptr(ptr.obj, padd(ptr.off, o)), x, t)
            return
        if isinstance(v, Raw): return s.store_raw(st, ptr, v)
        if isinstance(v, Res) and v.raw and sum(p[0] for p in v.raw) == (ty.w + 7) // 8: return s.store_raw(st, ptr, Raw(v.raw))
        sym, c = split(ptr.off)
        nb = ty.size if k != 'i' else (ty.w + 7) // 8
        s.access(st, ptr.obj, sym, c, nb, True)
        s.write(st, ptr.obj, sym, c, nb, v, kind_of(ty))

    def store_raw(s, st, ptr, v):
        sym, c = split(ptr.off)
        for nb, val, kind, sub, vnb in v.p:
            s.access(st, ptr.obj, sym, c, nb, True)
            s.write(st, ptr.obj, sym, c, nb, val, kind, sub, vnb)
            c += nb

    def write(s, st, obj, sym, c, nb, v, kind, sub=0, vnb=None):
        if obj.const: raise Undecided('write to constant %s' % obj.name)
        m = s.wmem(st, obj)
        ls = m.layers
        L = ls[-1] if ls else None
        if type(L) is not SymLayer or not (L.sym == sym or (not isinstance(L.sym, Poly) and not isinstance(sym, Poly))):
            L = SymLayer(sym); ls.append(L)
        L.put(c, nb, v, kind)
        if sub or (vnb is not None and vnb != nb):
            L.cells[c] = (nb, v, kind, sub, vnb)

    # ------------------------------------------------------------ operands
    def val(s, fr, a, ty):
        if type(a) is Reg:
            try: return fr.regs[a.n]
            except KeyError: raise Undecided('unbound %%%s in %s' % (a.n, fr.fn.name))
        return s.const(a, ty, fr.fn.mod)

    # ------------------------------------------------------------ running
    def call(s, st, name, args):
        """execute function `name` from state st; returns list of final states (st.ret)"""
        f = s.funcs.get(name)
        if f is None: raise Undecided('no function %s' % name)
        while True:
            s0 = st.fork()
            s0.frames = []
            try:
                s.push(s0, f, args, None, None)
                return s.run([s0])
            except NeedSummary as e:
                if e.key in s.summ: raise Undecided('loop %s' % (e.key,))
                s.summ.add(e.key)
                if s.trace: sys.stderr.write('summarise %s\n' % (e.key,))

    def push(s, st, f, args, dest, normal):
        if len(st.frames) > 60: raise Undecided('recursion depth')
        if f.body is not None: f.mod.parse_body(f)
        s.used_funcs[f.name] = s.used_funcs.get(f.name, 0) + 1
        fr = Frame()
        fr.fn = f; fr.regs = {}; fr.blk = f.entry; fr.idx = 0; fr.prev = None; fr.dest = dest; fr.normal = normal; fr.objs = []
        fr.path = (st.frames[-1].path if st.frames else ()) + (f.name,)
        for (t, n), a in zip(f.params, args): fr.regs[n] = a
        fr.code = f.blocks[f.entry]
        st.frames.append(fr)
        ir.find_loops(f)

    def run(s, work, region=None):
        """region: (depth, loop) stop states when control leaves/returns to the loop header at that depth.
        returns final states (status 'ret' | 'abort') or, in a region, stopped states (status 'latch'|'exit')"""
        done = []
        while work:
            st = work.pop()
            if len(done) + len(work) > s.maxpaths: raise Undecided('too many paths')
            try:
                r = s.run1(st, work, region)
            except Fork as e:
                s.counters['forks'] += 1
                if s.trace: sys.stderr.write('fork on %s in %s\n' % (cshow(e.cond), st.frames[-1].fn.name if st.frames else '?'))
                o = st.fork()
                n = c_not(e.cond)
                st.add(e.cond); o.add(n)
                if False not in st.pc: work.append(st)
                if False not in o.pc: work.append(o)
                continue
            if r is not None: done.append(r)
        return done

    def run1(s, st, work, region):
        while True:
            fr = st.frames[-1]
            code = fr.code
            i = fr.idx
            regs = fr.regs
            n = len(code)
            while True:
                ins = code[i]
                s.steps += 1
                op = ins.op
                h = SIMPLE.get(op)
                if h is not None:
                    fr.idx = i
                    regs[ins.res] = h(s, st, fr, ins)
                    i += 1
                    continue
                fr.idx = i
                if op == 'store':
                    s.store(st, s.val(fr, ins.a[1], PTR), s.val(fr, ins.a[0], ins.ty), ins.ty)
                    i += 1; continue
                break
            if s.steps & 1023 == 0 and s.deadline and time.time() > s.deadline: raise Undecided('deadline')
            if s.steps > s.maxsteps: raise Undecided('step limit')
            # control
            if op == 'call' or op == 'invoke':
                r = s.do_call(st, fr, ins, work)
                if r == 'dead': return None
                if r == 'abort':
                    st.status = 'abort'
                    return s.finish(st, region)
                if r == 'pushed':
                    continue
                if op == 'call': fr.idx += 1
                else:
                    x = s.goto(st, fr, ins.a[2], work, region)
                    if '$pending' in st.ghost: raise Undecided('loop entered from an invoke at a loop exit')
                    if x is not None: return x if x != 'dead' else None
                continue
            if op == 'br':
                x = s.goto(st, fr, ins.a[0], work, region)
                if x is not None: return x if x != 'dead' else None
                continue
            if op == 'condbr':
                c = s.cond(st, s.val(fr, ins.a[0], INT(1)))
                a, b = ins.a[1], ins.a[2]
                if c is not True and c is not False:
                    s.loop_exit_check(st, fr, a, b, region, c)
                    d = s.decide(st, c)
                    if d is None:
                        s.counters['forks'] += 1
                        o = st.fork()
                        o.add(c_not(c))
                        x = s.goto(o, o.frames[-1], b, work, region)
                        if x is None: work.append(o)
                        elif x != 'dead': s._stash(x)
                        st.add(c); c = True
                    else:
                        if d and c not in st.pc: pass
                        c = d
                x = s.goto(st, fr, a if c else b, work, region)
                if x is not None:
                    return x if x != 'dead' else None
                continue
            if op == 'switch':
                v = s.val(fr, ins.a[0], ins.ty)
                w = ins.ty.w
                if type(v) is not int and not isinstance(v, bool):
                    p = s.signed(st, v, w)
                    if isinstance(p, Poly):
                        neg = []
                        for cv, lab in ins.a[2]:
                            c = c_eq(psub(p, s.wrapc(cv, w)))
                            d = s.decide(st, c)
                            if d is False: continue
                            if d is True:
                                neg = None
                                x = s.goto(st, fr, lab, work, region); break
                            o = st.fork(); o.add(c)
                            st.add(c_not(c))
                            x = s.goto(o, o.frames[-1], lab, work, region)
                            if x is None: work.append(o)
                            elif x != 'dead': s._stash(x)
                        else:
                            x = s.goto(st, fr, ins.a[1], work, region)
                        if x is not None: return x if x != 'dead' else None
                        continue
                    v = p
                t = ins.a[1]
                for cv, lab in ins.a[2]:
                    if s.wrapc(cv, w) == v: t = lab; break
                x = s.goto(st, fr, t, work, region)
                if x is not None: return x if x != 'dead' else None
                continue
            if op == 'ret':
                v = s.val(fr, ins.a[0], ins.ty) if ins.a[0] is not None else None
                for o in fr.objs: st.mem.pop(o, None)
                st.frames.pop()
                if not st.frames:
                    st.ret = v; st.status = 'ret'
                    return s.finish(st, region)
                cf = st.frames[-1]
                if fr.dest is not None: cf.regs[fr.dest] = v
                if region is not None and len(st.frames) < region[0]:
                    # return from inside the loop: leaves the region
                    if fr.normal is None: cf.idx += 1
                    else:
                        s.enter(st, cf, fr.normal)
                    st.status = 'exit'
                    return st
                if fr.normal is None: cf.idx += 1
                else:
                    x = s.goto(st, cf, fr.normal, work, region)
                    if x is not None: return x if x != 'dead' else None
                continue
            if op == 'unreachable':
                st.status = 'abort'
                return s.finish(st, region)
            if op == 'resume':
                st.status = 'abort'
                return s.finish(st, region)
            raise Undecided('instruction %s: %s' % (op, ins.a))

    stash = None
    def _stash(s, x):
        s.stashed.append(x)
    @property
    def stashed(s):
        return s.region_stack[-1]

    def finish(s, st, region):
        return st

    def enter(s, st, fr, blk):
        """transfer to blk: evaluate phis"""
        fr.prev = fr.blk
        fr.blk = blk
        code = fr.fn.blocks[blk]
        fr.code = code
        i = 0
        if code and code[0].op == 'phi':
            vals = []
            while i < len(code) and code[i].op == 'phi':
                ins = code[i]
                if fr.prev not in ins.a: raise Undecided('phi')
                vals.append((ins.res, s.val(fr, ins.a[fr.prev], ins.ty)))
                i += 1
            for k, v in vals: fr.regs[k] = v
        fr.idx = i

    def goto(s, st, fr, blk, work, region):
        """None: continue; State: stopped (region); 'dead'"""
        st.ghost.pop('$pending', None)
        if region is not None and len(st.frames) == region[0]:
            L = region[1]
            if blk == L.header:
                st.status = 'latch'
                # evaluate incoming phis without entering
                vals = {}
                for ins in fr.fn.blocks[blk]:
                    if ins.op != 'phi': break
                    vals[ins.res] = s.val(fr, ins.a[fr.blk], ins.ty)
                st.ghost['$phis'] = vals
                return st
            if blk not in L.blocks:
                s.enter_chk(st, fr, blk, work, region)
                st.status = 'exit'
                return st
        return s.enter_chk(st, fr, blk, work, region)

    def enter_chk(s, st, fr, blk, work, region):
        loops = fr.fn.loops
        if blk in loops and fr.blk not in loops[blk].blocks:
            if (fr.path, blk) in s.summ and not (region is not None and len(st.frames) == region[0] and blk not in region[1].blocks):
                outs = s.summarise(st, fr, blk)
                for o in outs:
                    if o.status == 'abort': s._stash(o)
                    elif o.status == 'exit':
                        # control is at a block outside the loop; it may itself leave the enclosing region
                        x = s.post_exit(o, region)
                        if x is None: work.append(o)
                        else: s._stash(x)
                    else: s._stash(o)
                return 'dead'
            if (fr.path, blk) in s.summ:
                # the region exits straight into another loop to be summarised: stop before it
                st.ghost['$pending'] = (blk, fr.blk)
                return None
        s.enter(st, fr, blk)
        if s.max_unroll_sym and blk in loops:
            k = (fr.path, blk)
            st.visits = dict(st.visits)
            st.visits[k] = st.visits.get(k, 0) + 1
        return None

    def post_exit(s, o, region):
        """state o has just left an inner loop; does it leave the region too?"""
        o.status = None
        if region is None: return None
        d, L = region
        if len(o.frames) < d:
            o.status = 'exit'; return o
        if len(o.frames) == d:
            b = o.frames[-1].blk
            if '$pending' in o.ghost: b = o.ghost['$pending'][0]
            if b == L.header:
                # inner loop exited directly to our header: phis already evaluated in enter
                o.status = 'latch'
                vals = {}
                for ins in o.frames[-1].fn.blocks[b]:
                    if ins.op != 'phi': break
                    vals[ins.res] = o.frames[-1].regs[ins.res]
                o.ghost['$phis'] = vals
                return o
            if b not in L.blocks:
                o.status = 'exit'; return o
        return None

    def loop_exit_check(s, st, fr, a, b, region, c):
        """an exit branch of a loop depends on a symbolic condition: request a summary"""
        loops = fr.fn.loops
        best = None
        for h, L in loops.items():
            if fr.blk in L.blocks and ((a in L.blocks) != (b in L.blocks)):
                if region is not None and len(st.frames) == region[0] and region[1] is L: continue
                if best is None or len(L.blocks) < len(best.blocks): best = L
        if best is None: return
        key = (fr.path, best.header)
        if key in s.summ: return
        if s.max_unroll_sym:
            if st.visits.get(key, 0) > s.max_unroll_sym: raise Undecided('unroll limit')
            return
        # is the exit decided right now by the path condition in a way that the loop is really concrete?
        if key in s.nounroll_fail: return
        if s.unroll_decided and not s.tolerant and s.decide(st, c) is not None: return
        raise NeedSummary(key)

    def do_call(s, st, fr, ins, work):
        callee, args = ins.a[0], ins.a[1]
        if type(callee) is Reg:
            p = fr.regs.get(callee.n)
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'func': raise Undecided('indirect call %r' % (p,))
            name = p.obj.name
        elif type(callee) is GRef:
            name = callee.n
            if name not in fr.fn.mod.aliases and name not in s.funcs:
                for m in s.mods:
                    if name in m.aliases: name = s.const(m.aliases[name], PTR, m).obj.name; break
            if name in fr.fn.mod.aliases:
                p = s.const(callee, PTR, fr.fn.mod); name = p.obj.name
        else:
            p = s.const(callee, PTR, fr.fn.mod); name = p.obj.name
        vals = [s.val(fr, a, t) if not isinstance(a, TokenMeta) else None for t, a in args]
        m = s.overrides.get(name)
        if m is None and not (name in ('fread', 'fwrite', 'strlen') and name in s.funcs): m = MODELS.get(name)
        if m is None:
            for pre, fn in PREFIX_MODELS:
                if name.startswith(pre): m = fn; break
        f = None
        if m is None:
            f = fr.fn.mod.funcs.get(name)
            if f is None or (f.body is None and not f.order): f = s.funcs.get(name)
        if m is None and f is None:
            m = demangle_prefix(name)
        if m is not None:
            r = m(s, st, vals, ins, name)
            if r is DEAD: return 'abort'
            if isinstance(r, CallThrough):
                s.push(st, s.funcs[r.name], r.args, ins.res, ins.a[2] if ins.op == 'invoke' else None)
                return 'pushed'
            if ins.res is not None: fr.regs[ins.res] = r
            return None
        if f is None: raise Undecided('external %s' % name)
        s.push(st, f, vals, ins.res, ins.a[2] if ins.op == 'invoke' else None)
        return 'pushed'

    # ------------------------------------------------------------ loop summarisation
    def top(s, work, region=None):
        """run with a fresh stash"""
        s.region_stack.append([])
        try:
            d = s._run(work, region)
            return d + s.region_stack[-1]
        finally:
            s.region_stack.pop()

    def phis_of(s, fr, h):
        return [i for i in fr.fn.blocks[h] if i.op == 'phi']

    def summarise(s, st0, fr0, h):
        """st0 is about to enter loop header h (fr.blk is the preheader)."""
        s.counters['loops'] += 1
        L = fr0.fn.loops[h]
        depth = len(st0.frames)
        phis = s.phis_of(fr0, h)
        init = {p.res: s.val(fr0, p.a[fr0.blk], p.ty) for p in phis}
        memphis = {}       # (obj, sym, c) -> (nb, kind)
        def existed(o): return o in st0.mem or o.kind in ('global', 'param')

        def header_state(phivals, memvals, forall, pc):
            st = st0.fork()
            fr = st.frames[-1]
            fr.blk = h; fr.prev = None
            fr.code = fr.fn.blocks[h]
            for k, v in phivals.items(): fr.regs[k] = v
            fr.idx = len(phis)
            for o, lay in forall.items():
                m = s.wmem(st, o); m.layers.append(lay)
            for (o, sym, c), v in memvals.items():
                nb, kind = memphis[(o, sym, c)]
                m = s.wmem(st, o)
                m.layers.append(SymLayer(sym))
                s.write(st, o, sym, c, nb, v, kind)
            for c in pc: st.add(c)
            st.acc = {}
            st.ghost = dict(st0.ghost); st.ghost.pop('$phis', None)
            return st

        def fresh_like(v, name, ty):
            if isinstance(v, Ptr):
                return Ptr(v.obj, fresh(name))
            if ty is not None and ty.k in ('float', 'double') : return fresh(name, 'real')
            if ty is not None and ty.k == 'vec': return Vec(fresh_like(x, name, ty.el) for x in v)
            if ty is not None and ty.k == 'i' and ty.w == 1: return c_ne(fresh(name, 'int', 0, 1))
            if isinstance(v, Agg): raise Undecided('aggregate phi')
            if isinstance(v, BV): return BV(bvrec().const(the_atom(fresh(name)), ty.w))
            return fresh(name, 'int')

        # ---------- guess: probe with free phis, tolerant
        def run_region(st):
            s.region_stack.append([])
            try:
                # a header SymLayer shared with the base must not absorb loop writes: push markers lazily
                return s.run([st], (depth, L)) + s.region_stack[-1]
            finally:
                s.region_stack.pop()

        dropped = set()
        for attempt in range(8):
            free = {}
            for p in phis: free[p.res] = fresh_like(init[p.res], 'phi_' + p.res, p.ty)
            memfree = {}
            meminit = {}
            for key, (nb, kind) in memphis.items():
                v0 = s.read(st0, key[0], key[1], key[2], nb, kind)
                meminit[key] = v0
                memfree[key] = fresh_like(v0, 'mem_%s' % key[0].name, {'float': FLOAT, 'double': DOUBLE, 'ptr': PTR}.get(kind) or (INT(int(kind[1:]))))
            s.tolerant += 1
            try:
                hs = s.barrier(header_state(free, memfree, {}, []))
                outs = run_region(hs)
            finally: s.tolerant -= 1
            latches = [o for o in outs if o.status == 'latch']
            exits = [o for o in outs if o.status == 'exit']
            # memory cells with loop-invariant address written in the loop
            fdeps = set()
            for v in list(free.values()) + list(memfree.values()): fdeps |= s.vdeps(v)
            newmem = False; found = set()
            for o in latches:
                for ob, ls in s.added(o).items():
                    for ly in ls:
                        if type(ly) is SymLayer:
                            if not (depsof(ly.sym) & fdeps) and not s.has_fresh_since(ly.sym, hs):
                                for c, cellv in ly.cells.items():
                                    key = (ob, ly.sym, c); found.add(key)
                                    if key not in memphis:
                                        memphis[key] = (cellv[0], cellv[2]); newmem = True
            # a cell whose address only looked invariant before the cell that holds it was known to change
            for key in [q for q in memphis if q not in found and q not in dropped and latches]:
                del memphis[key]; dropped.add(key); newmem = True
            if not newmem: break
        else: raise Undecided('loop memory')
        if not latches:
            # body never repeats: plain execution
            return s.replay_once(st0, fr0, h, outs)

        # ---------- candidate invariant
        k = fresh('k_%s' % h.split('.')[0], 'int', lo=0)
        ka = the_atom(k)
        cand = {}
        pend = []
        fset = fdeps
        def step_of(v0, fv, nexts):
            """returns ('aff', step) | ('const',) | ('sum', g list) | None"""
            r = None
            for nv in nexts:
                if isinstance(fv, Ptr):
                    if not isinstance(nv, Ptr) or nv.obj is not fv.obj: return None
                    a, b = nv.off, fv.off
                else:
                    a = nv.p if isinstance(nv, Res) else nv
                    b = fv
                    if isinstance(a, BV) or isinstance(b, BV): return None
                    if isinstance(a, (Ptr, Raw)) or a is UNDEF or a is None or type(a) in (tuple, bool): return None
                d = psub(a, b)
                if isinstance(a, Poly) or not isinstance(b, Poly): pass
                dd = depsof(d)
                if not (dd & fset) and not s.has_fresh_since(d, hs):
                    q = ('aff', d)
                elif not (dd & s.vdeps(fv)):
                    q = ('sum', d)
                else: return None
                r = (r or []) + [q]
            return r
        items = []
        for p in phis:
            items.append((('phi', p.res), init[p.res], free[p.res], [o.ghost['$phis'][p.res] for o in latches], p.ty))
        for key, (nb, kind) in memphis.items():
            nx = []
            for o in latches:
                s.tolerant += 1
                try: nx.append(s.read(o, key[0], key[1], key[2], nb, kind))
                finally: s.tolerant -= 1
            items.append((('mem', key), meminit[key], memfree[key], nx, {'float': FLOAT, 'double': DOUBLE, 'ptr': PTR}.get(kind) or INT(int(kind[1:]))))
        inv = {}
        sums = {}
        hint = s.hints.get((fr0.fn.name, h)) or s.hints.get(fr0.fn.name) or s.hints.get('*')
        # vectors are handled lane-wise
        def scal(it):
            return it
        unresolved = []
        for name, v0, fv, nexts, ty in items:
            if isinstance(fv, Vec):
                lanes = []
                for l in range(len(fv)):
                    r = step_of(v0[l], fv[l], [n[l] for n in nexts])
                    lanes.append(r)
                if any(r is None for r in lanes): unresolved.append((name, v0, fv, nexts, ty)); continue
                inv[name] = ('vec', v0, lanes, fv); continue
            r = step_of(v0, fv, nexts)
            if r is None:
                if all(not (s.vdeps(n) & s.vdeps(fv)) for n in nexts) and name[0] == 'mem':
                    inv[name] = ('havoc', fv); continue
                unresolved.append((name, v0, fv, nexts, ty)); continue
            inv[name] = ('s', v0, r, fv)
        # integer steps that differ in form only: equal under what each way round the loop assumes
        for name, d in list(inv.items()):
            if d[0] != 's' or len(d[2]) < 2 or all(x == d[2][0] for x in d[2]): continue
            ds = [x[1] for x in d[2]]
            if any(isinstance(x, Poly) and sort_of(x) != 'int' or isinstance(x, Fraction) for x in ds): continue
            for y in d[2]:
                if all(x[1] == y[1] or s.prover.prove([c for c in o.pc], c_eq(psub(x[1], y[1]))) for x, o in zip(d[2], latches)):
                    inv[name] = (d[0], d[1], [y] * len(d[2]), d[3]); break
        # free atom -> value at iteration k, affine ones first
        sub = {}
        def affine_val(v0, st_):
            if isinstance(v0, Ptr): return Ptr(v0.obj, padd(v0.off, pmul(k, st_)))
            if v0 is UNDEF: raise Undecided('undef phi')
            p0 = v0.p if isinstance(v0, Res) else v0
            return padd(p0, pmul(k, st_))
        def allsame(r):
            return all(x == r[0] for x in r)
        for name, d in inv.items():
            if d[0] == 's' and allsame(d[2]) and d[2][0][0] == 'aff':
                v = affine_val(d[1], d[2][0][1])
                at = the_atom(d[3].off if isinstance(d[3], Ptr) else d[3])
                sub[at.id] = v.off if isinstance(v, Ptr) else v
        # now sums: bodies in terms of k
        def guard_of(o):
            """path condition added by this latch path"""
            return [c for c in o.pc if c not in st0.pc]
        def sumval(v0, r):
            gs = []
            for x, o in zip(r, latches):
                g = subst(x[1], sub)
                gs.append(g)
            g = gs[-1]
            # what every way round the loop requires holds for each completed iteration
            every = []
            if len(latches) > 1:
                every = s.common_conjuncts([c_and(*guard_of(o)) for o in latches])
                if not every: every = s.shared_conjuncts([c_and(*guard_of(o)) for o in latches], st0.pc)
            for x, o in zip(gs[:-1], latches[:-1]):
                cnd = c_and(*[csubst(c, sub) for c in guard_of(o) if c not in every])
                g = ite(cnd, x, g)
            if depsof(g) & (fset - set()) : 
                raise Undecided('reduction body depends on loop state')
            p0 = v0.p if isinstance(v0, Res) else v0
            if p0 is UNDEF: raise Undecided('undef accumulator')
            b = P.bvar(P._maxb(g))
            return (p0, g), padd(p0, psum_body(k, subst(g, {ka.id: avar(b)}), b))
        vals = {}
        sumg = {}
        for name, d in inv.items():
            if d[0] == 'havoc': vals[name] = d[1]; continue
            if d[0] == 'vec':
                out = Vec()
                for l, r in enumerate(d[2]):
                    if allsame(r) and r[0][0] == 'aff': out.append(affine_val(d[1][l], r[0][1]))
                    else:
                        _, v = sumval(d[1][l], r); out.append(v)
                vals[name] = out
            elif allsame(d[2]) and d[2][0][0] == 'aff': vals[name] = affine_val(d[1], d[2][0][1])
            else:
                if isinstance(d[1], Ptr): raise Undecided('pointer recurrence')
                _, v = sumval(d[1], d[2]); vals[name] = v
        # representation: machine ints whose range must be re-established are residues
        tys = {('phi', p.res): p.ty for p in phis}
        for key, (nb, kind) in memphis.items(): tys[('mem', key)] = {'float': FLOAT, 'double': DOUBLE, 'ptr': PTR}.get(kind) or INT(int(kind[1:]))
        if unresolved:
            s.guess_unresolved(st0, fr0, h, unresolved, sub, k, ka, vals, latches, hint, fset)
        def rep(name, v):
            t = tys[name]
            if t.k == 'i' and isinstance(v, Poly) and t.w > 1: return s.mk(v, t.w)
            return v
        vals = {n: rep(n, v) for n, v in vals.items()}

        if s.need_double and not s.tolerant:
            for n, v in vals.items():
                t = tys[n]
                if (t.k == 'float' or (t.k == 'vec' and t.el.k == 'float')) and ka.id in s.vdeps(v): s.float_acc.append('%s in %s' % (n[1] if n[0] == 'phi' else n[1][0].name, fr0.fn.name))
        # ---------- N(k): condition to go round again (guess by a tolerant run at iteration k)
        phivals = {n[1]: v for n, v in vals.items() if n[0] == 'phi'}
        memvals = {n[1]: v for n, v in vals.items() if n[0] == 'mem'}
        def probe(facts_):
            s.tolerant += 1; s.tol_smt += 1
            try:
                hs_ = s.barrier(header_state(phivals, memvals, {}, facts_))
                hs_.pc0 = hs_.pc
                return hs_, [o for o in run_region(hs_) if o.status == 'latch']
            finally: s.tolerant -= 1; s.tol_smt -= 1
        def facts_of(hs_, latches_, known):
            base_ = set(hs_.pc0)
            Ns_ = [c_and(*[c for c in o.pc if c not in base_]) for o in latches_]
            N_ = c_or(*Ns_) if Ns_ else False
            f = []
            if N_ is not True and N_ is not False and not s.cond_has_fresh(N_, hs_):
                f.append(c_or(c_eq(k), csubst(N_, {ka.id: psub(k, 1)})))
            # equality exits: P(j) != 0 for all j<k, P affine with unit step
            for n in s.common_conjuncts(Ns_) or s.shared_conjuncts(Ns_, st0.pc):
                if n[0] == 'not' and n[1][0] == 'eq':
                    p = n[1][1]
                    a = p.t.get((ka.id,))
                    b = psub(p, pscale(k, a)) if a else None
                    if a and ka.id not in depsof(b):
                        if a < 0: a, b = -a, pneg(b)
                        if a == 1 and s.prover.prove(st0.pc, c_le(b)):
                            f.append(c_le(padd(k, b)))
            # what sent the earlier iterations round again still holds for each of them
            if not s.tolerant and (fr0.fn.name, h) not in s.noall and N_ is not True and N_ is not False and not s.cond_has_fresh(N_, hs_) and P.c_atoms(N_, ka.id):
                q = fresh('all', 'int', lo=0)
                f.append(P.c_all(the_atom(q).id, k, csubst(N_, {ka.id: q})))
            return N_, f
        hs, latches = probe([])
        N, facts = facts_of(hs, latches, [])
        if facts:
            hs, latches = probe(facts)
        base = set(hs.pc0)
        # ---------- memory effect of one iteration
        alts = {}
        Ng_ = [c_and(*[c for c in o.pc if c not in base]) for o in latches]
        cc_ = s.common_conjuncts(Ng_)
        if len(latches) > 1: cc_ = cc_ + [c for c in s.shared_conjuncts(Ng_, hs.pc0) if c not in cc_]
        for o in latches:
            g = c_and(*[c for c in o.pc if c not in base])
            if len(latches) > 1 and cc_ and g is not True:
                # what every way round the loop requires holds for each completed iteration
                g = c_and(*[c for c in (list(g[1]) if g[0] == 'and' else [g]) if c not in cc_])
            for ob, ls in s.added(o).items():
                keep = []
                for ly in ls:
                    if type(ly) is SymLayer:
                        cells = {c: v for c, v in ly.cells.items() if (ob, ly.sym, c) not in memphis}
                        if cells:
                            q = SymLayer(ly.sym); q.cells = cells
                            q.lo = min(cells); q.hi = max(c + v[0] for c, v in cells.items())
                            keep.append(q)
                    else: keep.append(ly)
                if keep:
                    alts.setdefault(ob, []).append((g if len(latches) > 1 else True, keep))
        j = mk_atom('v', fresh_name('j'), 'int', 'j', lo=0)
        j = the_atom(fresh('j', 'int', lo=0))
        mj = {ka.id: avar(j)}
        forall = {}
        accob = {}
        for ob, al in list(alts.items()):
            if not existed(ob) or not s.scatter(st0, al, ka, k, j): continue
            accob[ob] = None
        if accob:
            tags = {ob: the_atom(fresh('free_' + ob.name)) for ob in accob}
            s.tolerant += 1; s.tol_smt += 1
            try:
                hs_ = s.barrier(header_state(phivals, memvals, {ob: FreeLayer(avar(t)) for ob, t in tags.items()}, facts))
                b_ = set(hs_.pc)
                la_ = [o for o in run_region(hs_) if o.status == 'latch']
            finally: s.tolerant -= 1; s.tol_smt -= 1
            for ob in list(accob):
                r = []
                for o in la_:
                    gs = [c for c in o.pc if c not in b_]
                    # path conditions that hold in every iteration carry no information
                    g = c_and(*gs) if len(la_) > 1 else True
                    q = None if any(tags[x].id in cdeps(c) for x in accob for c in gs) else s.acc_adds(o, s.added(o).get(ob, []), tags[ob], ka, g)
                    if q is None: r = None; break
                    r += q
                if r is None: del accob[ob]
                else: accob[ob] = r
            for ob in accob: del alts[ob]
        for ob, al in alts.items():
            if existed(ob):
                # the guard may be dropped when every path performs it and the loop goes round anyway
                forall[ob] = ForAllLayer(j, k, [(csubst(g, mj), [s.lsubst(x, mj) for x in ls]) for g, ls in al])
        # ---------- verify: strict run from the invariant at an arbitrary k
        if accob:
            if s.need_double and not s.tolerant:
                for ob, adds in accob.items():
                    if any(a[4] == 'float' for a in adds): s.float_acc.append('%s in %s' % (ob.name, fr0.fn.name))
            ffree = dict(forall); facc = dict(forall)
            for ob, adds in accob.items():
                ffree[ob] = FreeLayer(avar(tags[ob]))
                facc[ob] = AccLayer([([(j, k)] + list(a[0]), csubst(a[1], mj), subst(a[2], mj), a[3], a[4], subst(a[5], mj)) for a in adds])
            he = s.barrier(header_state(phivals, memvals, facc, facts))
            oexit = [o for o in run_region(he) if o.status != 'latch']
            hs = s.barrier(header_state(phivals, memvals, ffree, facts))
            base = set(hs.pc)
            outs = [o for o in run_region(hs) if o.status == 'latch'] + oexit
        else:
            hs = s.barrier(header_state(phivals, memvals, forall, facts))
            outs = run_region(hs)
        s.loop_invs += 1
        kp1 = {ka.id: padd(k, 1)}
        if s.tolerant:
            pass
        else:
            for o in outs:
                if o.status != 'latch': continue
                if s.prover.sat(list(o.pc)) == 'unsat': continue
                for p in phis:
                    want = s.vsubst(phivals[p.res], kp1) if not s.is_havoc(vals, ('phi', p.res)) else None
                    got = o.ghost['$phis'][p.res]
                    if not s.same(o, got, want, p.ty, k):
                        if s.trace: sys.stderr.write('phi %s: got %r want %r\n' % (p.res, got, want))
                        raise Undecided('loop invariant not preserved: %s in %s/%s' % (p.res, fr0.fn.name, h))
                    s.oblig.append(('inv', fr0.fn.name, h, p.res))
                for key, (nb, kind) in memphis.items():
                    if inv.get(('mem', key), ('',))[0] == 'havoc': continue
                    got = s.read(o, key[0], key[1], key[2], nb, kind)
                    want = s.vsubst(memvals[key], kp1)
                    if not s.same(o, got, want, tys[('mem', key)], k):
                        if s.trace: sys.stderr.write('mem %s: got %r want %r\n' % (key, got, want))
                        raise Undecided('loop invariant (memory %s) not preserved' % key[0].name)
                    s.oblig.append(('inv', fr0.fn.name, h, str(key[0].name)))
                # writes of this path must be those predicted
                got = s.added(o)
                for ob, adds in accob.items():
                    gs = [c for c in o.pc if c not in base]
                    if any(tags[x].id in cdeps(c) for x in accob for c in gs): raise Undecided('control flow depends on an accumulated value')
                    q = s.acc_adds(o, got.get(ob, []), tags[ob], ka, True)
                    if q is None: raise Undecided('writes to %s do not only accumulate' % ob.name)
                    # those predicted for this path: guard implied; all others: guard contradicted
                    want = [a for a in adds if a[1] is True or s.prove(o, a[1])]
                    for a in adds:
                        if a not in want and not a[0] and not s.prove(o, c_not(a[1])): raise Undecided('accumulation guard')
                    if len(q) != len(want): raise Undecided('accumulation differs')
                    for x, y in zip(q, want):
                        if len(x[0]) != len(y[0]): raise Undecided('accumulation differs')
                        m = {q[0].id: avar(p[0]) for p, q in zip(x[0], y[0])}
                        if not (x[3:5] == y[3:5] and s.peq(o, x[2], subst(y[2], m)) and s.peq(o, x[5], subst(y[5], m))): raise Undecided('accumulation differs')
                        if x[0] and (any(not s.peq(o, p[1], subst(q[1], m)) for p, q in zip(x[0], y[0])) or x[1] != csubst(y[1], m)): raise Undecided('nested accumulation differs')
                    s.oblig.append(('accumulates', fr0.fn.name, h, ob.name))
                for ob in set(got) | set(alts):
                    if not existed(ob) or ob in accob: continue
                    gl = []
                    for ly in got.get(ob, []):
                        if type(ly) is SymLayer:
                            cells = {c: v for c, v in ly.cells.items() if (ob, ly.sym, c) not in memphis}
                            if cells:
                                q = SymLayer(ly.sym); q.cells = cells; gl.append(q)
                        else: gl.append(ly)
                    pred = None
                    oguard = [c for c in o.pc if c not in base]
                    for g, ls in alts.get(ob, []):
                        gc = [g] if g is True or g[0] != 'and' else list(g[1])
                        if all(x is True or x in o.pc or s.prove(o, x) for x in gc): pred = ls; break
                    if not gl and pred is None: continue
                    if pred is None or not s.same_layers(o, gl, pred):
                        if s.trace: sys.stderr.write('writes differ on %s\n %s\n %s\n' % (ob, s.lshow(gl), s.lshow(pred)))
                        raise Undecided('loop writes not as predicted on %s' % ob.name)
                    s.oblig.append(('writes', fr0.fn.name, h, ob.name))
                # the latch path must re-establish the facts about the counter
                for f in facts:
                    if f[0] == 'all' and (s.tolerant or not s.prove(o, csubst(f[3], {f[1]: k}))):
                        s.noall.add((fr0.fn.name, h))
                        return s.summarise(st0, fr0, h)
                    if not s.prove(o, csubst(f, kp1) if f[0] != 'all' else csubst(f[3], {f[1]: k})): raise Undecided('counter fact %s' % cshow(f))
                s.check_acc(o)
        res = []
        for o in outs:
            if o.status == 'latch': continue
            s.absorb(o, forall, alts, memphis, k)
            o.ghost.pop('$nlay', None); o.ghost.pop('$lbase', None)
            for g in ('$nlay',):
                if g in st0.ghost: o.ghost[g] = st0.ghost[g]
            s.unbarrier(o)
            # merge access records
            acc = dict(st0.acc)
            for kk, vv in o.acc.items():
                a = acc.get(kk)
                acc[kk] = vv if a is None else (min(a[0], vv[0]), max(a[1], vv[1]))
            o.acc = acc
            if not s.tolerant and s.prover.sat(list(o.pc)) == 'unsat': continue
            s.solve_exit(o, ka, k)
            res.append(o)
        return res

    def absorb(s, o, forall, alts, memphis, k):
        """a loop left at the bottom of its body: the writes of the last iteration are those of iteration k, so [0,k) becomes [0,k+1)"""
        got = s.added(o)
        for ob, al in alts.items():
            # an iteration that does not write
            if ob in forall and not got.get(ob) and len(al) == 1 and al[0][0] is not True and ob in o.mem and s.prove(o, c_not(al[0][0])):
                ls = list(o.mem[ob].layers)
                f = [i for i, l in enumerate(ls) if l is forall[ob]]
                if len(f) == 1:
                    ls[f[0]] = ForAllLayer(ls[f[0]].j, padd(k, 1), ls[f[0]].alts)
                    o.mem[ob] = MemO(ob, ls, o.tok)
        for ob, gl in got.items():
            al = alts.get(ob)
            if ob not in forall or al is None or len(al) != 1: continue
            if al[0][0] is not True and not s.prove(o, al[0][0]): continue
            gl = s.coalesce(gl)
            if any(type(l) not in (SymLayer, ForAllLayer) or type(l) is SymLayer and any((ob, l.sym, c) in memphis for c in l.cells) for l in gl): continue
            if not s.same_layers(o, gl, al[0][1]): continue
            ls = list(o.mem[ob].layers)
            b = max(i for i, l in enumerate(ls) if l is BARRIER)
            f = [i for i in range(b) if ls[i] is forall[ob]]
            if len(f) != 1 or f[0] != b - 1: continue
            fl = ls[b - 1]
            o.mem[ob] = MemO(ob, ls[:b - 1] + [ForAllLayer(fl.j, padd(k, 1), fl.alts), BARRIER], o.tok)

    def scatter(s, st0, al, ka, k, j):
        """do the loop's writes go to addresses that may repeat between iterations?"""
        if any(type(l) is AccLayer for g, ls in al for l in ls): return True
        syms = [l for g, ls in al for l in ls if type(l) is SymLayer]
        if len(syms) != sum(len(ls) for g, ls in al): return False
        if not any(v[2] in ('float', 'double') for l in syms for v in l.cells.values()): return False
        for l in syms:
            # affine in the counter with constant step: not a scatter
            at = [ATOMS[a] for m in terms(l.sym) for a in m if ka.id in ATOMS[a].deps]
            if all(a.id == ka.id for a in at): continue
            m = {ka.id: avar(j)}
            d = psub(subst(l.sym, m), l.sym)
            w = l.hi - l.lo
            dis = c_or(c_le(padd(d, w)), c_le(psub(w, d)))
            if not s.prover.prove(list(st0.pc) + [c_le(pneg(avar(j))), c_lt(psub(avar(j), k))], dis): return True
        return False

    def is_havoc(s, vals, name): return False

    def replay_once(s, st0, fr0, h, outs):
        # execute normally without summary
        key = (fr0.path, h)
        s.summ.discard(key); s.nounroll_fail.add(key)
        st = st0.fork()
        fr = st.frames[-1]
        s.enter(st, fr, h)
        st.status = 'exit'
        return [st]

    # barrier: layers below are shared with the loop entry; new writes go on top
    def barrier(s, st):
        nl = {}
        for o, m in list(st.mem.items()):
            ls = list(m.layers) + [BARRIER]
            st.mem[o] = MemO(o, ls, st.tok)
            nl[o] = len(ls)
        st.ghost['$nlay'] = nl
        st.ghost['$mark'] = len(ATOMS)
        return st
    def unbarrier(s, st):
        nl0 = st.ghost.get('$nlay')
        for o, m in list(st.mem.items()):
            idx = [i for i, l in enumerate(m.layers) if l is BARRIER]
            if not idx: continue
            keepn = nl0.get(o) if nl0 else None
            # remove only the innermost barrier (the last one)
            ls = list(m.layers)
            ls.pop(idx[-1])
            st.mem[o] = MemO(o, ls, -1)
    def added(s, st):
        out = {}
        nl = st.ghost['$nlay']
        for o, m in st.mem.items():
            n0 = nl.get(o)
            if n0 is None:
                if o.kind not in ('global', 'param'): continue
                n0 = 0
            ls = [l for l in m.layers[n0:] if l is not BARRIER]
            if ls: out[o] = ls
        return out

    def vdeps(s, v):
        if isinstance(v, Poly): return v.deps
        if isinstance(v, Res): return depsof(v.p)
        if isinstance(v, Ptr): return depsof(v.off)
        if isinstance(v, (Vec, Agg)):
            r = frozenset()
            for x in v: r |= s.vdeps(x)
            return r
        if type(v) is tuple: return cdeps(v)
        if isinstance(v, Raw):
            r = frozenset()
            for p in v.p: r |= s.vdeps(p[1])
            return r
        if isinstance(v, BV): return bvrec().deps(v)
        return frozenset()

    def has_fresh_since(s, p, hs):
        mk = hs.ghost['$mark']
        return any(d >= mk for d in s.vdeps(p))
    def cond_has_fresh(s, c, hs):
        mk = hs.ghost['$mark']
        return any(d >= mk for d in cdeps(c))

    def shared_conjuncts(s, Ns, pc):
        """disequalities of one way round the loop that the other ways imply"""
        def cj(n): return [] if n is True or n is False else list(n[1]) if n[0] == 'and' else [n]
        r = []
        for n in Ns:
            for c in cj(n):
                if c[0] == 'not' and c[1][0] == 'eq' and c not in r and all(c in cj(m) or s.prover.prove(list(pc) + cj(m), c) for m in Ns): r.append(c)
        return r
    def common_conjuncts(s, Ns):
        if not Ns: return []
        def cj(n):
            if n is True or n is False: return []
            return list(n[1]) if n[0] == 'and' else [n]
        r = cj(Ns[0])
        for n in Ns[1:]:
            o = cj(n)
            r = [x for x in r if x in o]
        return r

    def lsubst(s, L, m):
        if type(L) is SymLayer:
            q = SymLayer(subst(L.sym, m))
            base_sym, dc = split(q.sym)
            q.sym = base_sym
            for c, v in L.cells.items():
                q.cells[c + dc] = (v[0], s.vsubst(v[1], m)) + tuple(v[2:])
            q.lo = L.lo + dc; q.hi = L.hi + dc
            return q
        if type(L) is ForAllLayer:
            return ForAllLayer(L.j, subst(L.K, m), [(csubst(g, m), [s.lsubst(x, m) for x in ls]) for g, ls in L.alts])
        if type(L) is FreeLayer: return FreeLayer(subst(L.tag, m))
        if type(L) is AccLayer:
            return AccLayer([([(a, subst(K, m)) for a, K in x[0]], csubst(x[1], m) if x[1] is not True else True, subst(x[2], m), x[3], x[4], subst(x[5], m)) for x in L.adds])
        if type(L) is RangeLayer:
            src = None
            if L.src is not None:
                src = MemO(L.src.obj, [s.lsubst(x, m) for x in L.src.layers if x is not BARRIER], -1)
            return RangeLayer(subst(L.start, m), subst(L.len, m), src, subst(L.sstart, m) if L.sstart is not None else None, L.fill)
        return L

    def lshow(s, ls):
        if ls is None: return 'None'
        out = []
        for l in ls:
            if type(l) is SymLayer: out.append('%s:{%s}' % (show(l.sym, 60), ', '.join('%d:%s' % (c, str(v[1])[:80]) for c, v in sorted(l.cells.items())[:6])))
            else: out.append(type(l).__name__)
        return ' | '.join(out)

    def same(s, st, got, want, ty, k=None):
        if want is None: return True
        if isinstance(want, Vec):
            return all(s.same(st, g, w, ty.el) for g, w in zip(got, want))
        if isinstance(want, Ptr):
            return isinstance(got, Ptr) and got.obj is want.obj and s.peq(st, got.off, want.off)
        if type(want) in (tuple, bool) and type(got) in (tuple, bool):
            return got == want
        if isinstance(want, BV) or isinstance(got, BV):
            if got is UNDEF or s.tolerant: return False
            B = bvrec(); x, y = B.of(s, got, ty.w), B.of(s, want, ty.w)
            return s.bvrec.same(s, st, x, y) if s.bvrec else B.valid(x == y)
        if ty.k == 'i':
            if isinstance(got, (Ptr, Raw)) or got is UNDEF: return False
            a = got.p if isinstance(got, Res) else got
            b = want.p if isinstance(want, Res) else want
            if type(a) in (tuple, bool): a = ite(a, -1, 0)
            d = psub(a, b)
            if not isinstance(d, Poly): return d % (1 << ty.w) == 0
            return s.peq(st, a, b)
        if got is UNDEF or isinstance(got, (Raw, Ptr)): return False
        return s.peq(st, got, want)

    def peq(s, st, a, b):
        """a == b under st.pc"""
        d = psub(a, b)
        if not isinstance(d, Poly): return d == 0
        d = s.simp(st, d)
        if not isinstance(d, Poly): return d == 0
        if s.tolerant: return False
        d = s.unify_under(st, d)
        if not isinstance(d, Poly): return d == 0
        if sort_of(d) == 'int':
            den = 1
            for c in d.t.values():
                if type(c) is Fraction: den = den * c.denominator // math.gcd(den, c.denominator)
            if den != 1: d = P.mkpoly({m: int(c * den) for m, c in d.t.items()})
            return s.prove(st, c_eq(d))
        return False

    simp_memo = set()
    def simp(s, st, p):
        """resolve ite atoms by the path condition"""
        for _ in range(20):
            if not isinstance(p, Poly): return p
            at = None
            for m in p.t:
                for a in m:
                    if ATOMS[a].kind == 'ite' or ATOMS[a].kind == 'app' and ATOMS[a].data[0] in ('max', 'min') or ATOMS[a].kind == 'sum' and has_ite(ATOMS[a]): at = ATOMS[a]; break
                if at: break
            if at is None: return p
            todo = {}
            for m in p.t:
                for a in m:
                    x = ATOMS[a]
                    if x.kind == 'ite' and a not in todo:
                        d = s.decide(st, x.data[0])
                        if d is not None: todo[a] = x.data[1] if d else x.data[2]
                        elif x.data[0][0] in ('and', 'or') and not s.tolerant:
                            # drop the parts the path condition settles
                            f = c_and if x.data[0][0] == 'and' else c_or
                            c2 = f(*[y if s.decide(st, y) is None else s.decide(st, y) for y in x.data[0][1]])
                            if c2 != x.data[0]: todo[a] = ite(c2, x.data[1], x.data[2])
                    elif x.kind == 'sum' and a not in todo and not s.tolerant and has_ite(x) and (a, tuple(st.pc)) not in s.simp_memo:
                        y = st.fork(); b = avar(P.bvar(x.data[2]))
                        y.add(c_le(pneg(b))); y.add(c_lt(psub(b, x.data[0])))
                        nb = s.simp(y, x.data[1]) if False not in y.pc else x.data[1]
                        r = point_out(x.data[0], nb, P.bvar(x.data[2]))
                        if r is not None: todo[a] = r
                        elif nb != x.data[1]: todo[a] = P.psum_body(x.data[0], nb, P.bvar(x.data[2]))
                        else: s.simp_memo.add((a, tuple(st.pc)))
                    elif x.kind == 'app' and x.data[0] in ('max', 'min') and len(x.data[1]) == 2 and a not in todo:
                        u, v = x.data[1] if x.data[0] == 'max' else x.data[1][::-1]
                        if s.decide(st, c_not(c_rlt(psub(v, u)))): todo[a] = v
                        elif s.decide(st, c_not(c_rlt(psub(u, v)))): todo[a] = u
            if not todo: return p
            p = s.subst_any(p, todo)
        return p

    def subst_any(s, p, todo):
        r = 0
        for m, c in p.t.items():
            x = c
            for a in m: x = pmul(x, todo[a] if a in todo else avar(ATOMS[a]))
            r = padd(r, x)
        return r

    def fix_divs(s, st, d):
        """quotients the path condition determines"""
        divs = [a for a in s.prover.collect([d]).values() if a.kind == 'div']
        divs.sort(key=lambda a: a.id)
        for a in divs:
            if s.prover.sat(list(st.pc)) != 'sat': break
            v, q = s.prover.mval(a.data[0]), s.prover.mval(a.data[1])
            v = v // q if v is not None and q else None
            if v is not None and s.prove(st, c_eq(psub(avar(a), v)), 2000):
                d = s.replace_atom(d, a, v)
                if not isinstance(d, Poly): return d
        return d

    def unify_under(s, st, d):
        """use equalities implied by the path condition between atoms of the same shape"""
        d = s.fix_divs(st, d)
        if not isinstance(d, Poly): return d
        # folds whose counts differ by a constant: unfold the longer one
        for _ in range(4):
            fs = [a for a in s.prover.collect([d]).values() if a.kind == 'app' and a.data[0].startswith('fold') and isinstance(a.data[1][0], Poly)]
            done = True
            for a in fs:
                for b in fs:
                    r = s.shifted_extremum(st, a, b)
                    if r is not None: d = s.replace_atom(d, a, r); done = False; break
                    if a is b or a.data[0] != b.data[0] or a.data[1][1] != b.data[1][1]: continue
                    e = psub(a.data[1][0], b.data[1][0])
                    if type(e) is int and 0 < e <= 4 and s.prove(st, c_le(pneg(b.data[1][0])), 2000):
                        body = BODY[int(a.data[0][4:])]; r = avar(b)
                        for i in range(e): r = fold_step1(body, r, padd(b.data[1][0], i))
                        d = s.replace_atom(d, a, r); done = False; break
                if not done: break
            if done: break
            if not isinstance(d, Poly): return d
            d = s.simp(st, d)
            if not isinstance(d, Poly): return d
        # variables the path condition pins to their lower bound
        pin = {}
        for c in st.pc:
            if c is not False and c[0] == 'le' and len([m for m in c[1].t if m]) == 1:
                for m, co in c[1].t.items():
                    if len(m) == 1 and co == 1 and ATOMS[m[0]].kind == 'v' and m[0] in d.deps and ATOMS[m[0]].lo is not None and -c[1].t.get((), 0) == ATOMS[m[0]].lo: pin[m[0]] = ATOMS[m[0]].lo
        if pin:
            d = subst(d, pin)
            if not isinstance(d, Poly): return d
        # sums over shifted ranges: SUM[b<n] f(b+1) = SUM[b<n] f(b) + f(n) - f(0)
        sums = [ATOMS[a] for m in d.t for a in m if ATOMS[a].kind == 'sum']
        for x in sums:
            for y in sums:
                if x is y or x.data[0] != y.data[0] or x.data[2] != y.data[2] or not isinstance(d, Poly): continue
                b = P.bvar(x.data[2]); f = x.data[1]
                if isinstance(f, Poly) and subst(f, {b.id: padd(avar(b), 1)}) == y.data[1] and s.prove(st, c_le(pneg(x.data[0])), 2000):
                    d = s.replace_atom(d, y, padd(avar(x), psub(subst(f, {b.id: x.data[0]}), subst(f, {b.id: 0}))))
        if not isinstance(d, Poly): return d
        # empty (or constant length) sums and folds
        tried = set()
        for a in s.nested_atoms(d):
            if a.kind == 'sum' or (a.kind == 'app' and a.name.startswith('fold')):
                cnt = a.data[0] if a.kind == 'sum' else a.data[1][0]
                if not isinstance(cnt, Poly): continue
                for x in cnt.deps:
                    if x in tried or ATOMS[x].kind != 'v' or not isinstance(d, Poly) or x not in d.deps: continue
                    tried.add(x)
                    if s.prover.sat(list(st.pc)) != 'sat': break
                    v = s.prover.mval(avar(ATOMS[x]))
                    if v is not None and v <= 64 and s.prove(st, c_eq(psub(avar(ATOMS[x]), v)), 2000): d = subst(d, {x: v})
        # equalities directly usable as substitutions (eliminate one variable each): v == expr
        eqs = [c[1] for c in st.pc if c is not False and c[0] == 'eq']; done = {}
        for i in range(len(eqs)):
            p = eqs[i]
            for m in done.values():
                if isinstance(p, Poly): p = subst(p, m)
            if not isinstance(p, Poly) or not isinstance(d, Poly): continue
            m = s.solve_var(p, d.deps) or s.solve_var(p, p.deps)
            if m: d = subst(d, m); done[i] = m
        for _ in range(8):
            if not isinstance(d, Poly): return d
            ch = False
            # pairs of index variables
            vs = sorted(x for x in d.deps if ATOMS[x].sort == 'int')
            for i in range(len(vs)):
                for l in range(i):
                    e = c_eq(psub(avar(ATOMS[vs[i]]), avar(ATOMS[vs[l]])))
                    if s.prove(st, e, 2000):
                        d = subst(d, {vs[i]: avar(ATOMS[vs[l]])}); ch = True; break
                if ch: break
            if ch: continue
            # integer cells proven equal (table entries)
            cells = s.int_cells(d)
            for i in range(len(cells)):
                for l in range(i):
                    a, b = cells[i], cells[l]
                    if a.data[0] == b.data[0] and a.data[2] == b.data[2]:
                        if s.prove(st, c_eq(psub(a.data[1], b.data[1])), 2000):
                            d = s.replace_atom(d, a, avar(b)); ch = True; break
                if ch: break
            if not ch: break
        return d

    def shifted_extremum(s, st, a, b):
        """extremum over v0, f(0) .. f(n) = extremum of f(0) and the extremum over v0, g(0) .. g(n-1) if g(i) = f(i + 1)"""
        if a is b or a.data[0] == b.data[0] or a.data[1][1] != b.data[1][1]: return None
        e = psub(a.data[1][0], b.data[1][0])
        if type(e) is not int or not 0 < e <= 2: return None
        x, y = extremum_body(BODY[int(a.data[0][4:])]), extremum_body(BODY[int(b.data[0][4:])])
        if x is None or y is None or x[0] != y[0]: return None
        B = P.var('$it', 'int'); bid = the_atom(B).id
        if subst(x[1], {bid: padd(B, e)}) != y[1] or not s.prove(st, c_le(pneg(b.data[1][0])), 2000): return None
        r = avar(b)
        for i in range(e): r = fold_step1(extremum_of(*x), r, i)
        return r

    def nested_ites(s, d):
        """ite atoms in arguments and indices (outside the bodies of sums)"""
        if not isinstance(d, Poly): return []
        return sorted([a for a in s.prover.collect([d]).values() if a.kind == 'ite'], key=lambda a: a.id)

    def resolve_nested(s, st, d):
        """decide those by the path condition"""
        for _ in range(20):
            for a in s.nested_ites(d):
                q = s.decide(st, a.data[0])
                if q is None: continue
                d = s.replace_atom(d, a, a.data[1] if q else a.data[2]); break
            else: return d
        return d

    def nested_atoms(s, d):
        out = []; seen = set(); work = [d]
        while work:
            for i, a in s.prover.collect([work.pop()]).items():
                if i in seen: continue
                seen.add(i); out.append(a)
                if a.kind == 'sum': work.append(a.data[1])
        return out

    def int_cells(s, d):
        seen = s.prover.collect([d])
        return [a for a in seen.values() if a.kind == 'cell' and a.sort == 'int']

    def replace_atom(s, p, atom, val):
        """replace an arbitrary atom everywhere (also nested)"""
        if not isinstance(p, Poly): return p
        r = 0
        for m, c in p.t.items():
            x = c
            for a in m:
                at = ATOMS[a]
                if at is atom: x = pmul(x, val)
                else: x = pmul(x, s._repl_in(at, atom, val))
            r = padd(r, x)
        return r
    def _repl_in(s, at, atom, val):
        k = at.kind
        R = lambda q: s.replace_atom(q, atom, val)
        if k == 'cell': return cell(at.data[0], R(at.data[1]), at.data[2], at.sort, at.lo, at.hi)
        if k == 'app': return P.rebuild_app(at, [R(x) for x in at.data[1]])
        if k == 'inv': return pinv(R(at.data[0]))
        if k == 'ite': return ite(P.cmap(at.data[0], R), R(at.data[1]), R(at.data[2]))
        if k == 'sum': return P.psum_body(R(at.data[0]), at.data[1], P.bvar(at.data[2]))
        if k == 'div': return idiv(R(at.data[0]), R(at.data[1]))
        return avar(at)

    def solve_var(s, p, deps):
        """p == 0 with a variable of unit coefficient occurring in deps -> {id: expr}"""
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and c in (1, -1) and ATOMS[m[0]].kind == 'v' and m[0] in deps:
                r = Poly({x: y for x, y in p.t.items() if x != m}) if len(p.t) > 1 else 0
                if isinstance(r, Poly) and len(r.t) == 1 and () in r.t: r = r.t[()]
                if m[0] in depsof(r): continue
                e = pneg(r) if c == 1 else r
                if best is None or m[0] > best[0]: best = (m[0], e)
        if best: return {best[0]: best[1]}
        return None

    def same_layers(s, st, a, b):
        a = s.coalesce(a); b = s.coalesce(b)
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if type(x) is not type(y): return False
            if type(x) is SymLayer:
                if not (x.sym == y.sym or s.peq(st, x.sym, y.sym)): return False
                if set(x.cells) != set(y.cells): return False
                for c, v in x.cells.items():
                    w = y.cells[c]
                    if v[0] != w[0] or v[2] != w[2] or v[3] != w[3]: return False
                    if not s.veq(st, v[1], w[1]): return False
            elif type(x) is ForAllLayer:
                if not s.peq(st, x.K, y.K) or len(x.alts) != len(y.alts): return False
                m = {y.j.id: avar(x.j)}
                for (g1, l1), (g2, l2) in zip(x.alts, y.alts):
                    if g1 != csubst(g2, m): return False
                    if not s.same_layers(st, l1, [s.lsubst(q, m) for q in l2]): return False
            elif type(x) is AccLayer:
                return False
            elif type(x) is FreeLayer:
                if x.tag != y.tag: return False
            else:
                if not (s.peq(st, x.start, y.start) and s.peq(st, x.len, y.len) and x.fill == y.fill): return False
                if x.src is not None:
                    if y.src is None or x.src.obj is not y.src.obj or not s.peq(st, x.sstart, y.sstart): return False
        return True

    def coalesce(s, ls):
        return [l for l in ls if not (type(l) is SymLayer and not l.cells)]

    def veq(s, st, a, b):
        if a is b: return True
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and s.peq(st, a.off, b.off)
        if a is UNDEF or b is UNDEF: return a is b
        if type(a) is tuple or type(b) is tuple or type(a) is bool or type(b) is bool: return a == b
        if isinstance(a, Raw) or isinstance(b, Raw): return False
        if isinstance(a, Res): a = a.p
        if isinstance(b, Res): b = b.p
        return s.peq(st, a, b)

    def solve_exit(s, st, ka, k):
        """replace the loop counter by its exit value when the path condition determines it"""
        best = None
        cands = []
        for c in st.pc:
            if c is False: continue
            for q in ([c] if c[0] != 'or' else []):
                if q[0] in ('eq', 'le'):
                    m = s.solve_var(q[1], {ka.id})
                    if m: cands.append(m[ka.id])
        for e in cands:
            if ka.id in depsof(e): continue
            if s.prove(st, c_eq(psub(k, e))):
                best = e; break
        if best is None: return
        if isinstance(best, Poly) and not s.tolerant: best = s.fix_divs(st, best)
        m = {ka.id: best}
        if not s.tolerant:
            # quotients (wrapped index arithmetic) that have a definite value there
            syms = [l.sym for mo in st.mem.values() for l in mo.layers if type(l) is SymLayer and ka.id in depsof(l.sym)]
            for v in st.frames[-1].regs.values() if st.frames else ():
                v = v.off if isinstance(v, Ptr) else v.p if isinstance(v, Res) else v
                if isinstance(v, Poly) and ka.id in v.deps: syms.append(v)
            for at in s.prover.collect(syms).values():
                if at.kind == 'div' and ka.id in at.deps:
                    r = subst(avar(at), m); r2 = s.fix_divs(st, r) if isinstance(r, Poly) else r
                    if r2 != r: m[at.id] = r2
        s.state_subst(st, m)

    def state_subst(s, st, m):
        for fr in st.frames:
            for r, v in fr.regs.items():
                fr.regs[r] = s.vsubst(v, m)
        for o, mo in list(st.mem.items()):
            if mo.layers:
                st.mem[o] = MemO(o, [s.lsubst(l, m) if l is not BARRIER else l for l in mo.layers], st.tok)
        pc = []
        for c in st.pc:
            c2 = csubst(c, m) if c is not False else c
            if c2 is True: continue
            if c2 not in pc: pc.append(c2)
        st.pc = tuple(pc)
        acc = {}
        for (o, sym, w), (a, b) in st.acc.items():
            sy, dc = split(subst(sym, m))
            kk = (o, sy, w)
            q = acc.get(kk)
            a += dc; b += dc
            acc[kk] = (a, b) if q is None else (min(a, q[0]), max(b, q[1]))
        st.acc = acc
        for g, v in list(st.ghost.items()):
            if g.startswith('$'): continue
            st.ghost[g] = s.vsubst(v, m)

    def guess_unresolved(s, st0, fr0, h, unresolved, sub, k, ka, vals, latches, hint, fset):
        for name, v0, fv, nexts, ty in unresolved:
            if isinstance(fv, BV):
                r = bvrec().hint(s, st0, fr0, h, name, v0, fv, nexts, ty, sub, k, vals)
                if r is None: raise Undecided('no invariant for the bit vector %s %r -> %r' % (name, v0, nexts))
                vals[name] = r; continue
            # max/min style or user supplied fold
            if hint is not None:
                r = hint(s, st0, fr0, h, name, v0, fv, nexts, ty, sub, k, vals)
                if r is not None:
                    vals[name] = r; continue
            if len(nexts) == 1 and v0 in (0, 1) and type(v0) is int and isinstance(fv, Poly):
                # exclusive or of single bits: the parity of their number
                g = nexts[0].p if isinstance(nexts[0], Res) else nexts[0]
                fa = the_atom(fv); g = subst(g, sub) if isinstance(g, Poly) else g
                x = the_atom(g) if isinstance(g, Poly) else None
                if fa is not None and x is not None and x.kind == 'app' and x.data[0][:3] == 'xor' and avar(fa) in x.data[1]:
                    e = [y for y in x.data[1] if y != avar(fa)]
                    if len(e) == 1 and not (depsof(e[0]) & fset) and P.rngm(e[0]) == (0, 1):
                        vals[name] = umod(padd(v0, psum(k, lambda i: subst(e[0], {ka.id: i}))), 2)
                        continue
            if not isinstance(fv, (Ptr, Vec)) and all(isinstance(n, (Poly, int, Fraction)) for n in nexts):
                # generic fold: phi(k+1) = F(phi(k), k), uninterpreted with canonical step
                fa = the_atom(fv)
                if fa is not None:
                    # several latch paths: one conditional step (guards may look at the loop value itself)
                    g = subst(nexts[-1], sub)
                    for x, o in zip(nexts[:-1], latches[:-1]):
                        g = ite(c_and(*[csubst(c, sub) for c in o.pc if c not in st0.pc and fa.id in cdeps(c)]), subst(x, sub), g)
                    g = fold_step(g, avar(fa))
                    if not (depsof(g) & fset):
                        # the next value does not depend on the loop state: one iteration behind
                        w0 = subst(g, {ka.id: -1})
                        prevv = subst(g, {ka.id: psub(k, 1)})
                        vals[name] = prevv if psub(w0, v0) == 0 else ite(c_eq(k), v0, prevv)
                        continue
                    other = (depsof(g) & fset) - {fa.id}
                    if not other:
                        vals[name] = mkfold(k, v0, g, fa, ka)
                        continue
            raise Undecided('no invariant for %s (%r -> %r) in %s/%s' % (name, fv, [str(x)[:200] for x in nexts], fr0.fn.name, h))

    def check_acc(s, st, where=''):
        if not s.check_bounds: return
        for (o, sym, w), (lo, hi) in st.acc.items():
            if o.size is None: continue
            s.counters['bounds'] += 1
            c = c_and(c_le(pneg(padd(sym, lo))), c_le(psub(padd(sym, hi), o.size)))
            if c is True:
                continue
            if not s.prove(st, c):
                # counterexample feasible?
                s.bounds_fail.append((o.name, show(padd(sym, lo)), show(padd(sym, hi)), show(o.size), w))
                raise Refuted('access outside %s: bytes [%s, %s) of size %s' % (o.name, show(padd(sym, lo)), show(padd(sym, hi)), show(o.size)))

def fold_step(g, A):
    """canonical form of the step  e > A ? e : A  in all its spellings"""
    from .ops import fite
    if not isinstance(g, Poly): return g
    at = the_atom(g)
    if at is None or at.kind != 'ite': return g
    c, x, y = at.data
    if at.sort == 'int' and A in (x, y):
        e = y if x == A else x
        if c in (c_lt(psub(e, A)), c_le(psub(e, A))): return imm('max' if x == A else 'min', A, e)
        if c in (c_lt(psub(A, e)), c_le(psub(A, e))): return imm('min' if x == A else 'max', A, e)
        return g
    return fite(*at.data)
def imm(kind, A, e):
    return ite(c_lt(psub(e, A)), A, e) if kind == 'max' else ite(c_lt(psub(e, A)), e, A)

def mkfold(k, v0, g, fa, ka):
    A = P.var('$acc', sort_of(avar(fa)) if fa.sort == 'real' else 'int')
    B = P.var('$it', 'int', lo=0)
    body = subst(g, {fa.id: A, ka.id: B})
    return fold_at(k, v0, body)

def fold_step1(body, r, i):
    sort = 'real' if sort_of(body) == 'real' else 'int'
    return subst(body, {the_atom(P.var('$acc', sort)).id: r, the_atom(P.var('$it', 'int')).id: i})
def extremum_body(body):
    """body is max(A, e) or min(A, e) with e not depending on the accumulator: (kind, e)"""
    at = the_atom(body) if isinstance(body, Poly) else None
    if at is None: return None
    if at.kind == 'app' and at.data[0] in ('max', 'min') and len(at.data[1]) == 2:
        A = P.var('$acc', 'real'); x = [y for y in at.data[1] if y != A]
        if len(x) == 1 and the_atom(A).id not in depsof(x[0]): return at.data[0], x[0]
    if at.kind == 'ite' and at.sort == 'int':
        A = P.var('$acc', 'int')
        x = [y for y in at.data[1:] if y != A]
        if len(x) == 1 and the_atom(A).id not in depsof(x[0]):
            for kind in ('max', 'min'):
                if imm(kind, A, x[0]) == body: return kind, x[0]
    return None
def extremum_of(kind, e):
    if sort_of(e) == 'int': return imm(kind, P.var('$acc', 'int'), e)
    from .ops import minmax
    return minmax(kind, P.var('$acc', 'real'), e)
def fold_at(k, v0, body):
    sort = 'real' if sort_of(body) == 'real' else 'int'
    if not isinstance(k, Poly):
        r = v0
        A = the_atom(P.var('$acc', sort)).id; B = the_atom(P.var('$it', 'int')).id
        for i in range(int(k)): r = subst(body, {A: r, B: i})
        return r
    c0 = k.t.get((), 0)
    if c0 > 0:
        A = the_atom(P.var('$acc', sort)).id; B = the_atom(P.var('$it', 'int')).id
        kb = psub(k, c0)
        r = fold_at(kb, v0, body)
        for i in range(c0): r = subst(body, {A: r, B: padd(kb, i)})
        return r
    x = extremum_body(body)
    if x is not None:
        # the order in which the values are met does not matter: count upwards
        B = P.var('$it', 'int'); bid = the_atom(B).id
        e2 = subst(x[1], {bid: psub(psub(k, 1), B)})
        if depsof(e2) < depsof(x[1]): body = extremum_of(x[0], e2)
    hidden = FOLDS.get(body)
    if hidden is None:
        hidden = FOLDS[body] = len(FOLDS)
        BODY[hidden] = body
    lo = hi = None
    if sort == 'int':
        # a fold that keeps the old value or takes a new one stays in the hull of both ranges (induction on the count)
        at = the_atom(body); A = P.var('$acc', 'int')
        if at is not None and at.kind == 'ite' and A in at.data[1:]:
            e = at.data[1] if at.data[2] == A else at.data[2]
            (l1, h1), (l2, h2) = rng(v0), rng(e)
            if None not in (l1, l2): lo = min(l1, l2)
            if None not in (h1, h2): hi = max(h1, h2)
    return app('fold%d' % hidden, (k, v0), sort, lo, hi)

FOLDS = {}
BODY = {}
class _FR(dict):
    def get(s, n, d=None):
        if n.startswith('fold'):
            b = BODY[int(n[4:])]
            return lambda k, v0: fold_at(k, v0, b)
        return dict.get(s, n, d)
P.REBUILD = _FR(P.REBUILD)

def fold_mm(kind, n, v0, f):
    """max/min of v0, f(0) .. f(n-1)"""
    B = P.var('$it', 'int', lo=0); e = f(B)
    if sort_of(e) == 'int':
        A = P.var('$acc', 'int')
        return fold_at(n, v0, imm(kind, A, e))
    A = P.var('$acc', 'real')
    from .ops import minmax
    return fold_at(n, v0, minmax(kind, A, f(B)))

class _Barrier:
    def __repr__(s): return 'BARRIER'
BARRIER = _Barrier()
DEAD = object()
def point_out(n, body, bv):
    """Sum_{b<n} F(ite(b == e, x, y)) = Sum_{b<n} F(y) + ite(0 <= e < n, F(x)(e) - F(y)(e), 0)"""
    if not isinstance(body, Poly): return None
    for m in body.t:
        for i in m:
            a = ATOMS[i]
            if a.kind != 'ite' or a.data[0][0] != 'eq': continue
            q = a.data[0][1]; k = q.t.get((bv.id,))
            if k not in (1, -1): continue
            rest = psub(q, pscale(avar(bv), k))
            if bv.id in depsof(rest): continue
            e = pscale(rest, -k)
            f = [subst_top(body, i, v) for v in a.data[1:]]
            d = subst(psub(f[0], f[1]), {bv.id: e})
            return padd(psum_body(n, f[1], bv), ite(c_and(c_le(pneg(e)), c_lt(psub(e, n))), d, 0))
    return None
def subst_top(p, i, v):
    r = 0
    for m, c in terms(p).items():
        x = c
        for a in m: x = pmul(x, v if a == i else avar(ATOMS[a]))
        r = padd(r, x)
    return r
def gap_disjoint(d, c, nb, y):
    """the bytes [d+c, +nb) miss every cell of y, by the residue of d modulo the common stride"""
    if not isinstance(d, Poly): return False
    t = terms(d); g = 0
    for m, k in t.items():
        if m != ():
            if type(k) is not int: return False
            g = math.gcd(g, k)
    if g <= 1: return False
    r = (t.get((), 0) + c) % g
    for cc, v in y.cells.items():
        # cell [cc, cc+v0) modulo g against [r, r+nb)
        if (r - cc) % g < v[0] or (cc - r) % g < nb: return False
    return True
_HI = {}
def has_ite(at):
    r = _HI.get(at.id)
    if r is None:
        r = _HI[at.id] = any(ATOMS[a].kind == 'ite' or ATOMS[a].kind == 'sum' and has_ite(ATOMS[a]) for m in terms(at.data[1]) for a in m)
    return r
class CallThrough:
    def __init__(s, name, args): s.name = name; s.args = args

# make rd skip barriers
_old_rd = Exec.rd
def _rd(s, st, obj, layers, li, sym, c, nb, kind):
    if BARRIER in layers:
        layers2 = []
        n = 0
        for i, l in enumerate(layers):
            if l is BARRIER: continue
            layers2.append(l)
            if i <= li: n += 1
        return _old_rd(s, st, obj, layers2, n - 1, sym, c, nb, kind)
    return _old_rd(s, st, obj, layers, li, sym, c, nb, kind)
Exec.rd = _rd

def _run_top(s, work, region=None):
    if region is None:
        s.region_stack.append([])
        try:
            d = _run_loop(s, work, None)
            return d + s.region_stack[-1]
        finally: s.region_stack.pop()
    return _run_loop(s, work, region)
_run_loop = Exec.run
Exec.run = _run_top

from .ops import SIMPLE
