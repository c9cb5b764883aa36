"""Instruction semantics (value producing, non control)."""
from fractions import Fraction
from .poly import *
from . import poly as P
from .ir import INT, FLOAT, DOUBLE, PTR, CZero, CUndef
from . import exec as X

def _X(): return X

def bin_fp(op, a, b):
    if isinstance(a, X.Raw) or isinstance(b, X.Raw) or a is X.UNDEF or b is X.UNDEF: raise X.Undecided('fp op on %r %r' % (a, b))
    if isinstance(a, float) or isinstance(b, float): raise X.Undecided('inf/nan arithmetic')
    if op == 'fadd': return padd(a, b)
    if op == 'fsub': return psub(a, b)
    if op == 'fmul': return pmul(a, b)
    if op == 'fdiv': return pmul(a, pinv(b))
    raise X.Undecided(op)

def fneg(v):
    if v is X.UNDEF: return v
    return pneg(v)

def bin_int(ex, st, op, w, a, b, flags):
    UND = X.UNDEF
    if a is UND or b is UND:
        if not ex.tolerant or w == 1: raise X.Undecided('undef operand of %s' % op)
        return P.fresh('guess')
    if w == 1:
        a = ex.cond(st, a); b = ex.cond(st, b)
        if op == 'and' or op == 'mul': return c_and(a, b)
        if op == 'or': return c_or(a, b)
        if op in ('xor', 'add', 'sub'):
            if b is True: return c_not(a)
            if b is False: return a
            if a is True: return c_not(b)
            if a is False: return b
            return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        raise X.Undecided('i1 ' + op)
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return const_int(ex, op, w, a, b)
    if ta is X.Ptr or tb is X.Ptr:
        return ptr_int(ex, st, op, w, a, b)
    if ta is X.Raw or tb is X.Raw:
        r = raw_bits(ex, op, w, a, b)
        if r is not None: return r
        if ta is X.Raw:
            a = ex.raw_to_int(a, w)
        if tb is X.Raw: b = ex.raw_to_int(b, w)
        if a is None or b is None: raise X.Undecided('bit operation on float bytes')
        ta, tb = type(a), type(b)
    if ta is X.BV or tb is X.BV: return bv_op(ex, st, op, w, a, b)
    if ta in (tuple, bool): a = ite(a, 1, 0)
    if tb in (tuple, bool): b = ite(b, 1, 0)
    pa = a.p if isinstance(a, X.Res) else a
    pb = b.p if isinstance(b, X.Res) else b
    if op in ('add', 'sub', 'mul'):
        if 'nsw' in flags and not isinstance(a, X.Res) and not isinstance(b, X.Res):
            r = padd(pa, pb) if op == 'add' else psub(pa, pb) if op == 'sub' else pmul(pa, pb)
            if ex.check_nsw: ex.ovf(st, r, w)
            return r
        if 'nsw' in flags:
            sa, sb = ex.signed(st, a, w), ex.signed(st, b, w)
            r = padd(sa, sb) if op == 'add' else psub(sa, sb) if op == 'sub' else pmul(sa, sb)
            if ex.check_nsw: ex.ovf(st, r, w)
            return r
        r = padd(pa, pb) if op == 'add' else psub(pa, pb) if op == 'sub' else pmul(pa, pb)
        return ex.mk(r, w)
    if op == 'shl':
        if tb is int:
            if 'nsw' in flags: return pscale(ex.signed(st, a, w), 1 << b)
            return ex.mk(pscale(pa, 1 << b), w)
        sb = ex.unsigned(st, b, w)
        if ta is int and isinstance(sb, Poly):
            lo, hi = rng(sb)
            if lo is not None and hi is not None and hi - lo <= 64 and hi < w:
                r = pscale(1, a << hi)
                for v in range(hi - 1, lo - 1, -1): r = ite(c_eq(psub(sb, v)), a << v, r)
                return ex.mk(r, w)
        lo, hi = rng(sb)
        if lo is not None and hi is not None and hi - lo <= 64 and hi < w:
            r = pscale(pa, 1 << hi)
            for v in range(hi - 1, lo - 1, -1): r = ite(c_eq(psub(sb, v)), pscale(pa, 1 << v), r)
            return ex.mk(r, w)
        raise X.Undecided('shl by variable')
    if op in ('lshr', 'ashr'):
        if tb is not int:
            sb = ex.unsigned(st, b, w); lo, hi = rng(sb)
            if lo is None or hi is None or hi - lo > 64 or hi >= w: raise X.Undecided('shift by variable')
            u = ex.unsigned(st, a, w) if op == 'lshr' else ex.signed(st, a, w)
            r = idiv(u, 1 << hi)
            for v in range(hi - 1, lo - 1, -1): r = ite(c_eq(psub(sb, v)), idiv(u, 1 << v), r)
            return ex.mk(r, w)
        if op == 'lshr':
            u = ex.unsigned(st, a, w)
            return ex.mk(idiv(u, 1 << b), w) if b == 0 else idiv(u, 1 << b)
        return idiv(ex.signed(st, a, w), 1 << b)
    if op == 'and':
        if ta is int: a, b, pa, pb, ta, tb = b, a, pb, pa, tb, ta
        if tb is int:
            m = b & ((1 << w) - 1)
            if m == 0: return 0
            if m == (1 << w) - 1: return a
            h = m.bit_length()
            if isinstance(pa, Poly) and not ex.tolerant and h > 16 and ((known_zero(pa, w) | m) + 1) % (1 << h) == 0 and ex.prove(st, c_le(pneg(pa))) and ex.prove(st, c_le(psub(pa, (1 << h) - 1))): return a
            if m & (m + 1) == 0:                       # low mask
                r = umod(pa, m + 1)
                return r if isinstance(r, Poly) else ex.wrapc(r, w)
            inv = ((1 << w) - 1) ^ m
            if inv & (inv + 1) == 0:                    # high mask
                return ex.mk(psub(pa, umod(pa, inv + 1)), w)
            # general mask: contiguous field(s)
            return ex.mk(bits_of(ex, pa, m, w), w)
    if op == 'or':
        if 'disjoint' in flags: return ex.mk(padd(pa, pb), w)
        # disjointness by known zero bits
        ka, kb = known_zero(pa, w), known_zero(pb, w)
        if (ka | kb) == (1 << w) - 1: return ex.mk(padd(pa, pb), w)
        if tb is int or ta is int:
            if ta is int: a, b, pa, pb = b, a, pb, pa
            m = pb & ((1 << w) - 1)
            return ex.mk(padd(psub(pa, bits_of(ex, pa, m, w)), m), w)
        ua, ub = ex.unsigned(st, a, w), ex.unsigned(st, b, w)
        return bitapp(ex, 'or', ua, ub, w)
    if op == 'xor':
        if ta is int: a, b, pa, pb, ta, tb = b, a, pb, pa, tb, ta
        if tb is int:
            if b == -1: return ex.mk(psub(-1, pa), w) if isinstance(a, X.Res) else psub(-1, pa)
            m = b & ((1 << w) - 1)
            x = bits_of(ex, pa, m, w)
            return ex.mk(psub(padd(pa, m), pscale(x, 2)), w)
        if pa == pb: return 0
        if (known_zero(pa, w) | known_zero(pb, w)) == (1 << w) - 1: return ex.mk(padd(pa, pb), w)
        ua, ub = ex.unsigned(st, a, w), ex.unsigned(st, b, w)
        return bitapp(ex, 'xor', ua, ub, w)
    if op == 'and':
        ua, ub = ex.unsigned(st, a, w), ex.unsigned(st, b, w)
        return bitapp(ex, 'and', ua, ub, w)
    if op in ('sdiv', 'srem'):
        sa, sb = ex.signed(st, a, w), ex.signed(st, b, w)
        if not isinstance(sb, Poly) and sb < 0: raise X.Undecided('negative divisor')
        if isinstance(sb, Poly):
            lo, hi = rng(sb)
            if not (lo is not None and lo > 0) and not ex.prove(st, c_le(psub(1, sb))):
                raise X.Undecided('divisor sign')
        neg = rng(sa)[0]
        if neg is None or neg < 0:
            if not ex.tolerant and not ex.prove(st, c_le(pneg(sa))):
                if ex.prove(st, c_le(sa)):
                    q = pneg(idiv(pneg(sa), sb))
                else:
                    q = ite(c_le(pneg(sa)), idiv(sa, sb), pneg(idiv(pneg(sa), sb)))
                return q if op == 'sdiv' else psub(sa, pmul(q, sb))
        q = ex.idiv_(st, sa, sb)
        return q if op == 'sdiv' else psub(sa, pmul(q, sb))
    if op in ('udiv', 'urem'):
        sa, sb = ex.unsigned(st, a, w), ex.unsigned(st, b, w)
        if isinstance(sb, Poly) and not ex.tolerant and not (rng(sb)[0] or 0) > 0 and not ex.prove(st, c_le(psub(1, sb))): raise X.Undecided('divisor zero?')
        q = ex.idiv_(st, sa, sb)
        r = q if op == 'udiv' else psub(sa, pmul(q, sb))
        return ex.mk(r, w)
    raise X.Undecided('int op ' + op)

def idiv_(ex, st, a, b):
    """floor division with simplification a = b*Q + R, 0 <= R < b proved under the path condition"""
    r = idiv(a, b)
    if ex.tolerant and not ex.tol_smt: return r
    if not isinstance(r, Poly): return r
    # look at the div atom produced
    for m, c in r.t.items():
        if len(m) == 1 and ATOMS[m[0]].kind == 'div':
            at = ATOMS[m[0]]
            p, q = at.data
            lo, hi = rng(p)
            if isinstance(p, Poly) and (isinstance(q, Poly)) and ex.prove(st, c_and(c_le(pneg(p)), c_lt(psub(p, q))), 3000):
                return padd(r, pscale(avar(at), -c))
    return r
X.Exec.idiv_ = lambda s, st, a, b: idiv_(s, st, a, b)
X.Exec.check_nsw = False

def ovf(ex, st, r, w):
    if not isinstance(r, Poly): return
    lo, hi = rng(r); h = 1 << (w - 1)
    if lo is not None and hi is not None and lo >= -h and hi < h: return
    if ex.tolerant: return
    if not ex.prove(st, c_and(c_le(psub(-h, r)), c_le(psub(r, h - 1)))): raise X.Undecided('possible signed overflow: %s' % show(r, 200))
X.Exec.ovf = lambda s, st, r, w: ovf(s, st, r, w)

def known_zero(p, w):
    """bit mask of bits known to be zero (from range and divisibility)"""
    full = (1 << w) - 1
    if not isinstance(p, Poly): return full ^ (p & full)
    z = 0
    lo, hi = rngm(p)
    if lo is not None and hi is not None and lo >= 0:
        z |= full ^ ((1 << hi.bit_length()) - 1)
    c0 = p.t.get((), 0)
    g = content(psub(p, c0))
    tz = (g & -g).bit_length() - 1 if g else w
    z |= ((1 << tz) - 1) & ~(c0 % (1 << tz))
    return z & full

def bits_of(ex, p, m, w):
    """value of p & m, by contiguous fields"""
    r = 0; i = 0
    while m >> i:
        if (m >> i) & 1:
            k = i
            while (m >> k) & 1: k += 1
            # bits [i,k)
            f = umod(idiv(p, 1 << i) if i else p, 1 << (k - i))
            r = padd(r, pscale(f, 1 << i)); i = k
        else: i += 1
    return r

def bitapp(ex, op, a, b, w):
    r = bitpoly(op, w, a, b)
    if not isinstance(r, Poly): return ex.wrapc(r, w)
    h = rng(r)[1]
    return r if w < 32 or h is not None and h < (1 << (w - 1)) else X.Res(r, w)
def bitpoly(op, w, a, b):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return const_int_u(op, a, b)
    if isinstance(a, Poly) and isinstance(b, Poly) and hash(a) > hash(b): a, b = b, a
    m = (1 << w) - 1
    la, ha = rngm(a); lb, hb = rngm(b)
    if None not in (la, ha, lb, hb) and la >= 0 and lb >= 0:
        m = min(m, (1 << int(max(ha, hb)).bit_length()) - 1)
        if m <= 1:
            if op == 'xor': return umod(padd(a, b), 2)
            f = c_and if op == 'and' else c_or
            return ite(f(c_not(c_eq(a)), c_not(c_eq(b))), 1, 0)
        if op == 'and': m = min(ha, hb)
    return app(op + str(w), (a, b), 'int', 0, m)
def const_int_u(op, a, b): return a & b if op == 'and' else a | b if op == 'or' else a ^ b
for _o in ('and', 'or', 'xor'):
    for _w in (8, 16, 32, 64): P.REBUILD['%s%d' % (_o, _w)] = (lambda o, w: lambda a, b: bitpoly(o, w, a, b))(_o, _w)

def const_int(ex, op, w, a, b):
    M = (1 << w) - 1
    ua, ub = a & M, b & M
    if op == 'add': r = a + b
    elif op == 'sub': r = a - b
    elif op == 'mul': r = a * b
    elif op == 'shl': r = ua << b
    elif op == 'lshr': r = ua >> b
    elif op == 'ashr': r = a >> b
    elif op == 'and': r = ua & ub
    elif op == 'or': r = ua | ub
    elif op == 'xor': r = ua ^ ub
    elif op == 'sdiv':
        if b == 0: raise X.Undecided('division by zero')
        r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    elif op == 'srem':
        if b == 0: raise X.Undecided('division by zero')
        r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
    elif op == 'udiv':
        if ub == 0: raise X.Undecided('division by zero')
        r = ua // ub
    elif op == 'urem': 
        if ub == 0: raise X.Undecided('division by zero')
        r = ua % ub
    else: raise X.Undecided(op)
    return ex.wrapc(r, w)

def ptr_int(ex, st, op, w, a, b):
    if isinstance(a, X.Ptr) and isinstance(b, X.Ptr):
        if op == 'sub':
            if a.obj is b.obj: return ex.mk(psub(a.off, b.off), w, True)
        raise X.Undecided('pointer arithmetic across objects')
    p, i, sw = (a, b, False) if isinstance(a, X.Ptr) else (b, a, True)
    if p.obj is None: return bin_int(ex, st, op, w, *( (p.off, i) if not sw else (i, p.off) ), ())
    ii = i.p if isinstance(i, X.Res) else i
    if op == 'add': return X.Ptr(p.obj, padd(p.off, ii))
    if op == 'sub' and not sw: return X.Ptr(p.obj, psub(p.off, ii))
    # alignment tests on addresses: use the symbolic base address
    base = ex.base_addr(p.obj)
    addr = padd(base, p.off)
    r = bin_int(ex, st, op, w, X.Res(addr, w) if not sw else i, i if not sw else X.Res(addr, w), ())
    rp = r.p if isinstance(r, X.Res) else r
    d = psub(rp, base)
    if the_atom_in(d, the_atom(base)) is False: return X.Ptr(p.obj, d)
    return r

def the_atom_in(p, at):
    """does the base atom occur linearly (outside other atoms) in p"""
    if not isinstance(p, Poly): return False
    for m in p.t:
        if at.id in m: return True
    return False

def base_addr(s, obj):
    al = getattr(obj, 'align', 1)
    a = P.var('base(%s)' % obj.name, 'int', lo=1, hi=(1 << 47))
    return a
X.Exec.base_addr = base_addr

def accum(xs):
    t = 0; r = []
    for x in xs: t += x; r.append(t)
    return r
def raw_bits(ex, op, w, a, b):
    """sign-bit tricks on float bytes with a constant mask"""
    if isinstance(a, X.Raw) and isinstance(b, X.Raw):
        if op != 'or' and op != 'xor' and op != 'add': return None
        cut = sorted({c for v in (a, b) for c in accum(p[0] for p in v.p)})
        out = []; ra, rb = list(a.p), list(b.p); at = 0
        for c in cut:
            x, ra = take(ra, c - at); y, rb = take(rb, c - at); at = c
            if len(x) != 1 or len(y) != 1: return None
            if x[0][2] == 'zero': out.append(y[0])
            elif y[0][2] == 'zero': out.append(x[0])
            else: return None
        return X.Raw(out)
    if op in ('lshr', 'shl') and isinstance(a, X.Raw) and type(b) is int and b % 8 == 0 and 0 < b < w:
        k = b // 8; n = w // 8
        if op == 'lshr': return X.Raw(list(take(a.p, k)[1]) + [(k, 0, 'zero', 0, k)])
        return X.Raw([(k, 0, 'zero', 0, k)] + list(take(a.p, n - k)[0]))
    if op in ('lshr', 'shl', 'ashr', 'sub', 'mul'): return None
    if type(a) is int: a, b = b, a
    if not isinstance(a, X.Raw) or type(b) is not int: return None
    out = []; sh = 0
    for nb, val, kind, sub, vnb in a.p:
        m = (b >> (8 * sh)) & ((1 << (8 * nb)) - 1)
        sh += nb
        full = (1 << (8 * nb)) - 1
        if kind in ('float', 'double') and sub == 0 and nb == vnb:
            sign = 1 << (8 * nb - 1)
            if op == 'xor':
                if m == 0: out.append((nb, val, kind, sub, vnb)); continue
                if m == sign: out.append((nb, pneg(val), kind, sub, vnb)); continue
            if op == 'and':
                if m == full: out.append((nb, val, kind, sub, vnb)); continue
                if m == 0: out.append((nb, 0, 'zero', 0, nb)); continue
                if m == full ^ sign: out.append((nb, app('fabs', (val,)), kind, sub, vnb)); continue
            if op == 'or' and m == 0: out.append((nb, val, kind, sub, vnb)); continue
            return None
        if m == 0 and op in ('xor', 'or'): out.append((nb, val, kind, sub, vnb)); continue
        if op == 'and' and m == full: out.append((nb, val, kind, sub, vnb)); continue
        if op == 'and' and m == 0: out.append((nb, 0, 'zero', 0, nb)); continue
        return None
    return X.Raw(out)

def bv_op(ex, st, op, w, a, b):
    import z3
    def cv(v):
        if isinstance(v, X.BV): return v.e
        return X.bvrec().of(ex, v, w)
    x, y = cv(a), cv(b)
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
         'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y)}[op]()
    r = z3.simplify(r)
    if z3.is_bv_value(r): return ex.wrapc(r.as_long(), w)
    return X.BV(r)

# ------------------------------------------------------------------ handlers
SIMPLE = {}
def H(*names):
    def d(f):
        for n in names: SIMPLE[n] = f
        return f
    return d

@H('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
def _(ex, st, fr, ins):
    t = ins.ty
    a = ex.val(fr, ins.a[0], t); b = ex.val(fr, ins.a[1], t)
    if t.k == 'vec':
        a = as_vec(ex, a, t); b = as_vec(ex, b, t)
        if ex.tolerant: a = [fresh('guess', 'real') if x is X.UNDEF else x for x in a]; b = [fresh('guess', 'real') if x is X.UNDEF else x for x in b]
        # a lane the instruction stream never uses (shufflevector with an undefined mask entry) stays undefined
        return X.Vec(X.UNDEF if x is X.UNDEF or y is X.UNDEF else bin_fp(ins.op, x, y) for x, y in zip(a, b))
    if ex.tolerant:
        # while guessing an invariant an unresolved read may look undefined
        if a is X.UNDEF: a = fresh('guess', 'real')
        if b is X.UNDEF: b = fresh('guess', 'real')
    return bin_fp(ins.op, a, b)

@H('fneg')
def _(ex, st, fr, ins):
    a = ex.val(fr, ins.a[0], ins.ty)
    if ins.ty.k == 'vec': return X.Vec(fneg(x) for x in as_vec(ex, a, ins.ty))
    return fneg(a)

@H('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem')
def _(ex, st, fr, ins):
    t = ins.ty
    a = ex.val(fr, ins.a[0], t); b = ex.val(fr, ins.a[1], t)
    if t.k == 'vec':
        a = as_vec(ex, a, t); b = as_vec(ex, b, t)
        return X.Vec(bin_int(ex, st, ins.op, t.el.w, x, y, ins.flags) for x, y in zip(a, b))
    return bin_int(ex, st, ins.op, t.w, a, b, ins.flags)

def as_vec(ex, v, t):
    if isinstance(v, X.Vec): return v
    if v is X.UNDEF: return X.Vec([X.UNDEF] * t.n)
    if isinstance(v, X.Raw): return bitcast(ex, v, None, t)
    raise X.Undecided('vector expected: %r' % (v,))

def flatten(ex, v, t):
    if isinstance(v, X.Raw): return list(v.p)
    if isinstance(v, X.Res) and v.raw and sum(p[0] for p in v.raw) == t.size: return list(v.raw)
    if t.k == 'vec':
        r = []
        for x in (v if isinstance(v, X.Vec) else [X.UNDEF] * t.n): r += flatten(ex, x, t.el)
        return r
    n = t.size
    return [(n, v, X.kind_of(t), 0, n)]

def take(ps, n):
    out = []; ps = list(ps)
    while n > 0:
        nb, val, kind, sub, vnb = ps.pop(0)
        if nb <= n: out.append((nb, val, kind, sub, vnb)); n -= nb
        else:
            out.append((n, val, kind, sub, vnb)); ps.insert(0, (nb - n, val, kind, sub + n, vnb)); n = 0
    return out, ps

def bitcast(ex, v, ft, tt):
    ps = flatten(ex, v, ft)
    if tt.k == 'vec':
        out = X.Vec()
        for _ in range(tt.n):
            a, ps = take(ps, tt.el.size)
            out.append(cast1(ex, a, tt.el))
        return out
    return cast1(ex, ps, tt)

def cast1(ex, ps, t):
    kind = X.kind_of(t)
    # merge adjacent slices of the same value
    m = []
    for p in ps:
        if m and m[-1][1] is p[1] and m[-1][2] == p[2] and m[-1][3] + m[-1][0] == p[3] and p[3] > 0:
            q = m[-1]; m[-1] = (q[0] + p[0], q[1], q[2], q[3], q[4])
        else: m.append(p)
    ps = m
    if all(p[1] is X.UNDEF for p in ps): return X.UNDEF
    if any(p[1] is X.UNDEF for p in ps): return X.Raw(ps)
    return ex.from_raw(None, ps, kind, t.size)

@H('trunc')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    if ins.ty.k == 'vec': return X.Vec(trunc1(ex, st, x, ins.a[1].el.w, ins.ty.el.w) for x in v)
    return trunc1(ex, st, v, ins.a[1].w, ins.ty.w)
def trunc1(ex, st, v, wf, w):
    if v is X.UNDEF: return v
    if type(v) is int:
        if w == 1: return bool(v & 1)
        return ex.wrapc(v, w)
    if isinstance(v, X.BV):
        import z3
        e = z3.simplify(z3.Extract(w - 1, 0, v.e))
        if w == 1: return ('bv', BVC(e == 1))
        return X.BV(e)
    if isinstance(v, X.Raw):
        ps, _ = take(v.p, w // 8)
        return cast1(ex, ps, INT(w))
    if type(v) in (tuple, bool): return v if w == 1 else ite(v, -1, 0)
    if isinstance(v, X.Ptr):
        p = padd(ex.base_addr(v.obj), v.off) if v.obj is not None else v.off
    else: p = v.p if isinstance(v, X.Res) else v
    if w == 1:
        at = the_atom(p)
        lo, hi = rng(p)
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            if at is not None and at.kind == 'ite' and at.data[1] == 1 and at.data[2] == 0: return at.data[0]
            return c_ne(p)
        return c_ne(umod(p, 2))
    return ex.mk(p, w)

class BVC:
    def __init__(s, e): s.e = e
    def __hash__(s): return s.e.hash()
    def __eq__(s, o): return isinstance(o, BVC) and s.e.eq(o.e)

@H('zext')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    if ins.ty.k == 'vec': return X.Vec(zext1(ex, st, x, ins.a[1].el.w, ins.ty.el.w) for x in v)
    return zext1(ex, st, v, ins.a[1].w, ins.ty.w)
def zext1(ex, st, v, wf, w):
    if v is X.UNDEF: return v
    if isinstance(v, X.BV):
        import z3
        return X.BV(z3.ZeroExt(w - wf, v.e))
    if isinstance(v, X.Raw):
        return X.Raw(list(v.p) + [((w - wf) // 8, 0, 'zero', 0, (w - wf) // 8)])
    return ex.unsigned(st, v, wf)

@H('sext')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    if ins.ty.k == 'vec': return X.Vec(sext1(ex, st, x, ins.a[1].el.w, ins.ty.el.w) for x in v)
    return sext1(ex, st, v, ins.a[1].w, ins.ty.w)
def sext1(ex, st, v, wf, w):
    if v is X.UNDEF: return v
    if v is True: return -1
    if v is False: return 0
    if isinstance(v, X.BV):
        import z3
        return X.BV(z3.SignExt(w - wf, v.e))
    return ex.signed(st, v, wf)

@H('fpext', 'fptrunc')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    f = ex.on_fptrunc if ins.op == 'fptrunc' else None
    if f is not None:
        if ins.ty.k == 'vec': return X.Vec(f(x) for x in v)
        return f(v)
    return v
X.Exec.on_fptrunc = None

@H('sitofp')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    if ins.ty.k == 'vec': return X.Vec(ex.signed(st, x, ins.a[1].el.w) for x in v)
    return ex.signed(st, v, ins.a[1].w)
@H('uitofp')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    return ex.unsigned(st, v, ins.a[1].w)
@H('fptosi', 'fptoui')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    w = ins.ty.w; h = 1 << (w - 1)
    if isinstance(v, Poly):
        if all(ATOMS[a].sort == 'int' for m in v.t for a in m) and all(type(c) is int for c in v.t.values()):
            return ex.mk(v, w)
        return app('fptosi', (v,), 'int', -h, h - 1)
    return ex.wrapc(int(v), w)

@H('ptrtoint', 'inttoptr')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    if ins.op == 'inttoptr':
        if isinstance(v, X.Ptr): return v
        if type(v) is int: return X.Ptr(None, v)
        # address arithmetic that went through plain integers
        p = v.p if isinstance(v, X.Res) else v
        for o in list(st.mem):
            b = ex.base_addr(o)
            if isinstance(p, Poly) and p.t.get((the_atom(b).id,)) == 1: return X.Ptr(o, psub(p, b))
        raise X.Undecided('inttoptr %r' % (v,))
    if ins.ty.w != 64: return trunc1(ex, st, v, 64, ins.ty.w)
    return v if v.obj is not None else v.off

@H('bitcast', 'addrspacecast')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.a[1])
    ft, tt = ins.a[1], ins.ty
    if ft.k == tt.k and (ft.k != 'vec' or (ft.n == tt.n and ft.el.k == tt.el.k and ft.el.w == tt.el.w)): return v
    return bitcast(ex, v, ft, tt)

@H('icmp')
def _(ex, st, fr, ins):
    p, a, b = ins.a
    t = ins.ty
    a = ex.val(fr, a, t); b = ex.val(fr, b, t)
    if t.k == 'vec': return X.Vec(icmp(ex, st, p, t.el.w, x, y) for x, y in zip(a, b))
    return icmp(ex, st, p, t.w if t.k == 'i' else 64, a, b)

def icmp(ex, st, p, w, a, b):
    ta, tb = type(a), type(b)
    if a is X.UNDEF or b is X.UNDEF:
        if ex.tolerant: return c_le(P.fresh('guess'))
        raise X.Undecided('compare undef')
    if ta is X.Ptr or tb is X.Ptr:
        if ta is not X.Ptr: a = X.Ptr(None, ex.unsigned(st, a, 64))
        if tb is not X.Ptr: b = X.Ptr(None, ex.unsigned(st, b, 64))
        if a.obj is not b.obj:
            if p == 'eq': return False
            if p == 'ne': return True
            if a.obj is None and a.off == 0: return p in ('ult', 'ule')
            if b.obj is None and b.off == 0: return p in ('ugt', 'uge')
            raise X.Undecided('ordering of unrelated pointers')
        a, b = a.off, b.off
        p = p.replace('u', 's') if p[0] == 'u' else p
        return cmp_s(p, a, b)
    if ta is X.BV or tb is X.BV:
        import z3
        x = a.e if ta is X.BV else z3.BitVecVal(a, w)
        y = b.e if tb is X.BV else z3.BitVecVal(b, w)
        e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[p]()
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return ('bv', BVC(e))
    if w == 1:
        a = ex.cond(st, a); b = ex.cond(st, b)
        if p == 'eq': return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if p == 'ne': return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        raise X.Undecided('icmp i1 ' + p)
    if ta is X.Raw or tb is X.Raw:
        if p in ('eq', 'ne') :
            # float compared with zero bits etc. is not supported
            x = ex.raw_to_int(a, w) if ta is X.Raw else a
            y = ex.raw_to_int(b, w) if tb is X.Raw else b
            if x is None or y is None: raise X.Undecided('compare raw')
            a, b = x, y
        else: raise X.Undecided('compare raw')
    if p[0] == 'u':
        x, y = ex.unsigned(st, a, w), ex.unsigned(st, b, w)
        return cmp_s('s' + p[1:], x, y)
    # ite(c,1,0) compared with a constant
    if p in ('eq', 'ne') and type(b) is int and isinstance(a, Poly):
        at = the_atom(a)
        if at is not None and at.kind == 'ite' and not isinstance(at.data[1], Poly) and not isinstance(at.data[2], Poly):
            r = None
            if at.data[1] == b and at.data[2] != b: r = at.data[0]
            elif at.data[2] == b and at.data[1] != b: r = c_not(at.data[0])
            elif at.data[1] != b and at.data[2] != b: r = False
            if r is not None: return r if p == 'eq' else c_not(r)
    x, y = ex.signed(st, a, w), ex.signed(st, b, w)
    return cmp_s(p, x, y)

def cmp_s(p, x, y):
    d = psub(x, y)
    if p == 'eq': return c_eq(d)
    if p == 'ne': return c_ne(d)
    if p == 'slt': return c_lt(d)
    if p == 'sle': return c_le(d)
    if p == 'sgt': return c_lt(pneg(d))
    if p == 'sge': return c_le(pneg(d))
    raise X.Undecided('icmp ' + p)

@H('fcmp')
def _(ex, st, fr, ins):
    p, a, b = ins.a
    t = ins.ty
    a = ex.val(fr, a, t); b = ex.val(fr, b, t)
    if t.k == 'vec': return X.Vec(fcmp(p, x, y) for x, y in zip(a, b))
    return fcmp(p, a, b)
def fcmp(p, a, b):
    if a is X.UNDEF or b is X.UNDEF: raise X.Undecided('fcmp undef')
    if isinstance(a, float) or isinstance(b, float): raise X.Undecided('fcmp inf')
    if p == 'ord' or p == 'true': return True
    if p == 'uno' or p == 'false': return False
    d = psub(a, b); q = p[1:]
    if q == 'lt': return c_rlt(d)
    if q == 'le': return c_rle(d)
    if q == 'gt': return c_rlt(pneg(d))
    if q == 'ge': return c_rle(pneg(d))
    if q == 'eq': return c_req(d)
    if q == 'ne': return c_not(c_req(d))
    raise X.Undecided('fcmp ' + p)

@H('select')
def _(ex, st, fr, ins):
    c, a, b = ins.a
    ct = ins.flags[0]
    c = ex.val(fr, c, ct); a = ex.val(fr, a, ins.ty); b = ex.val(fr, b, ins.ty)
    if ct.k == 'vec': return X.Vec(sel(ex, st, ins.ty.el, x, y, z) for x, y, z in zip(c, a, b))
    return sel(ex, st, ins.ty, c, a, b)
def sel(ex, st, t, c, a, b):
    c = ex.cond(st, c)
    if c is True: return a
    if c is False: return b
    d = ex.decide(st, c)
    if d is not None: return a if d else b
    if isinstance(a, (X.Ptr, X.Raw, X.Agg, X.Vec)) or isinstance(b, (X.Ptr, X.Raw, X.Agg, X.Vec)) or a is X.UNDEF or b is X.UNDEF:
        if isinstance(a, X.Ptr) and isinstance(b, X.Ptr) and a.obj is b.obj: return X.Ptr(a.obj, ite(c, a.off, b.off))
        raise X.Fork(c)
    if t.k == 'i' and t.w == 1:
        return c_or(c_and(c, a), c_and(c_not(c), b))
    if isinstance(a, X.BV) or isinstance(b, X.BV):
        import z3
        if c[0] == 'bv':
            x = a.e if isinstance(a, X.BV) else z3.BitVecVal(a, t.w); y = b.e if isinstance(b, X.BV) else z3.BitVecVal(b, t.w)
            return X.BV(z3.If(c[1].e, x, y))
        raise X.Fork(c)
    if t.k == 'i':
        a = ex.signed(st, a, t.w); b = ex.signed(st, b, t.w)
        return ite(c, a, b)
    return fite(c, a, b)

def fite(c, a, b):
    """real if-then-else, recognising max/min"""
    if isinstance(c, tuple) and c[0] in ('rlt', 'rle'):
        d = scale_pos(psub(a, b)) if isinstance(psub(a, b), Poly) else None
        if d is not None:
            if c[1] == d: return minmax('min', a, b)          # a<b ? a : b
            if c[1] == pneg(d): return minmax('max', a, b)
    return ite(c, a, b)

def minmax(f, a, b):
    if a == b: return a
    args = []
    for x in (a, b):
        at = the_atom(x)
        if at is not None and at.kind == 'app' and at.data[0] == f: args += list(at.data[1])
        else: args.append(x)
    u = []
    for x in args:
        if x not in u: u.append(x)
    if all(not isinstance(x, Poly) for x in u): return max(u) if f == 'max' else min(u)
    u.sort(key=lambda x: (str(type(x)), hash(x)))
    return app(f, tuple(u))
P.REBUILD['max'] = lambda *a: _mm('max', a)
P.REBUILD['min'] = lambda *a: _mm('min', a)
def _mm(f, a):
    r = a[0]
    for x in a[1:]: r = minmax(f, r, x)
    return r

@H('load')
def _(ex, st, fr, ins):
    return ex.load(st, ex.val(fr, ins.a[0], PTR), ins.ty)

@H('getelementptr')
def _(ex, st, fr, ins):
    args = ins.a
    base = ex.val(fr, args[0][1], args[0][0])
    if isinstance(base, X.Vec): raise X.Undecided('vector gep')
    if not isinstance(base, X.Ptr): raise X.Undecided('gep on %r' % (base,))
    off = base.off; cur = ins.ty
    for i in range(1, len(args)):
        at, av = args[i]
        ix = ex.val(fr, av, at)
        if i > 1 and cur.k == 'struct':
            off = padd(off, cur.offs[ix]); cur = cur.fields[ix]; continue
        if i > 1: cur = cur.el
        if type(ix) is not int:
            if ix is X.UNDEF:
                if not ex.tolerant: raise X.Undecided('undef index')
                ix = P.fresh('guess')
            if isinstance(ix, X.BV): ix = X.bvrec().index(ix)
            if at.w == 64: ix = ix.p if isinstance(ix, X.Res) else ix
            else: ix = ex.signed(st, ix, at.w)
            if isinstance(ix, X.BV): raise X.Undecided('bv index')
            if type(ix) in (tuple, bool): ix = ite(ix, 1, 0)
            if isinstance(ix, X.Ptr): raise X.Undecided('pointer index')
        off = padd(off, pscale(ix, cur.size))
    return X.Ptr(base.obj, off)

@H('alloca')
def _(ex, st, fr, ins):
    n = 1
    if ins.a[0] is not None:
        n = ex.val(fr, ins.a[0][1], ins.a[0][0])
    o = ex.alloc(st, 'stk:%s' % ins.res, pscale(n, ins.ty.size), 'stack', 'uninit')
    fr.objs.append(o)
    return X.Ptr(o, 0)

@H('extractvalue')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.ty)
    for i in ins.a[1]:
        if v is X.UNDEF: return v
        v = v[i]
    return v
@H('insertvalue')
def _(ex, st, fr, ins):
    v = ex.val(fr, ins.a[0], ins.ty); e = ex.val(fr, ins.a[1], None) if not hasattr(ins.a[1], 'ty') else X.UNDEF
    def rec(v, t, idx):
        n = len(t.fields) if t.k == 'struct' else t.n
        r = X.Agg(v if v is not X.UNDEF else [X.UNDEF] * n)
        if len(idx) == 1: r[idx[0]] = e
        else: r[idx[0]] = rec(r[idx[0]], t.fields[idx[0]] if t.k == 'struct' else t.el, idx[1:])
        return r
    return rec(v, ins.ty, ins.a[2])
@H('extractelement')
def _(ex, st, fr, ins):
    v = as_vec(ex, ex.val(fr, ins.a[0], ins.ty), ins.ty); i = ex.val(fr, ins.a[1], INT(64))
    return v[i]
@H('insertelement')
def _(ex, st, fr, ins):
    v = X.Vec(as_vec(ex, ex.val(fr, ins.a[0], ins.ty), ins.ty)); i = ex.val(fr, ins.a[2], INT(64))
    v[i] = ex.val(fr, ins.a[1], ins.ty.el)
    return v
@H('shufflevector')
def _(ex, st, fr, ins):
    a = as_vec(ex, ex.val(fr, ins.a[0], ins.ty), ins.ty); b = as_vec(ex, ex.val(fr, ins.a[1], ins.ty), ins.ty)
    m = ex.val(fr, ins.a[2], ins.a[3])
    ab = list(a) + list(b)
    return X.Vec(ab[i] if type(i) is int else X.UNDEF for i in m)
@H('freeze')
def _(ex, st, fr, ins): return ex.val(fr, ins.a[0], ins.ty)
@H('phi')
def _(ex, st, fr, ins): raise X.Undecided('phi in the middle')
@H('landingpad')
def _(ex, st, fr, ins): return X.UNDEF
