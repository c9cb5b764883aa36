"""Bit-vector values whose unknowns are atoms of the integer layer (so that loop indices can be substituted in them), constant tables read at a
bit-vector index as uninterpreted functions, and recurrences over bit vectors: value number p of a recurrence is the unknown rec(p), rec(p+1) is a
stated function of rec(p) and the unknowns at position p."""
import z3
from . import poly as P
from .poly import *
from . import exec as X
BYID = {}
def const(at, w):
    BYID[at.id] = at
    return z3.BitVec('b!%d' % at.id, w)
def app_bv(name, p, w): return X.BV(const(P.the_atom(app(name, (p,), sort='int')), w))
def consts(e):
    out = {}; seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            n = x.decl().name()
            if n.startswith('b!'): out[int(n[2:])] = x
        else: todo.extend(x.children())
    return out
def deps(v):
    r = frozenset()
    for i in consts(v.e): r |= depsof(avar(BYID[i]))
    return r
def vsubst(v, m):
    pairs = []
    for i, c in consts(v.e).items():
        q = subst(avar(BYID[i]), m)
        a = P.the_atom(q)
        if a is None: raise X.Undecided('substitution in a bit vector')
        if a.id != i: pairs.append((c, const(a, c.size())))
    return X.BV(z3.substitute(v.e, *pairs)) if pairs else v
def of(ex, v, w):
    if isinstance(v, X.BV): return v.e
    if type(v) is int: return z3.BitVecVal(v, w)
    if isinstance(v, X.Res): v = v.p
    if isinstance(v, Poly):
        a = P.the_atom(v)
        if ex.tolerant and a is None: a = P.the_atom(P.fresh('guess'))
        if a is not None:
            lo, hi = rng(v)
            if lo is not None and hi is not None and lo >= 0 and hi < 1 << w:
                m = max(1, int(hi).bit_length())
                return const(a, m) if m == w else z3.ZeroExt(w - m, const(a, m))
            return const(a, w)
    raise X.Undecided('mixed bit-vector operand %r' % (v,))
IX = {}
def index(v):
    """a bit vector used as an index: an integer atom with its range"""
    e = z3.simplify(v.e); w = e.size()
    for m in (1, 2, 4, 8, 16):
        if m < w:
            s = z3.Solver(); s.set('timeout', 5000)
            s.add(z3.Extract(w - 1, m, e) != 0)
            if s.check() == z3.unsat: break
    else: raise X.Undecided('range of a bit-vector index')
    e = z3.simplify(z3.Extract(m - 1, 0, e))
    k = e.sexpr()
    for i, (k2, e2, m2) in IX.items():
        if k2 == k and m2 == m: return avar(P.ATOMS[i])
    a = P.the_atom(P.fresh('bvix', 'int', 0, (1 << m) - 1))
    IX[a.id] = (k, e, m)
    return avar(a)
TABS = {}
def table(name, w, m):
    if (name, w, m) not in TABS: TABS[name, w, m] = z3.Function('tab_%s' % name, z3.BitVecSort(w), z3.BitVecSort(m))
    return TABS[name, w, m]
def read_table(ex, obj, L, off, nb):
    """entry of a constant table at a bit-vector index; a table whose every entry is that of a declared one is that function"""
    if not isinstance(off, Poly) or len(off.t) != 1: return None
    (mm, c), = off.t.items()
    if len(mm) != 1 or mm[0] not in IX or c != nb: return None
    _, e, m = IX[mm[0]]
    name = obj.name
    for n, vs in getattr(ex, 'bvtables', {}).items():
        if len(vs) == 1 << m and all(L.cells.get(nb * i, (0, None))[0] == nb and L.cells[nb * i][1] % (1 << 8 * nb) == v for i, v in enumerate(vs)): name = n; ex.tables_checked = getattr(ex, 'tables_checked', 0) + len(vs)
    return X.BV(table(name, m, 8 * nb)(e))
def napps(e):
    n = 0; seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1: n += 1
        todo.extend(x.children())
    return n
def valid(f, timeout=60000):
    s = z3.Solver(); s.set('timeout', timeout); s.add(z3.Not(f))
    return s.check() == z3.unsat
class Rec:
    """rec(0) = init, rec(p+1) = step(rec(p), p)"""
    def __init__(s, name, w, init, step): s.name = name; s.w = w; s.init = init; s.step = step
    def at(s, p): return app_bv(s.name, p, s.w).e
    def eqv(s, ex, st, x, other):
        if valid(x == other): return True
        # unknowns at positions that are equal under the path condition
        ca, cb = consts(x), consts(other); pairs = []; memo = {}
        for i, c in ca.items():
            if i in cb or BYID[i].kind != 'app': continue
            for i2, c2 in cb.items():
                a, b = BYID[i], BYID[i2]
                if i2 in ca or b.kind != 'app' or a.data[0] != b.data[0] or c.size() != c2.size(): continue
                d = psub(a.data[1][0], b.data[1][0])
                if d not in memo: memo[d] = ex.peq(st, d, 0)
                if memo[d]: pairs.append((c, c2)); break
        return bool(pairs) and valid(z3.substitute(x, *pairs) == other)
    def pos(s, ex, st, e):
        """p with e = rec(p)"""
        e = z3.simplify(e)
        c = consts(e)
        if len(c) == 1 and z3.is_const(e):
            at = BYID[list(c)[0]]
            if at.kind == 'app' and at.data[0] == s.name: return at.data[1][0]
        for i in c:
            at = BYID[i]
            if at.kind == 'app' and at.data[0] == s.name and valid(e == c[i]): return at.data[1][0]
        if valid(e == s.init): return 0
        n = napps(e)
        for i in c:
            at = BYID[i]
            if n and at.kind == 'app' and at.data[0] == s.name and s.eqv(ex, st, e, s.advance(at.data[1][0], n)): return padd(at.data[1][0], n)
        if n and valid(e == s.advance(0, n)): return n
        return None
    def advance(s, p, n):
        """rec(p + n) spelled out from rec(p)"""
        e = s.init if p == 0 else s.at(p)
        for i in range(n): e = s.step(e, padd(p, i))
        return e
    def same(s, ex, st, got, want):
        """got = want, with the recurrence unfolded where that helps"""
        if valid(got == want): return True
        g, w = consts(got), consts(want)
        for side, other in ((want, got), (got, want)):
            sub = []
            for i, c in consts(side).items():
                at = BYID[i]
                if at.kind != 'app' or at.data[0] != s.name: continue
                p = at.data[1][0]
                if isinstance(p, Poly):
                    for x in {0, napps(other)}:
                        if ex.peq(st, p, x): p = x; break
                if not isinstance(p, Poly) and 0 <= p <= 64: sub.append((c, s.advance(0, p))); continue
                for i2 in consts(other):
                    a2 = BYID[i2]
                    if a2.kind == 'app' and a2.data[0] == s.name:
                        q = a2.data[1][0]; d = psub(p, q)
                        if isinstance(d, Poly):
                            for x in {0, napps(other), napps(other) - napps(side)}:
                                if x >= 0 and ex.peq(st, d, x): d = x; break
                        if not isinstance(d, Poly) and 0 <= d <= 64: sub.append((c, s.advance(q, d))); break
            if not sub: continue
            x = z3.substitute(side, *sub)
            if s.eqv(ex, st, x, other): return True
        return False
def hint(s, st0, fr0, h, name, v0, fv, nexts, ty, sub, k, vals):
    """loop value = recurrence at p0 + n*k, n = table look-ups per iteration (checked when the invariant is verified)"""
    rec = s.bvrec
    if rec is None or not isinstance(fv, X.BV): return None
    v = v0.e if isinstance(v0, X.BV) else of(s, v0, ty.w)
    p0 = rec.pos(s, st0, v)
    if p0 is None: return None
    n = max(napps(x.e) if isinstance(x, X.BV) else 0 for x in nexts)
    if not n: return None
    return X.BV(rec.at(padd(p0, pscale(k, n))))
