"""Hash-consed atoms and polynomial normal forms (integer and real), conditions.

A *value* is a python int / Fraction (constant) or a Poly (never constant).
Polynomials over hash-consed atoms are kept in expanded normal form, so that
equality of ring expressions is syntactic."""
from fractions import Fraction
from math import gcd

class Atom:
    __slots__ = ('id', 'kind', 'data', 'sort', 'lo', 'hi', 'deps', 'name')
    def __repr__(self):
        return self.name

ATOMS = []
_TAB = {}
EMPTY = frozenset()

def mk_atom(kind, data, sort, name, deps=EMPTY, lo=None, hi=None):
    key = (kind, data, sort)
    a = _TAB.get(key)
    if a is not None:
        if lo is not None and (a.lo is None or a.lo < lo): a.lo = lo
        if hi is not None and (a.hi is None or a.hi > hi): a.hi = hi
        return a
    a = Atom()
    a.id = len(ATOMS); a.kind = kind; a.data = data; a.sort = sort
    a.name = name; a.lo = lo; a.hi = hi
    a.deps = deps | {a.id} if kind == 'v' else deps
    ATOMS.append(a)
    _TAB[key] = a
    return a

_fresh = [0]
def fresh_name(p):
    _fresh[0] += 1
    return '%s#%d' % (p, _fresh[0])

class Poly:
    __slots__ = ('t', '_h', '_d')
    def __init__(self, t):
        self.t = t
        self._h = None
        self._d = None
    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(frozenset(self.t.items()))
        return h
    def __eq__(self, o):
        if self is o: return True
        if isinstance(o, Poly):
            return self.t == o.t
        return False
    def __ne__(self, o): return not self.__eq__(o)
    @property
    def deps(self):
        d = self._d
        if d is None:
            s = set()
            for m in self.t:
                for a in m:
                    s |= ATOMS[a].deps
            d = self._d = frozenset(s)
        return d
    def __add__(self, o): return padd(self, o) if isinstance(o, NUMT) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return psub(self, o) if isinstance(o, NUMT) else NotImplemented
    def __rsub__(self, o): return psub(o, self)
    def __mul__(self, o): return pmul(self, o) if isinstance(o, NUMT) else NotImplemented
    __rmul__ = __mul__
    def __neg__(self): return pmul(-1, self)
    def __truediv__(self, o): return pmul(self, pinv(o))
    def __rtruediv__(self, o): return pmul(o, pinv(self))
    def __repr__(self): return show(self)

NUMT = (Poly, int, Fraction)

def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

def mkpoly(t):
    """t: dict, already without zero coefficients"""
    if not t: return 0
    if len(t) == 1:
        c = t.get(())
        if c is not None: return c
    return Poly(t)

def isconst(x):
    return not isinstance(x, Poly)

def terms(x):
    if isinstance(x, Poly): return x.t
    return {(): x} if x != 0 else {}

def padd(a, b):
    if not isinstance(a, Poly):
        if not isinstance(b, Poly): return norm_c(a + b)
        a, b = b, a
    if not isinstance(b, Poly):
        if b == 0: return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c == 0: t.pop((), None)
        else: t[()] = norm_c(c)
        return mkpoly(t)
    if len(b.t) > len(a.t): a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None: t[m] = c
        else:
            v = v + c
            if v == 0: del t[m]
            else: t[m] = norm_c(v)
    return mkpoly(t)

def psub(a, b):
    return padd(a, pneg(b))

def pneg(a):
    if not isinstance(a, Poly): return -a
    return Poly({m: -c for m, c in a.t.items()})

def pscale(a, c):
    if c == 0: return 0
    if c == 1: return a
    if not isinstance(a, Poly): return norm_c(a * c)
    return Poly({m: norm_c(v * c) for m, v in a.t.items()})

def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    return tuple(sorted(m1 + m2))

def _has_inv(m):
    for a in m:
        if ATOMS[a].kind == 'inv': return True
    return False

def pmul(a, b):
    if not isinstance(a, Poly): return pscale(b, a)
    if not isinstance(b, Poly): return pscale(a, b)
    t = {}
    redo = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mmul(m1, m2)
            c = c1 * c2
            r = SIMP_MONO(m) if INVS else None
            if r is not None:
                redo.append(pscale(r, norm_c(c)))
                continue
            v = t.get(m)
            if v is None: t[m] = c
            else:
                v = v + c
                if v == 0: del t[m]
                else: t[m] = v
    for m in t:
        c = t[m]
        if type(c) is Fraction: t[m] = norm_c(c)
    r = mkpoly(t)
    for x in redo: r = padd(r, x)
    return r

INVS = {}     # atom id of single-atom reciprocal argument -> inv atom id and back

def SIMP_MONO(m):
    """cancel x * inv(x) and sqrt(x)^2 inside a monomial, for atoms registered in INVS"""
    for i, a in enumerate(m):
        k = INVS.get(a)
        if k is None: continue
        if k[0] == 'inv':
            o = k[1]
            if o in m:
                l = list(m); l.remove(a); l.remove(o)
                r = SIMP_MONO(tuple(l))
                return r if r is not None else mkpoly({tuple(l): 1})
        elif k[0] == 'sqrt':
            if m.count(a) >= 2:
                l = list(m); l.remove(a); l.remove(a)
                return pmul(mkpoly({tuple(l): 1}), k[1])
    return None

def avar(atom):
    return Poly({(atom.id,): 1})

def var(name, sort='int', lo=None, hi=None):
    return avar(mk_atom('v', name, sort, name, lo=lo, hi=hi))

def fresh(name, sort='int', lo=None, hi=None):
    return var(fresh_name(name), sort, lo, hi)

def depsof(x):
    return x.deps if isinstance(x, Poly) else EMPTY

def the_atom(p):
    """atom of a poly that is exactly one atom, else None"""
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1: return ATOMS[m[0]]
    return None

def content(p):
    """gcd of integer coefficients"""
    g = 0
    for c in terms(p).values():
        if type(c) is not int: return 1
        g = gcd(g, c)
    return g or 1

def leadmono(p):
    return min(p.t)

def pinv(p):
    if not isinstance(p, Poly):
        if p == 0: return app('inv0', ())
        return norm_c(Fraction(1) / p)
    # pull scalar
    m0 = leadmono(p); c0 = p.t[m0]
    if c0 != 1:
        return pscale(pinv(pscale(p, Fraction(1) / c0)), Fraction(1) / c0)
    if len(p.t) == 1:
        # monomial: product of inverses
        r = 1
        for a in m0:
            at = ATOMS[a]
            if at.kind == 'inv':
                r = pmul(r, at.data[0]); continue
            ia = mk_atom('inv', (avar(at),), 'real', 'inv(%s)' % at.name, at.deps)
            if ia.id not in INVS:
                INVS[ia.id] = ('inv', at.id)
                if at.id not in INVS: INVS[at.id] = ('inv', ia.id)
            r = pmul(r, avar(ia))
        return r
    ia = mk_atom('inv', (p,), 'real', 'inv(%s)' % show(p, 60), p.deps)
    return avar(ia)

def app(fname, args, sort='real', lo=None, hi=None):
    deps = EMPTY
    for x in args: deps = deps | depsof(x)
    a = mk_atom('app', (fname, tuple(args)), sort, '%s(%s)' % (fname, ','.join(show(x, 60) for x in args)), deps, lo, hi)
    if fname == 'sqrt' and a.id not in INVS:
        INVS[a.id] = ('sqrt', args[0])
    return avar(a)

def cell(obj, off, tag, sort, lo=None, hi=None):
    a = mk_atom('cell', (obj, off, tag), sort, '%s[%s]%s' % (obj, show(off, 60), '' if sort == 'real' else ':' + tag), depsof(off), lo, hi)
    return avar(a)

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a == b and type(a) == type(b): return a
    if c[0] == 'not': c, a, b = c[1], b, a
    if type(a) is int and type(b) is int and (a, b) == (0, 1): return psub(1, ite(c, 1, 0))
    if c[0] == 'eq' and type(a) is int and type(b) is int:
        l, h = rng(c[1])
        if (l, h) == (0, 0): return a
        if l is not None and l > 0 or h is not None and h < 0: return b
    sort = 'int'
    for x in (a, b):
        if isinstance(x, Poly):
            for m in x.t:
                for q in m:
                    if ATOMS[q].sort == 'real': sort = 'real'
        elif type(x) is Fraction: sort = 'real'
    for q in cdeps_atoms(c):
        pass
    lo = hi = None
    if sort == 'int':
        l1, h1 = rng(a); l2, h2 = rng(b)
        if l1 is not None and l2 is not None: lo = min(l1, l2)
        if h1 is not None and h2 is not None: hi = max(h1, h2)
    at = mk_atom('ite', (c, a, b), sort, 'ite(%s,%s,%s)' % (cshow(c), show(a, 60), show(b, 60)),
                 cdeps(c) | depsof(a) | depsof(b), lo, hi)
    return avar(at)

def idiv(p, q):
    """floor division, q > 0 assumed by the caller"""
    if not isinstance(p, Poly) and not isinstance(q, Poly):
        return p // q
    if q == 1: return p
    # pull out multiples of q
    if not isinstance(q, Poly):
        hi_t = {}; lo_t = {}
        for m, c in terms(p).items():
            if m == ():
                d, r = divmod(c, q)
                if d: hi_t[m] = d
                if r: lo_t[m] = r
            else:
                d, r = divmod(c, q)
                # keep small symmetric remainders for readability
                if d: hi_t[m] = d
                if r: lo_t[m] = r
        h = mkpoly(hi_t); l = mkpoly(lo_t)
        if not isinstance(l, Poly):
            return padd(h, l // q)
        lo, hi = rng(l)
        if lo is not None and hi is not None and lo // q == hi // q:
            return padd(h, lo // q)
        # nested division div(div(a,b),c) -> div(a, b*c)
        at = the_atom(l)
        if at is not None and at.kind == 'div' and not isinstance(at.data[1], Poly):
            return padd(h, idiv(at.data[0], at.data[1] * q))
        # (x + c0)/q where content g divides q : divide through
        g = content(l)
        g = gcd(g, q)
        if g > 1:
            l2 = Poly({m: c // g for m, c in l.t.items()})
            return padd(h, idiv(l2, q // g))
        g = 0
        for m, c in l.t.items():
            if m != (): g = gcd(g, c)
        g = gcd(g, q)
        if g > 1:
            t2 = {m: c // g for m, c in l.t.items() if m != ()}
            c0 = l.t.get((), 0) // g
            if c0: t2[()] = c0
            return padd(h, idiv(mkpoly(t2), q // g))
        lo2, hi2 = rng(l)
        return padd(h, _mkdiv(l, q, None if lo2 is None else lo2 // q, None if hi2 is None else hi2 // q))
    # symbolic divisor: pull out exact multiples when q is a monomial
    h = 0
    if len(q.t) == 1:
        (mq, cq), = q.t.items()
        lo_t = {}; hi_t = {}
        for m, c in terms(p).items():
            if _mdivides(mq, m) and c % cq == 0:
                hi_t[_mquot(m, mq)] = c // cq
            else: lo_t[m] = c
        h = mkpoly(hi_t); p = mkpoly(lo_t)
        if p == 0 and not isinstance(p, Poly): return h
    lo, hi = rng(p)
    return padd(h, _mkdiv(p, q, 0 if lo is not None and lo >= 0 else None,
                          hi if hi is not None and lo is not None and lo >= 0 else None))

def _mkdiv(p, q, lo, hi):
    return avar(mk_atom('div', (p, q), 'int', '(%s)div(%s)' % (show(p, 80), show(q, 40)), depsof(p) | depsof(q), lo, hi))

def _mdivides(a, b):
    b = list(b)
    for x in a:
        if x in b: b.remove(x)
        else: return False
    return True

def _mquot(b, a):
    b = list(b)
    for x in a: b.remove(x)
    return tuple(b)

def umod(p, q):
    return psub(p, pmul(q, idiv(p, q)))

# ---------------------------------------------------------------- intervals
def rng(p):
    if not isinstance(p, Poly): return p, p
    lo = 0; hi = 0
    for m, c in p.t.items():
        l = h = c
        if m:
            l, h = c, c
            if len(m) == 2 and m[0] == m[1]:
                a = ATOMS[m[0]]
                if a.lo is None or a.hi is None: 
                    al, ah = 0, None
                else:
                    x = (a.lo * a.lo, a.hi * a.hi)
                    al, ah = (0 if a.lo <= 0 <= a.hi else min(x)), max(x)
                l, h = _imul(c, c, al, ah)
            else:
                for q in m:
                    a = ATOMS[q]
                    l, h = _imul(l, h, a.lo, a.hi)
                    if l is None and h is None: break
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None: return None, None
    return lo, hi

def rngm(p):
    """rng, recognising residues c*(a - q*div(a,q))"""
    l, h = rng(p)
    if not isinstance(p, Poly): return l, h
    best = (l, h)
    if l is not None and h is not None and not any(len(m) == 1 and ATOMS[m[0]].kind == 'div' for m in p.t): return best
    for m, c in p.t.items():
        if len(m) == 1 and ATOMS[m[0]].kind == 'div':
            a, q = ATOMS[m[0]].data
            if isinstance(q, Poly) or c % q or not isinstance(a, Poly): continue
            k = -c // q
            rest = psub(p, pscale(psub(a, pscale(avar(ATOMS[m[0]]), q)), k))
            if isinstance(rest, Poly) and len(rest.t) >= len(p.t): continue
            l, h = rngm(rest)
            if l is not None and h is not None:
                l, h = (l, h + k * (q - 1)) if k > 0 else (l + k * (q - 1), h)
                return (l if best[0] is None else max(l, best[0])), (h if best[1] is None else min(h, best[1]))
    return best

def _imul(l1, h1, l2, h2):
    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
        return l1 * l2, (None if h1 is None or h2 is None else h1 * h2)
    if h1 is not None and h1 <= 0 and l2 is not None and l2 >= 0:
        # nonpositive times nonnegative
        lo = None if l1 is None or h2 is None else l1 * h2
        return lo, h1 * l2
    if None in (l1, h1, l2, h2): return None, None
    x = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return min(x), max(x)

# ------------------------------------------- polynomial bounds of atoms (nonlinear index arithmetic)
BOUNDS = {}        # atom id -> (lo, hi), hi a polynomial in other atoms: facts that hold on every path
def _dbound(a, depth):
    """(lo, hi) of an integer atom, hi possibly a polynomial"""
    b = BOUNDS.get(a)
    if b is not None: return b
    at = ATOMS[a]
    if at.kind == 'div' and depth > 0:
        p, q = at.data
        if at.lo is not None and at.lo >= 0 or polypos(p, depth - 1):
            if isinstance(q, Poly) and not polypos(psub(q, 1), depth - 1): return None
            h = polyhi(p, depth - 1)
            if h is not None:
                if not isinstance(q, Poly): return (0, idiv(h, q)) if not isinstance(h, Poly) or all(c % q == 0 for m, c in h.t.items() if m) else None
                if len(q.t) == 1:
                    (mq, cq), = q.t.items()
                    u = 0; r = 0
                    for m, c in terms(h).items():
                        if m and _mdivides(mq, m) and c % cq == 0: u = padd(u, mkpoly({_mquot(m, mq): c // cq}))
                        else: r = padd(r, mkpoly({m: c}))
                    if not isinstance(r, Poly):
                        return (0, padd(u, -1 if r < 0 else r))
    return None
def _nests(x, a):
    """does atom x (other than a) mention atom a"""
    if x == a: return False
    at = ATOMS[x]
    if at.kind == 'v': return False
    if ATOMS[a].kind == 'v': return a in at.deps
    st = list(at.data[1:]) if at.kind == 'cell' else list(at.data[1]) if at.kind == 'app' else [y for y in at.data]
    for y in st:
        if isinstance(y, Poly):
            for m in y.t:
                for z in m:
                    if z == a or _nests(z, a): return True
        elif type(y) is tuple: return True        # condition: do not look inside
    return False
def _affine(p, a):
    """(A, B) with p = A + a*B, a not in A, B; None otherwise"""
    co = {}; rest = {}
    for m, c in p.t.items():
        k = m.count(a)
        if k > 1: return None
        for x in m:
            if x != a and _nests(x, a): return None
        if k: co[_mquot(m, (a,))] = c
        else: rest[m] = c
    return mkpoly(rest), mkpoly(co)
def polyhi(p, depth):
    """a polynomial upper bound of p, in unbounded atoms only, for p affine in its bounded atoms"""
    for _ in range(12):
        if not isinstance(p, Poly): return p
        best = None
        for m in p.t:
            for a in m:
                if ATOMS[a].sort != 'int': return None
                b = _dbound(a, depth)
                if b is not None and b[1] is not None and isinstance(b[1], Poly):
                    best = (a, b); break
            if best: break
        if best is None: return p
        a, b = best
        ab = _affine(p, a)
        if ab is None: return None
        rest, co = ab
        if polypos(co, depth): p = padd(rest, pmul(co, b[1]))
        elif polypos(pneg(co), depth): p = padd(rest, pmul(co, b[0]))
        else: return None
    return None
def polypos(p, depth=4):
    """p >= 0, by substituting the end points of the atoms that have polynomial bounds (p is affine in each) and the lower limits of the others"""
    if not isinstance(p, Poly): return p >= 0
    l = rng(p)[0]
    if l is not None and l >= 0: return True
    if depth <= 0: return False
    ids = []
    for m in p.t:
        for a in m:
            if ATOMS[a].sort != 'int': return False
            if a not in ids: ids.append(a)
    # outermost first: an atom whose bound mentions others
    for a in sorted(ids, reverse=True):
        b = _dbound(a, depth - 1)
        if b is not None and b[1] is not None and isinstance(b[1], Poly):
            ab = _affine(p, a)
            if ab is None: return False
            lo = padd(ab[0], pmul(ab[1], b[0])); hi = padd(ab[0], pmul(ab[1], b[1]))
            return polypos(lo, depth) and polypos(hi, depth)
    # shift every atom to its lower limit: all coefficients must be non-negative
    q = p
    for a in ids:
        lo = ATOMS[a].lo
        if lo is None: return False
        if lo != 0:
            # top-level occurrences only: a := a' + lo with a' >= 0 (nested occurrences keep their own names and limits)
            r = 0
            for m, c in terms(q).items():
                k = m.count(a)
                x = mkpoly({tuple(y for y in m if y != a): c})
                for _ in range(k): x = pmul(x, padd(avar(ATOMS[a]), lo))
                r = padd(r, x)
            q = r
    return all(c >= 0 for c in terms(q).values())

# ---------------------------------------------------------------- sums
BVARS = {}
def bvar(depth):
    if depth not in BVARS:
        BVARS[depth] = mk_atom('v', '$b%d' % depth, 'int', '$b%d' % depth, lo=0)
    return BVARS[depth]

def _sumdepth(x):
    d = 0
    for dep in depsof(x):
        n = ATOMS[dep].name
        if n.startswith('$b'): d = max(d, int(n[2:]) + 1)
    return d

def psum(count, f):
    """Sum_{b<count} f(b);  f: value -> value (python function on a Poly)"""
    d = 0
    probe = f(var('$probe', 'int', lo=0))
    # find nesting depth of bound vars in the body
    d = _maxb(probe)
    b = bvar(d)
    return psum_body(count, f(avar(b)), b)

def _maxb(x):
    r = 0
    seen = set()
    def vis(p):
        nonlocal r
        if not isinstance(p, Poly): return
        for m in p.t:
            for a in m:
                if a in seen: continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == 'sum': r = max(r, at.data[2] + 1)
                for q in at.data if isinstance(at.data, tuple) else ():
                    if isinstance(q, Poly): vis(q)
                    elif isinstance(q, tuple):
                        for z in q:
                            if isinstance(z, Poly): vis(z)
    vis(x)
    return r

def counting(body):
    """0 or 1 per index"""
    return isinstance(body, Poly) and sort_of(body) == 'int' and all(ATOMS[a].kind == 'ite' for m in body.t for a in m) and rng(body) == (0, 1)
COUNTED = {}
def count_at(S, i): return subst(S.data[1], {bvar(S.data[2]).id: i})
def count_to(S, n): return psum_body(n, S.data[1], bvar(S.data[2]))
def count_pos(S, q):
    """index of the q-th counted one"""
    b = S.data[1]
    for nm, t in COUNTED.items():
        if t[0] == b: break
    else:
        nm = 'pos%d' % len(COUNTED); COUNTED[nm] = (b, S.data[2])
    return avar(mk_atom('app', (nm, (q,)), 'int', '%s(%s)' % (nm, show(q, 40)), depsof(q) | (b.deps - {bvar(S.data[2]).id})))
def psum_body(count, body, b):
    """b: bound atom; body Poly in b"""
    if not isinstance(count, Poly):
        r = 0
        for i in range(int(count)):
            r = padd(r, subst(body, {b.id: i}))
        return r
    # expand constant part of the count, and re-block common factors
    c0 = count.t.get((), 0)
    K0 = psub(count, c0)
    g = content(K0)
    if g > 1 and counting(body): g = 1
    extra = 0
    if c0 < 0 and g > 1:
        # e.g. 4q-4 -> treat 4(q-1)
        pass
    if c0 > 0:
        for i in range(c0):
            extra = padd(extra, subst(body, {b.id: padd(K0, i)}))
        count = K0
    elif c0 < 0:
        # Sum_{b<K0} minus the last -c0 terms (needs K0 >= -c0, true when the count is >= 0)
        for i in range(-c0):
            extra = psub(extra, subst(body, {b.id: padd(K0, -1 - i)}))
        count = K0
    if g > 1:
        nb = 0
        for r in range(g):
            nb = padd(nb, subst(body, {b.id: padd(pscale(avar(b), g), r)}))
        body = nb
        count = Poly({m: c // g for m, c in count.t.items()})
    # split monomials, pull invariants
    t = extra
    for m, c in terms(body).items():
        inv = tuple(a for a in m if b.id not in ATOMS[a].deps)
        dep = tuple(a for a in m if b.id in ATOMS[a].deps)
        if dep:
            bp = Poly({dep: 1})
            d = _maxb(bp)
            b2 = b
            if d != int(b.name[2:]):
                b2 = bvar(d)
                if b2.id in bp.deps: d = int(b.name[2:]); b2 = b
                else: bp = subst(bp, {b.id: avar(b2)})
            if (count.deps - {b2.id}) & bp.deps and not counting(bp):
                # an index running downwards: count upwards
                b3 = subst(bp, {b2.id: psub(psub(count, 1), avar(b2))})
                if isinstance(b3, Poly) and b3.deps < bp.deps:
                    if len(b3.t) != 1 or list(b3.t.values()) != [1]:
                        t = padd(t, pscale(pmul(mkpoly({inv: 1}), psum_body(count, b3, b2)), c)); continue
                    bp = b3
            at = mk_atom('sum', (count, bp, d), sort_of(bp), 'SUM[%s<%s](%s)' % (b2.name, show(count, 40), show(bp, 80)),
                         (bp.deps - {b2.id}) | depsof(count))
            s = avar(at)
        else:
            s = count
        t = padd(t, pscale(pmul(mkpoly({inv: 1}), s), c))
    return t

def sort_of(p):
    if isinstance(p, Poly):
        for m in p.t:
            for a in m:
                if ATOMS[a].sort == 'real': return 'real'
    elif type(p) is Fraction: return 'real'
    return 'int'

# ---------------------------------------------------------------- substitution
def subst(p, mp, memo=None):
    if not isinstance(p, Poly): return p
    ks = mp.keys()
    d = p.deps
    if not any(k in d for k in ks): return p
    if memo is None: memo = {}
    r = memo.get(p)
    if r is not None: return r
    same = {}
    r = 0
    for m, c in p.t.items():
        hit = False
        for a in m:
            ad = ATOMS[a].deps
            if a in mp or any(k in ad for k in ks):
                hit = True; break
        if not hit:
            same[m] = c; continue
        x = c
        for a in m:
            x = pmul(x, subst_atom(a, mp, memo))
        r = padd(r, x)
    r = padd(r, mkpoly(same)) if same else r
    memo[p] = r
    return r

def subst_atom(aid, mp, memo):
    if aid in mp: return mp[aid]
    a = ATOMS[aid]
    if not any(k in a.deps for k in mp): return avar(a)
    k = a.kind
    if k == 'cell':
        return cell(a.data[0], subst(a.data[1], mp, memo), a.data[2], a.sort, a.lo, a.hi)
    if k == 'app':
        return rebuild_app(a, [subst(x, mp, memo) for x in a.data[1]])
    if k == 'inv':
        return pinv(subst(a.data[0], mp, memo))
    if k == 'div':
        return idiv(subst(a.data[0], mp, memo), subst(a.data[1], mp, memo))
    if k == 'ite':
        return ite(csubst(a.data[0], mp, memo), subst(a.data[1], mp, memo), subst(a.data[2], mp, memo))
    if k == 'sum':
        cnt, body, d = a.data
        b = bvar(d)
        # avoid capture: substituted values containing $b_d
        mp2 = {x: v for x, v in mp.items() if x != b.id}
        if any(b.id in depsof(v) for v in mp2.values()):
            d2 = max([max(_maxb(v), _sumdepth(v)) for v in mp2.values()] + [_maxb(body), _sumdepth(body), d + 1])
            nb = bvar(d2)
            body = subst(body, {b.id: avar(nb)})
            b = nb
        return psum_body(subst(cnt, mp2), subst(body, mp2), b)
    if k == 'v': return avar(a)
    raise Exception('subst_atom ' + k)

REBUILD = {}
def rebuild_app(a, args):
    f = REBUILD.get(a.data[0])
    if f: return f(*args)
    return app(a.data[0], tuple(args), a.sort, a.lo, a.hi)

# ---------------------------------------------------------------- conditions
def c_le(p):
    """p <= 0 over ints"""
    if not isinstance(p, Poly): return p <= 0
    lo, hi = rng(p)
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    # normalise by content of the nonconstant part (tighten)
    g = 0
    for m, c in p.t.items():
        if m != (): g = gcd(g, c)
    if g > 1:
        t = {m: c // g for m, c in p.t.items() if m != ()}
        c0 = p.t.get((), 0)
        # sum + c0 <= 0 <=> sum/g <= floor(-c0/g)
        k = -((-c0) // g)
        if k: t[()] = k
        p = Poly(t)
    return ('le', p)

def c_lt(p): return c_le(padd(p, 1))

def c_eq(p):
    if not isinstance(p, Poly): return p == 0
    lo, hi = rng(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    g = 0
    for m, c in p.t.items():
        if m != ():
            if type(c) is not int: g = 1; break
            g = gcd(g, c)
    c0 = p.t.get((), 0)
    if g > 1 and type(c0) is int:
        if c0 % g: return False
        p = Poly({m: c // g for m, c in p.t.items()})
    if p.t[leadmono_nc(p)] < 0: p = pneg(p)
    return ('eq', p)

def leadmono_nc(p):
    return min(m for m in p.t if m != ())

def c_ne(p): return c_not(c_eq(p))

def c_rlt(p):
    if not isinstance(p, Poly): return p < 0
    return ('rlt', scale_pos(p))
def c_rle(p):
    if not isinstance(p, Poly): return p <= 0
    return ('rle', scale_pos(p))
def c_req(p):
    if not isinstance(p, Poly): return p == 0
    c = p.t[leadmono(p)]
    return ('req', pscale(p, Fraction(1) / c))

def scale_pos(p):
    c = abs(p.t[leadmono(p)])
    return p if c == 1 else pscale(p, Fraction(1) / c)

def c_not(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'not': return c[1]
    if k == 'le': return c_le(padd(pneg(c[1]), 1))
    if k == 'rlt': return ('rle', pneg(c[1]))
    if k == 'rle': return ('rlt', pneg(c[1]))
    if k == 'and': return c_or(*[c_not(x) for x in c[1]])
    if k == 'or': return c_and(*[c_not(x) for x in c[1]])
    return ('not', c)

def c_and(*cs):
    out = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c[0] == 'and': out.extend(x for x in c[1] if x not in out)
        elif c not in out: out.append(c)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and', tuple(out))

def c_or(*cs):
    out = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        if c[0] == 'or': out.extend(x for x in c[1] if x not in out)
        elif c not in out: out.append(c)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or', tuple(out))

def cdeps(c):
    if c is True or c is False: return EMPTY
    k = c[0]
    if k in ('le', 'eq', 'rlt', 'rle', 'req'): return depsof(c[1])
    if k == 'not': return cdeps(c[1])
    if k in ('and', 'or'):
        s = EMPTY
        for x in c[1]: s = s | cdeps(x)
        return s
    if k == 'all': return (cdeps(c[3]) - {c[1]}) | depsof(c[2])
    return EMPTY

def cdeps_atoms(c): return ()

def csubst(c, mp, memo=None):
    if c is True or c is False: return c
    k = c[0]
    if k == 'le': return c_le(subst(c[1], mp, memo))
    if k == 'eq': return c_eq(subst(c[1], mp, memo))
    if k == 'rlt': return c_rlt(subst(c[1], mp, memo))
    if k == 'rle': return c_rle(subst(c[1], mp, memo))
    if k == 'req': return c_req(subst(c[1], mp, memo))
    if k == 'not': return c_not(csubst(c[1], mp, memo))
    if k == 'and': return c_and(*[csubst(x, mp, memo) for x in c[1]])
    if k == 'or': return c_or(*[csubst(x, mp, memo) for x in c[1]])
    if k == 'bv':
        return c
    if k == 'all':
        mp2 = {x: y for x, y in mp.items() if x != c[1]}
        return c_all(c[1], subst(c[2], mp2), csubst(c[3], mp2))
    raise Exception('csubst ' + k)

def cmap(c, R):
    """the condition with R applied to its terms"""
    if c is True or c is False: return c
    k = c[0]
    f = {'le': c_le, 'eq': c_eq, 'rlt': c_rlt, 'rle': c_rle, 'req': c_req}.get(k)
    if f: return f(R(c[1]))
    if k == 'not': return c_not(cmap(c[1], R))
    if k == 'and': return c_and(*[cmap(x, R) for x in c[1]])
    if k == 'or': return c_or(*[cmap(x, R) for x in c[1]])
    return c

def c_all(j, K, body):
    """for every integer 0 <= j < K: body(j).  Only ever assumed (instantiated on the terms of a query), never negated"""
    if body is True or not isinstance(K, Poly) and K <= 0: return True
    return ('all', j, K, body)
def instances(c, atoms):
    """instances of a quantified fact at the cells and applications that occur in a query"""
    _, j, K, body = c
    pats = c_atoms(body, j)
    seen = set()
    for a in atoms:
        for q in pats:
            if q.kind != a.kind or q.sort != a.sort: continue
            if q.kind == 'cell':
                if q.data[0] != a.data[0] or q.data[2] != a.data[2]: continue
                pairs = [(q.data[1], a.data[1])]
            else:
                if q.data[0] != a.data[0] or len(q.data[1]) != len(a.data[1]): continue
                pairs = list(zip(q.data[1], a.data[1]))
            t = None
            for x, y in pairs:
                if not isinstance(x, Poly) or (j,) not in x.t: continue
                co = x.t[(j,)]; r = psub(x, pscale(avar(ATOMS[j]), co))
                if j in depsof(r): continue
                d = psub(y, r)
                if not isinstance(d, Poly):
                    if d % co == 0: t = d // co; break
                elif all(type(v) is int and v % co == 0 for v in d.t.values()): t = mkpoly({m: v // co for m, v in d.t.items()}); break
            if t is None or t in seen: continue
            seen.add(t)
            yield c_or(c_le(padd(t, 1)), c_le(psub(K, t)), csubst(body, {j: t}))
def c_atoms(c, j):
    out = []
    def vis(p):
        if not isinstance(p, Poly) or j not in p.deps: return
        for m in p.t:
            for a in m:
                at = ATOMS[a]
                if j not in at.deps: continue
                if at.kind in ('cell', 'app') and at not in out: out.append(at)
                for x in (at.data[1:2] if at.kind == 'cell' else at.data[1] if at.kind == 'app' else at.data if at.kind == 'div' else ()): vis(x)
    def walk(c):
        if c is True or c is False: return
        if c[0] in ('and', 'or'):
            for x in c[1]: walk(x)
        elif c[0] == 'not': walk(c[1])
        elif c[0] in ('le', 'eq', 'rlt', 'rle', 'req'): vis(c[1])
    walk(c)
    return out

def cshow(c):
    if c is True or c is False: return str(c)
    k = c[0]
    if k == 'le': return '%s<=0' % show(c[1], 100)
    if k == 'eq': return '%s==0' % show(c[1], 100)
    if k == 'rlt': return '%s<.0' % show(c[1], 100)
    if k == 'rle': return '%s<=.0' % show(c[1], 100)
    if k == 'req': return '%s==.0' % show(c[1], 100)
    if k == 'not': return '!(%s)' % cshow(c[1])
    if k in ('and', 'or'): return '(' + (' & ' if k == 'and' else ' | ').join(cshow(x) for x in c[1]) + ')'
    return str(c)[:100]

def show(p, lim=400):
    if not isinstance(p, Poly): return str(p)
    out = []
    n = 0
    for m, c in p.t.items():
        s = '*'.join(ATOMS[a].name for a in m)
        if m == (): s = str(c)
        elif c == 1: pass
        elif c == -1: s = '-' + s
        else: s = '%s*%s' % (c, s)
        out.append(s); n += len(s)
        if n > lim:
            out.append('...(%d terms)' % len(p.t)); break
    return ' + '.join(out).replace('+ -', '- ')

# ---------------------------------------------------------------- evaluation
def evalp(p, val, memo=None):
    """val: function atom -> number"""
    if not isinstance(p, Poly): return p
    r = 0
    for m, c in p.t.items():
        x = c
        for a in m: x = x * val(ATOMS[a])
        r = r + x
    return r
