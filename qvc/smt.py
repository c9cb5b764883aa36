"""SMT back end: translate conditions over Polys to z3 and prove them."""
import time, os, sys
import z3
from .poly import *
from . import poly as P

SCALE = 1    # multiplies the time limits of single queries

class Stats:
    def __init__(s):
        s.queries = 0; s.time = 0.0; s.unknown = 0; s.cache = 0

class Prover:
    def __init__(s, timeout_ms=8000):
        s.axioms = []      # functions atom -> iterable of Conds
        s.axioms2 = []     # functions (atom, atom) -> iterable of Conds
        s.facts = []       # always-true Conds
        s.stats = Stats()
        s.cache = {}
        s.timeout = timeout_ms
        s.vars = {}
        s.zcache = {}
        s.last_model = None

    def zatom(s, a):
        z = s.vars.get(a.id)
        if z is None:
            if a.kind == 'ite':
                z = z3.If(s.zc(a.data[0]), s.zp(a.data[1], a.sort), s.zp(a.data[2], a.sort))
            else:
                nm = 'a%d' % a.id
                z = z3.Int(nm) if a.sort == 'int' else z3.Real(nm)
            s.vars[a.id] = z
        return z

    def zp(s, p, sort=None):
        if not isinstance(p, Poly):
            if sort == 'real' or type(p) is Fraction: return z3.RealVal(str(p))
            if isinstance(p, float): raise Exception('inf')
            return z3.IntVal(p)
        if sort is None: sort = sort_of(p)
        out = []
        for m, c in p.t.items():
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c)) if sort == 'real' else z3.IntVal(c))
            for a in m:
                z = s.zatom(ATOMS[a])
                if sort == 'real' and ATOMS[a].sort == 'int': z = z3.ToReal(z)
                fs.append(z)
            r = fs[0]
            for f in fs[1:]: r = r * f
            out.append(r)
        if len(out) == 1: return out[0]
        return z3.Sum(out)

    def zc(s, c):
        r = s.zcache.get(c)
        if r is None: r = s.zcache[c] = s.zc1(c)
        return r

    def zc1(s, c):
        if c is True or c is False: return z3.BoolVal(c)
        k = c[0]
        if k == 'bv': return c[1].e
        if k == 'le': return s.zp(c[1]) <= 0
        if k == 'eq': return s.zp(c[1]) == 0
        if k == 'rlt': return s.zp(c[1], 'real') < 0
        if k == 'rle': return s.zp(c[1], 'real') <= 0
        if k == 'req': return s.zp(c[1], 'real') == 0
        if k == 'not': return z3.Not(s.zc(c[1]))
        if k == 'and': return z3.And([s.zc(x) for x in c[1]])
        if k == 'or': return z3.Or([s.zc(x) for x in c[1]])
        if k == 'bv': return c[1].e
        raise Exception('zc ' + str(k))

    # ---- atoms reachable from a condition
    def collect(s, conds):
        seen = {}
        st = list(conds)
        while st:
            c = st.pop()
            if c is True or c is False or c is None: continue
            if isinstance(c, Poly):
                for m in c.t:
                    for a in m:
                        if a in seen: continue
                        at = ATOMS[a]; seen[a] = at
                        if at.kind == 'cell': st.append(at.data[1])
                        elif at.kind == 'app': st.extend(at.data[1])
                        elif at.kind == 'inv': st.append(at.data[0])
                        elif at.kind == 'div': st.extend(at.data)
                        elif at.kind == 'ite': st.extend(at.data)
                        elif at.kind == 'sum': st.append(at.data[0])
            elif type(c) is tuple:
                if c[0] in ('and', 'or'): st.extend(c[1])
                elif c[0] == 'bv': pass
                elif len(c) > 1: st.append(c[1])
        return seen

    def side(s, conds, alls=()):
        """side constraints for all atoms: ranges, div definitions, axioms, Ackermann"""
        out = []
        done = {}
        work = list(conds) + s.facts
        pend = work
        rounds = 0
        while True:
            atoms = s.collect(pend)
            new = {k: v for k, v in atoms.items() if k not in done}
            if not new: break
            done.update(new)
            extra = []
            for a in new.values():
                if a.sort == 'int':
                    z = s.zatom(a)
                    if a.lo is not None: out.append(z >= a.lo)
                    if a.hi is not None: out.append(z <= a.hi)
                if a.kind == 'div':
                    p, q = a.data
                    zp_, zq = s.zp(p), s.zp(q)
                    z = s.zatom(a)
                    if isinstance(q, Poly):
                        out.append(z3.Implies(zq > 0, z3.And(zq * z <= zp_, zp_ < zq * z + zq)))
                        out.append(z3.Implies(z3.And(zq > 0, zp_ >= 0), z >= 0))
                    else:
                        out.append(zq * z <= zp_); out.append(zp_ < zq * z + zq)
                if rounds < 2:
                    for ax in s.axioms: extra.extend(ax(a))
            if rounds < 3:
                for c in alls: extra.extend(instances(c, new.values()))
            if rounds < 2:
                vals = list(done.values())
                for ax in s.axioms2:
                    for a in new.values():
                        for b in vals:
                            if a is not b:
                                extra.extend(ax(a, b))
                                if b.id not in new: extra.extend(ax(b, a))
            # Ackermann on int cells / apps
            groups = {}
            for a in done.values():
                if a.kind == 'cell' and a.sort == 'int': groups.setdefault(('c', a.data[0], a.data[2]), []).append(a)
                elif a.kind == 'app' and a.sort == 'int': groups.setdefault(('f', a.data[0], len(a.data[1])), []).append(a)
            for g in groups.values():
                for i in range(len(g)):
                    for j in range(i):
                        if g[i].id in new or g[j].id in new:
                            if g[i].kind == 'cell':
                                e = c_eq(psub(g[i].data[1], g[j].data[1]))
                            else:
                                e = c_and(*[c_eq(psub(x, y)) for x, y in zip(g[i].data[1], g[j].data[1])])
                            if e is not False:
                                out.append(z3.Implies(s.zc(e), s.zatom(g[i]) == s.zatom(g[j])))
            extra = [e for e in extra if e is not True]
            out.extend(s.zc(e) for e in extra)
            pend = extra
            rounds += 1
            if rounds > 6: break
        out.extend(s.zc(f) for f in s.facts if f is not True)
        return out

    def sat(s, conds, timeout=None):
        """'sat' | 'unsat' | 'unknown'"""
        if any(c is False for c in conds): return 'unsat'
        conds = [c for c in conds if c is not True]
        key = frozenset(conds)
        alls = [c for c in conds if c[0] == 'all']
        conds = [c for c in conds if c[0] != 'all']
        r = s.cache.get(key)
        if r is not None:
            s.stats.cache += 1
            return r[0] if r[0] != 'sat' else s._setm(r)
        t0 = time.time()
        sol = z3.SimpleSolver()
        sol.set('timeout', SCALE * min(800, timeout or s.timeout))
        cs = s.side(conds, alls) + [s.zc(c) for c in conds]
        sol.add(*cs)
        rr = sol.check()
        if rr == z3.unknown:
            sol = z3.Solver()
            sol.set('timeout', SCALE * (timeout or s.timeout))
            sol.add(*cs)
            rr = sol.check()
        s.stats.queries += 1
        s.stats.time += time.time() - t0
        r = 'sat' if rr == z3.sat else 'unsat' if rr == z3.unsat else 'unknown'
        m = sol.model() if r == 'sat' else None
        if r == 'unknown': s.stats.unknown += 1
        s.cache[key] = (r, m)
        if m is not None: s.last_model = m
        if os.environ.get('QVC_TRACE') and time.time() - t0 > 0.5:
            sys.stderr.write('slow smt %.1fs %s\n' % (time.time() - t0, r))
        return r
    def _setm(s, r):
        s.last_model = r[1]
        return 'sat'

    def mval(s, p, model=None):
        """value of an int poly in the last model"""
        m = model or s.last_model
        v = m.eval(s.zp(p), model_completion=True)
        try: return v.as_long()
        except Exception:
            return None

    def polypos(s, g):
        if g[0] == 'le' and isinstance(g[1], Poly): return any(len(m) > 1 for m in g[1].t) and P.polypos(pneg(g[1]))
        if g[0] == 'and': return all(type(x) is tuple and s.polypos(x) for x in g[1])
        return False
    def prove(s, pc, goal, timeout=None):
        if goal is True: return True
        if goal is False:
            # provable only if pc is inconsistent
            return s.sat(list(pc), timeout) == 'unsat'
        if goal in pc: return True
        if type(goal) is tuple and s.polypos(goal):
            s.stats.poly = getattr(s.stats, 'poly', 0) + 1
            return True
        return s.sat(list(pc) + [c_not(goal)], timeout) == 'unsat'
