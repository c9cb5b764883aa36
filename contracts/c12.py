"""Site-level tensor and complex algebra."""
from .lat import *
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'divisors are non-zero'])
G = Gen('C12', 'tensor', per=50)
VEC = ['CV', 'SV', 'F', 'HF', 'SF']; MAT = ['CM', 'SM', 'HSM', 'P', 'HP', 'SP']; ALL = ['X'] + VEC + MAT
def o(name, body, ops, spec, alias=(), **kw): G.expr(name, body, ops, spec, alias=alias, **kw)
def ty(fmt, **kw): return fmt
def has(k): return len(TYPES[k][1]) == 2 or len(TYPES[k][2]) == 2
for t in ALL:
    b = 'D:o%s X:o%s' % (t, t); b2 = b + ' Y:o' + t
    o('+ %s' % t, 'D = +X', b, lambda v: v['X'], ('X',))
    o('- %s' % t, 'D = -X', b, lambda v: -v['X'], ('X',))
    o('%s+%s' % (t, t), 'D = X + Y', b2, lambda v: v['X'] + v['Y'], ('X', 'Y', ('X', 'Y')))
    o('%s-%s' % (t, t), 'D = X - Y', b2, lambda v: v['X'] - v['Y'], ('X', 'Y', ('X', 'Y')))
    o('+= %s' % t, 'D += X', b, lambda v: v['D'] + v['X'], ('X',))
    o('-= %s' % t, 'D -= X', b, lambda v: v['D'] - v['X'], ('X',))
    o('conj %s' % t, 'D = conj(X)', b, lambda v: conj(v['X']), ('X',))
    o('timesI %s' % t, 'D = timesI(X)', b, lambda v: timesI(v['X']), ('X',))
    o('timesMinusI %s' % t, 'D = timesMinusI(X)', b, lambda v: timesMinusI(v['X']), ('X',))
    if t not in MAT: o('cmplx(real,imag) %s' % t, 'D = cmplx(real(X), imag(Y))', b2, lambda v: T(v['X'].ss, v['X'].cs, [C(p.r, q.i) for p, q in zip(v['X'].d, v['Y'].d)]))
    if t not in MAT: o('cmplx(imag,real) %s' % t, 'D = cmplx(imag(X), real(Y))', b2, lambda v: T(v['X'].ss, v['X'].cs, [C(p.i, q.r) for p, q in zip(v['X'].d, v['Y'].d)]))
    o('localNorm2 %s' % t, 'D = localNorm2(X)', 'D:oR X:o%s' % t, lambda v: localNorm2(v['X']))
    o('localInnerProduct %s' % t, 'D = localInnerProduct(X, Y)', 'D:oX X:o%s Y:o%s' % (t, t), lambda v: localInner(v['X'], v['Y']))
    o('localInnerProductReal %s' % t, 'D = localInnerProductReal(X, Y)', 'D:oR X:o%s Y:o%s' % (t, t), lambda v: localInnerReal(v['X'], v['Y']))
    for k in ('R', 'X'):
        if not (t == 'X' and k == 'X'):
            o('%s*%s' % (k, t), 'D = A*X', b + ' A:o' + k, lambda v: v['A'] * v['X'], ('X',))
            o('%s*%s' % (t, k), 'D = X*A', b + ' A:o' + k, lambda v: v['X'] * v['A'], ('X',))
            o('%s/%s' % (t, k), 'D = X/A', b + ' A:o' + k, lambda v, e: v['X'] * v['A'].map(lambda x: x.conj() * e.inv(x.norm2())), env=True, pre=(lambda e, vs: nz(e, vs['A'])))
        o('%s*=%s' % (t, k), 'D *= A', 'D:o%s A:o%s' % (t, k), lambda v: v['D'] * v['A'])
        o('%s/=%s' % (t, k), 'D /= A', 'D:o%s A:o%s' % (t, k), lambda v, e: v['D'] * v['A'].map(lambda x: x.conj() * e.inv(x.norm2())), env=True, pre=(lambda e, vs: nz(e, vs['A'])))
    if t != 'X':
        o('adj(X)*%s' % t, 'D = adj(A)*X', b + ' A:oX', lambda v: adj(v['A']) * v['X'])
        o('%s*adj(X)' % t, 'D = X*adj(A)', b + ' A:oX', lambda v: v['X'] * adj(v['A']))
    o('where %s' % t, 'D = where(B, X, Y)', b2 + ' B:oB', lambda v, e: T(v['X'].ss, v['X'].cs, [C(e.ite(e.nec(v['B'].d[0].r, 0), p.r, q.r), e.ite(e.nec(v['B'].d[0].r, 0), p.i, q.i)) for p, q in zip(v['X'].d, v['Y'].d)]), env=True)
def nz(e, a):
    x = a.old().d[0]
    e.assume(e.nonzero(x.norm2()))
o('X*X', 'D = X*Y', 'D:oX X:oX Y:oX', lambda v: v['X'] * v['Y'], ('X', 'Y', ('X', 'Y')))
o('X/X', 'D = X/Y', 'D:oX X:oX Y:oX', lambda v, e: v['X'] * v['Y'].map(lambda x: x.conj() * e.inv(x.norm2())), ('X',), env=True, pre=lambda e, vs: nz(e, vs['Y']))
o('R/X', 'D = X/Y', 'D:oX X:oR Y:oX', lambda v, e: v['X'] * v['Y'].map(lambda x: x.conj() * e.inv(x.norm2())), env=True, pre=lambda e, vs: nz(e, vs['Y']))
o('X+R', 'D = X+Y', 'D:oX X:oX Y:oR', lambda v: v['X'] + v['Y']); o('R+X', 'D = X+Y', 'D:oX X:oR Y:oX', lambda v: v['X'] + v['Y'])
o('X-R', 'D = X-Y', 'D:oX X:oX Y:oR', lambda v: v['X'] - v['Y']); o('R-X', 'D = X-Y', 'D:oX X:oR Y:oX', lambda v: v['X'] - v['Y'])
o('real X', 'D = real(X)', 'D:oR X:oX', lambda v: real(v['X'])); o('imag X', 'D = imag(X)', 'D:oR X:oX', lambda v: imag(v['X']))
o('cmplx R R', 'D = cmplx(X, Y)', 'D:oX X:oR Y:oR', lambda v: T((), (), [C(v['X'].d[0].r, v['Y'].d[0].r)]))
for a, bdy in (('adj(X)*Y', lambda v: adj(v['X']) * v['Y']), ('X*adj(Y)', lambda v: v['X'] * adj(v['Y'])), ('adj(X)*adj(Y)', lambda v: adj(v['X']) * adj(v['Y']))):
    o('complex ' + a, 'D = ' + a, 'D:oX X:oX Y:oX', bdy, ('X', 'Y', ('X', 'Y')))
o('R*R', 'D = X*Y', 'D:oR X:oR Y:oR', lambda v: v['X'] * v['Y']); o('R+R', 'D = X+Y', 'D:oR X:oR Y:oR', lambda v: v['X'] + v['Y']); o('R-R', 'D = X-Y', 'D:oR X:oR Y:oR', lambda v: v['X'] - v['Y'])
o('R/R', 'D = X/Y', 'D:oR X:oR Y:oR', lambda v, e: v['X'] * scal(e.inv(v['Y'].d[0].r)), env=True, pre=lambda e, vs: e.assume(e.nonzero(vs['Y'].old().d[0].r)))
# matrices
for t in ['X'] + MAT:
    b = 'D:o%s X:o%s' % (t, t)
    o('adj %s' % t, 'D = adj(X)', b, lambda v: adj(v['X']), ('X',))
    o('transpose %s' % t, 'D = transpose(X)', b, lambda v: transpose(v['X']), ('X',))
    o('trace %s' % t, 'D = trace(X)', 'D:oX X:o' + t, lambda v: trace(v['X']))
    o('realTrace %s' % t, 'D = realTrace(X)', 'D:oR X:o' + t, lambda v: real(trace(v['X'])))
    o('imagTrace %s' % t, 'D = imagTrace(X)', 'D:oR X:o' + t, lambda v: imag(trace(v['X'])))
    o('trace %s*%s' % (t, t), 'D = trace(X*Y)', 'D:oX X:o%s Y:o%s' % (t, t), lambda v: trace(v['X'] * v['Y']))
    o('trace adj %s*%s' % (t, t), 'D = trace(adj(X)*Y)', 'D:oX X:o%s Y:o%s' % (t, t), lambda v: trace(adj(v['X']) * v['Y']))
for t, r in (('P', 'SM'), ('HP', 'HSM'), ('CM', 'X')):
    o('traceColor %s' % t, 'D = traceColor(X)', 'D:o%s X:o%s' % (r, t), lambda v: traceColor(v['X']))
    o('traceColor %s*%s' % (t, t), 'D = traceColor(X*Y)', 'D:o%s X:o%s Y:o%s' % (r, t, t), lambda v: traceColor(v['X'] * v['Y']))
for t, r in (('P', 'CM'), ('HP', 'CM'), ('SM', 'X'), ('HSM', 'X')):
    o('traceSpin %s' % t, 'D = traceSpin(X)', 'D:o%s X:o%s' % (r, t), lambda v: traceSpin(v['X']))
    o('traceSpin %s*%s' % (t, t), 'D = traceSpin(X*Y)', 'D:o%s X:o%s Y:o%s' % (r, t, t), lambda v: traceSpin(v['X'] * v['Y']))
for t in ('SM', 'HSM', 'P', 'HP', 'SP'):
    o('transposeSpin %s' % t, 'D = transposeSpin(X)', 'D:o%s X:o%s' % (t, t), lambda v: transposeSpin(v['X']), ('X',))
    if t in ('P', 'HP', 'SP'): o('transposeColor %s' % t, 'D = transposeColor(X)', 'D:o%s X:o%s' % (t, t), lambda v: transposeColor(v['X']), ('X',))
# products on mixed index spaces
PROD = [('CM', 'CM', 'CM'), ('SM', 'SM', 'SM'), ('HSM', 'HSM', 'HSM'), ('P', 'P', 'P'), ('CM', 'P', 'P'), ('P', 'CM', 'P'), ('SM', 'P', 'P'), ('P', 'SM', 'P'), ('SP', 'SP', 'SP'),
        ('CM', 'SM', 'P'), ('SM', 'CM', 'P'), ('CM', 'CV', 'CV'), ('CM', 'F', 'F'), ('CM', 'HF', 'HF'), ('CM', 'SF', 'SF'), ('SM', 'SV', 'SV'), ('SM', 'F', 'F'), ('HSM', 'HF', 'HF'), ('P', 'F', 'F')]
for a, b, d in PROD:
    sq = b not in VEC
    al = tuple(x for x, k in (('X', a), ('Y', b)) if k == d)
    o('%s*%s' % (a, b), 'D = X*Y', 'D:o%s X:o%s Y:o%s' % (d, a, b), lambda v: v['X'] * v['Y'], al)
    o('adj %s*%s' % (a, b), 'D = adj(X)*Y', 'D:o%s X:o%s Y:o%s' % (d, a, b), lambda v: adj(v['X']) * v['Y'], al)
    o('+= %s*%s' % (a, b), 'D += X*Y', 'D:o%s X:o%s Y:o%s' % (d, a, b), lambda v: v['D'] + v['X'] * v['Y'], al)
    o('-= adj %s*%s' % (a, b), 'D -= adj(X)*Y', 'D:o%s X:o%s Y:o%s' % (d, a, b), lambda v: v['D'] - adj(v['X']) * v['Y'], al)
    if sq:
        o('%s*adj %s' % (a, b), 'D = X*adj(Y)', 'D:o%s X:o%s Y:o%s' % (d, a, b), lambda v: v['X'] * adj(v['Y']), al)
        o('adj %s*adj %s' % (a, b), 'D = adj(X)*adj(Y)', 'D:o%s X:o%s Y:o%s' % (d, a, b), lambda v: adj(v['X']) * adj(v['Y']), al)
for t in ('CM', 'SM', 'P'):
    for k in ('R', 'X'):
        o('%s+%s' % (t, k), 'D = X+A', 'D:o%s X:o%s A:o%s' % (t, t, k), lambda v: v['X'] + v['A'], ('X',))
        o('%s+%s' % (k, t), 'D = A+X', 'D:o%s X:o%s A:o%s' % (t, t, k), lambda v: v['A'] + v['X'], ('X',))
        o('%s-%s' % (t, k), 'D = X-A', 'D:o%s X:o%s A:o%s' % (t, t, k), lambda v: v['X'] - v['A'], ('X',))
        o('%s-%s' % (k, t), 'D = A-X', 'D:o%s X:o%s A:o%s' % (t, t, k), lambda v: v['A'] - v['X'], ('X',))
        o('%s=%s' % (t, k), 'D = A', 'D:o%s A:o%s' % (t, k), lambda v: v['A'].lift(v['D']))
# outer products
def outer(a, b):
    ss = a.ss * 2; cs = a.cs * 2; na, nb = size(a.ss), size(a.cs)
    return T(ss, cs, [a.at(i, p) * b.at(j, q).conj() for i in range(na) for j in (range(na) if a.ss else (0,)) for p in range(nb) for q in (range(nb) if a.cs else (0,))])
for t, r in (('CV', 'CM'), ('SV', 'SM'), ('F', 'P'), ('HF', 'HP'), ('X', 'X'), ('SF', 'SP')):
    o('outerProduct %s' % t, 'D = outerProduct(X,Y)', 'D:o%s X:o%s Y:o%s' % (r, t, t), lambda v: outer(v['X'], v['Y']))
o('traceSpin outerProduct F', 'D = traceSpin(outerProduct(X,Y))', 'D:oCM X:oF Y:oF', lambda v: traceSpin(outer(v['X'], v['Y'])))
o('traceSpin outerProduct SV', 'D = traceSpin(outerProduct(X,Y))', 'D:oX X:oSV Y:oSV', lambda v: traceSpin(outer(v['X'], v['Y'])))
# colour contractions
EPS = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (1, 0, 2): -1, (0, 2, 1): -1, (2, 1, 0): -1}
def c1(x): return T((), (), [x])
o('localColorInnerProduct CV', 'D = localColorInnerProduct(X,Y)', 'D:oX X:oCV Y:oCV', lambda v: localInner(v['X'], v['Y']))
o('colorContract CV', 'D = colorContract(X,Y,Z)', 'D:oX X:oCV Y:oCV Z:oCV', lambda v: c1(sum((v['X'].d[a] * v['Y'].d[b] * v['Z'].d[c] * s for (a, b, c), s in EPS.items()), C(0, 0))))
o('colorContract CM', 'D = colorContract(X,Y,Z)', 'D:oX X:oCM Y:oCM Z:oCM', lambda v: c1(sum((v['X'].at(0, a * 3 + d) * v['Y'].at(0, b * 3 + e) * v['Z'].at(0, c * 3 + f) * (s * t) for (a, b, c), s in EPS.items() for (d, e, f), t in EPS.items()), C(0, 0))))
o('colorVectorContract', 'D = colorVectorContract(X,Y)', 'D:oX X:oCV Y:oCV', lambda v: c1(sum((a * b for a, b in zip(v['X'].d, v['Y'].d)), C(0, 0))))
o('colorCrossProduct', 'D = colorCrossProduct(X,Y)', 'D:oCV X:oCV Y:oCV', lambda v: T((), (3,), [sum((v['X'].d[b] * v['Y'].d[c] * s for (a, b, c), s in EPS.items() if a == i), C(0, 0)) for i in range(3)]))
def xx(A, B):
    """A, B: 9 complex numbers; dest[k2][k1] = eps^{i1 j1 k1} eps^{i2 j2 k2} A[i1][i2] B[j1][j2]"""
    out = []
    for k2 in range(3):
        for k1 in range(3):
            r = C(0, 0)
            for (i1, j1, kk1), s in EPS.items():
                if kk1 != k1: continue
                for (i2, j2, kk2), t in EPS.items():
                    if kk2 != k2: continue
                    r = r + A[i1 * 3 + i2] * B[j1 * 3 + j2] * (s * t)
            out.append(r)
    return out
def blk(x, i, j): return x.d[(i * 4 + j) * 9:(i * 4 + j) * 9 + 9]
def qc(f):
    def spec(v):
        X, Y = v['X'], v['Y']; out = []
        for i in range(4):
            for j in range(4):
                acc = None
                for k in range(4):
                    (a, b), (c, d) = f(i, j, k)
                    r = xx(blk(X, a, b), blk(Y, c, d))
                    acc = r if acc is None else [p + q for p, q in zip(acc, r)]
                out += acc
        return T((4, 4), (3, 3), out)
    return spec
QC = {'13': lambda i, j, k: ((k, i), (k, j)), '14': lambda i, j, k: ((k, i), (j, k)), '23': lambda i, j, k: ((i, k), (k, j)),
      '24': lambda i, j, k: ((i, k), (j, k)), '12': lambda i, j, k: ((k, k), (i, j)), '34': lambda i, j, k: ((i, j), (k, k))}
for n, f in QC.items():
    o('quarkContract%s' % n, 'D = quarkContract%s(X,Y)' % n, 'D:oP X:oP Y:oP', qc(f), timeout=300, weight=20)
o('traceSpin quarkContract13', 'D = traceSpin(quarkContract13(X,Y))', 'D:oCM X:oP Y:oP', lambda v: traceSpin(qc(QC['13'])(v)), timeout=300, weight=20)
# double precision instances
for t in ('DX', 'DCM', 'DF', 'DCV'):
    o('double %s mult' % t, 'D = X*Y', 'D:o%s X:o%s Y:o%s' % (t, 'DX' if t == 'DX' else 'DCM', t), lambda v: v['X'] * v['Y'])
    o('double %s localNorm2' % t, 'D = localNorm2(X)', 'D:oD X:o%s' % t, lambda v: localNorm2(v['X']))
    o('mixed %s = float' % t, 'D = X', 'D:o%s X:o%s' % (t, t[1:]), lambda v: v['X'])
    o('mixed float = %s' % t, 'D = X', 'D:o%s X:o%s' % (t[1:], t), lambda v: v['X'])
# comparisons and predicates
for op, f in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eqc'), ('!=', 'nec')):
    for t in ('R', 'I'):
        def spec(v, e, f=f, t=t):
            a, b = v['X'].d[0].r, v['Y'].d[0].r
            return scal(e.ite(e.rel(f, a, b, t == 'R'), 1, 0))
        o('%s%s%s' % (t, op, t), 'D = X %s Y' % op, 'D:oB X:o%s Y:o%s' % (t, t), spec, env=True)
for op, f in (('&&', lambda e, a, b: e.and_(a, b)), ('||', lambda e, a, b: e.or_(a, b))):
    o('B%sB' % op, 'D = X %s Y' % op, 'D:oB X:oB Y:oB', lambda v, e, f=f: scal(e.ite(f(e, e.nec(v['X'].d[0].r, 0), e.nec(v['Y'].d[0].r, 0)), 1, 0)), env=True)
o('!B', 'D = !X', 'D:oB X:oB', lambda v, e: scal(e.ite(e.nec(v['X'].d[0].r, 0), 0, 1)), env=True)
