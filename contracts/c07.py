"""Chiral projection kernels."""
from .lat import *
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites (24*sites fits int)', 'gamma5 = Gamma(15) = diag(1,1,-1,-1) in the default basis; C11 checks the gamma tables themselves'])
G = Gen('C07', 'g5', per=22)
PP = diag_spin([1, 1, 0, 0]); PM = diag_spin([0, 0, 1, 1]); G5 = diag_spin([1, 1, -1, -1])
OPS = 'D:F X:F Y:F A:oR B:oR'
PJ = {'+': ('chiralProjectPlus', PP), '-': ('chiralProjectMinus', PM)}
for sg, (cp, P) in PJ.items():
    n = 'P' + sg
    def e(name, body, spec, alias=('X',)):
        G.expr(name, body, 'D:F X:F A:oR' if 'Y' not in body else ('D:F X:F Y:F A:oR B:oR' if 'B' in body else 'D:F X:F Y:F A:oR'), spec, alias=alias)
    e('d+=a*%s x' % n, 'D[s] += A*%s(X)' % cp, lambda v, P=P: v['D'] + v['A'] * (P * v['X']))
    e('d-=a*%s x' % n, 'D[s] -= A*%s(X)' % cp, lambda v, P=P: v['D'] - v['A'] * (P * v['X']))
    e('d+=%s x' % n, 'D[s] += %s(X)' % cp, lambda v, P=P: v['D'] + P * v['X'])
    e('d-=%s x' % n, 'D[s] -= %s(X)' % cp, lambda v, P=P: v['D'] - P * v['X'])
    e('d=%s x' % n, 'D[s] = %s(X)' % cp, lambda v, P=P: P * v['X'])
    al = ('X', 'Y', ('X', 'Y'))
    e('d=x+a*%s y' % n, 'D[s] = X + A*%s(Y)' % cp, lambda v, P=P: v['X'] + v['A'] * (P * v['Y']), al)
    e('d=x-a*%s y' % n, 'D[s] = X - A*%s(Y)' % cp, lambda v, P=P: v['X'] - v['A'] * (P * v['Y']), al)
    e('d=a*x+%s y' % n, 'D[s] = A*X + %s(Y)' % cp, lambda v, P=P: v['A'] * v['X'] + P * v['Y'], al)
    e('d=a*x-%s y' % n, 'D[s] = A*X - %s(Y)' % cp, lambda v, P=P: v['A'] * v['X'] - P * v['Y'], al)
    e('d=a*%s x' % n, 'D[s] = A*%s(X)' % cp, lambda v, P=P: v['A'] * (P * v['X']))
    e('d=a*x+b*%s y' % n, 'D[s] = A*X + B*%s(Y)' % cp, lambda v, P=P: v['A'] * v['X'] + v['B'] * (P * v['Y']), al)
    e('d=a*x-b*%s y' % n, 'D[s] = A*X - B*%s(Y)' % cp, lambda v, P=P: v['A'] * v['X'] - v['B'] * (P * v['Y']), al)
g5 = 'GammaConst<Ns,Ns*Ns-1>()'
e('d=a*g5 x', 'D[s] = A*(%s*X)' % g5, lambda v: v['A'] * (G5 * v['X']))
e('d=x-a*g5 y', 'D[s] = X - A*(%s*Y)' % g5, lambda v: v['X'] - v['A'] * (G5 * v['Y']), al)
e('d=a*x+b*g5 y', 'D[s] = A*X + B*(%s*Y)' % g5, lambda v: v['A'] * v['X'] + v['B'] * (G5 * v['Y']), al)
e('d=g5(a*x-b*y)', 'D[s] = %s*(A*X - B*Y)' % g5, lambda v: G5 * (v['A'] * v['X'] - v['B'] * v['Y']), al)
e('d=a*x+b*g5 i y', 'D[s] = A*X + B*(%s*timesI(Y))' % g5, lambda v: v['A'] * v['X'] + v['B'] * (G5 * timesI(v['Y'])), al)
e('d=a*x-b*g5 i y', 'D[s] = A*X - B*(%s*timesI(Y))' % g5, lambda v: v['A'] * v['X'] - v['B'] * (G5 * timesI(v['Y'])), al)
e('d=x+a*g5 i y', 'D[s] = X + A*(%s*timesI(Y))' % g5, lambda v: v['X'] + v['A'] * (G5 * timesI(v['Y'])), al)
e('d=x-a*g5 i y', 'D[s] = X - A*(%s*timesI(Y))' % g5, lambda v: v['X'] - v['A'] * (G5 * timesI(v['Y'])), al)
e('d+=a*g5 i x', 'D[s] += A*(%s*timesI(X))' % g5, lambda v: v['D'] + v['A'] * (G5 * timesI(v['X'])))
e('d-=a*g5 i x', 'D[s] -= A*(%s*timesI(X))' % g5, lambda v: v['D'] - v['A'] * (G5 * timesI(v['X'])))
