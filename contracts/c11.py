"""Gamma algebra: the matrix denoted by n is the product of the generators in bit order, in both bases."""
from .lat import *
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites',
   'the four generators of each basis are the matrices written in /verif/contracts/c11.py (the definition of the basis); all sixteen products are derived from them'])
i, mi = C(0, 1), C(0, -1); z = 0
DR = [spinmat([[z, z, z, i], [z, z, i, z], [z, mi, z, z], [mi, z, z, z]]),
      spinmat([[z, z, z, -1], [z, z, 1, z], [z, 1, z, z], [-1, z, z, z]]),
      spinmat([[z, z, i, z], [z, z, z, mi], [mi, z, z, z], [z, i, z, z]]),
      spinmat([[z, z, 1, z], [z, z, z, 1], [1, z, z, z], [z, 1, z, z]])]
DP = [spinmat([[z, z, z, mi], [z, z, mi, z], [z, i, z, z], [i, z, z, z]]),
      spinmat([[z, z, z, -1], [z, z, 1, z], [z, 1, z, z], [-1, z, z, z]]),
      spinmat([[z, z, mi, z], [z, z, z, i], [i, z, z, z], [z, mi, z, z]]),
      spinmat([[1, z, z, z], [z, 1, z, z], [z, z, -1, z], [z, z, z, -1]])]
ONE = diag_spin([1] * 4)
def prod(G, n):
    r = ONE
    for b in range(4):
        if n >> b & 1: r = r * G[b]
    return r
def same(a, b): return all(p.r == q.r and p.i == q.i for p, q in zip(a.d, b.d))
for G_ in (DR, DP):        # the specification itself satisfies the Clifford relations and is Hermitian
    for a in range(4):
        assert same(adj(G_[a]), G_[a])
        for b in range(4):
            assert same(G_[a] * G_[b] + G_[b] * G_[a], scal(2 if a == b else 0) * ONE)
G = Gen('C11', 'gamma', per=48)
for bas, gens, cn, rn in (('DR', DR, 'GammaConst', 'Gamma'), ('DP', DP, 'GammaConstDP', 'GammaDP')):
    for n in range(16):
        M = prod(gens, n)
        L = lambda v, M=M: M * v['X']
        R_ = lambda v, M=M: v['X'] * M
        k = '%s<Ns,%d>()' % (cn, n); r = 'GammaType%s<Ns>(%d)' % ('DP' if bas == 'DP' else '', n)
        G.expr('%s const %d left spinvector' % (bas, n), 'D = %s*X' % k, 'D:oSV X:oSV', L, alias=('X',))
        G.expr('%s const %d left spinmatrix' % (bas, n), 'D = %s*X' % k, 'D:oSM X:oSM', L, alias=('X',))
        G.expr('%s const %d right spinmatrix' % (bas, n), 'D = X*%s' % k, 'D:oSM X:oSM', R_, alias=('X',))
        G.expr('%s const %d left fermion' % (bas, n), 'D[s] = %s*X' % k, 'D:F X:F', L, alias=('X',), subs=('table',))
        G.expr('%s const %d left expression' % (bas, n), 'D[s] = %s*(X+D)' % k, 'D:F X:F', lambda v, M=M: M * (v['X'] + v['D']), subs=('table',))
        G.expr('%s const %d left propagator' % (bas, n), 'D[s] = %s*X' % k, 'D:P X:P', L, subs=('ordered',))
        G.expr('%s const %d right propagator' % (bas, n), 'D[s] = X*%s' % k, 'D:P X:P', R_, subs=('table',))
        G.expr('%s run time %d left fermion' % (bas, n), 'D[s] = %s*X' % r, 'D:F X:F', L, alias=('X',), subs=('table',))
        G.expr('%s run time %d left spinvector expression' % (bas, n), 'D[s] = %s*(X-D)' % r, 'D:SV X:SV', lambda v, M=M: M * (v['X'] - v['D']), subs=('ordered',))
        G.expr('%s run time %d left spinmatrix' % (bas, n), 'D[s] = %s*X' % r, 'D:SM X:SM', L, alias=('X',), subs=('table',))
        G.expr('%s run time %d right spinmatrix' % (bas, n), 'D[s] = X*%s' % r, 'D:SM X:SM', R_, alias=('X',), subs=('table',))
        G.expr('%s run time %d right expression' % (bas, n), 'D[s] = (X+D)*%s' % r, 'D:SM X:SM', lambda v, M=M: (v['X'] + v['D']) * M, subs=('table',))
        G.expr('%s run time %d left propagator' % (bas, n), 'D[s] = %s*X' % r, 'D:P X:P', L, subs=('table',))
        G.expr('%s run time %d right propagator' % (bas, n), 'D[s] = X*%s' % r, 'D:P X:P', R_, subs=('ordered',))
