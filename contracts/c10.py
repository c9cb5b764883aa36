"""Spin projection / reconstruction."""
from .lat import *
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites',
  'the specialised headers are verified in a unit that includes them after qdp.h (the default configuration leaves them out)'])
i, mi = C(0, 1), C(0, -1); z = 0
GAM = [spinmat([[z, z, z, i], [z, z, i, z], [z, mi, z, z], [mi, z, z, z]]),
       spinmat([[z, z, z, -1], [z, z, 1, z], [z, 1, z, z], [-1, z, z, z]]),
       spinmat([[z, z, i, z], [z, z, z, mi], [mi, z, z, z], [z, i, z, z]]),
       spinmat([[z, z, 1, z], [z, z, z, 1], [1, z, z, z], [z, 1, z, z]])]
def onepm(mu, sg): return scal(1) * diag_spin([1] * 4) + scal(sg) * GAM[mu]
def proj(mu, sg, x):
    y = onepm(mu, sg) * x
    n = size(x.cs)
    return T((2,), x.cs, y.d[:2 * n])
def recon(mu, sg, h):
    """[h; s*B^dagger h] with gamma = [[0,B],[B^dagger,0]]"""
    n = size(h.cs); low = []
    for r in (2, 3):
        for c in range(n):
            low.append(scal(sg * GAM[mu].at(r * 4 + 0, 0)).d[0] * h.at(0, c) + scal(sg * GAM[mu].at(r * 4 + 1, 0)).d[0] * h.at(1, c))
    return T((4,), h.cs, h.d + low)
def _selfcheck():
    import random
    for mu in range(4):
        for sg in (1, -1):
            x = T((4,), (3,), [C(random.randrange(-9, 9), random.randrange(-9, 9)) for _ in range(12)])
            a = recon(mu, sg, proj(mu, sg, x)); b = onepm(mu, sg) * x
            assert all(p.r == q.r and p.i == q.i for p, q in zip(a.d, b.d))
_selfcheck()
MUS = [(mu, sg, 'Dir%d%s' % (mu, 'Plus' if sg > 0 else 'Minus')) for mu in range(4) for sg in (1, -1)]
INL = '''#include "scalarsite_generic/generic_mv_switchbox.h"
#include "scalarsite_generic/generic_spin_proj_inlines.h"
#include "scalarsite_generic/generic_spin_recon_inlines.h"
'''
GT = Gen('C10', 'spin', per=40)
GH = Gen('C10', 'spinhook', head=INL + '#include "scalarsite_generic/generic_spin_proj.h"\n#include "scalarsite_generic/generic_spin_recon.h"\n', per=40)
GF = Gen('C10', 'spinfused', head=INL + '''#include "scalarsite_generic/generic_fused_spin_proj.h"
#include "scalarsite_generic/generic_fused_spin_recon.h"
#include "scalarsite_generic/generic_spin_aggregate.h"
''', per=40)
for mu, sg, nm in MUS:
    for G, pre in ((GT, ''), (GH, 'hook '), (GF, 'special ')):
        G.expr(pre + 'd=proj %s x' % nm, 'D[s] = spinProject%s(X)' % nm, 'D:HF X:F', lambda v, mu=mu, sg=sg: proj(mu, sg, v['X']))
        G.expr(pre + 'd=recon %s x' % nm, 'D[s] = spinReconstruct%s(X)' % nm, 'D:F X:HF', lambda v, mu=mu, sg=sg: recon(mu, sg, v['X']))
        G.expr(pre + 'd+=recon %s x' % nm, 'D[s] += spinReconstruct%s(X)' % nm, 'D:F X:HF', lambda v, mu=mu, sg=sg: v['D'] + recon(mu, sg, v['X']))
        G.expr(pre + 'd=adj(u)*proj %s x' % nm, 'D[s] = adj(U)*spinProject%s(X)' % nm, 'D:HF U:CM X:F', lambda v, mu=mu, sg=sg: adj(v['U']) * proj(mu, sg, v['X']))
        G.expr(pre + 'd=recon %s u*x' % nm, 'D[s] = spinReconstruct%s(U*X)' % nm, 'D:F U:CM X:HF', lambda v, mu=mu, sg=sg: recon(mu, sg, v['U'] * v['X']))
        G.expr(pre + 'd+=recon %s u*x' % nm, 'D[s] += spinReconstruct%s(U*X)' % nm, 'D:F U:CM X:HF', lambda v, mu=mu, sg=sg: v['D'] + recon(mu, sg, v['U'] * v['X']))
    # forms that do not match a specialisation, composed round trips, other fibre types
    for G, pre in ((GT, ''), (GF, 'special ')):
        G.expr(pre + 'd=recon proj %s x' % nm, 'D[s] = spinReconstruct%s(spinProject%s(X))' % (nm, nm), 'D:F X:F', lambda v, mu=mu, sg=sg: onepm(mu, sg) * v['X'], alias=('X',))
        G.expr(pre + 'd-=recon %s u*x' % nm, 'D[s] -= spinReconstruct%s(U*X)' % nm, 'D:F U:CM X:HF', lambda v, mu=mu, sg=sg: v['D'] - recon(mu, sg, v['U'] * v['X']))
        G.expr(pre + 'double d=recon proj %s x' % nm, 'D[s] = spinReconstruct%s(spinProject%s(X))' % (nm, nm), 'D:DF X:DF', lambda v, mu=mu, sg=sg: onepm(mu, sg) * v['X'], alias=('X',))
    GT.expr('spinvector recon proj %s' % nm, 'D[s] = spinReconstruct%s(spinProject%s(X))' % (nm, nm), 'D:SV X:SV', lambda v, mu=mu, sg=sg: onepm(mu, sg) * v['X'], alias=('X',))
    GT.expr('run time proj %s' % nm, 'D = spinProject(X, %d, %d)' % (mu, sg), 'D:oHF X:oF', lambda v, mu=mu, sg=sg: proj(mu, sg, v['X']))
    GT.expr('run time recon %s' % nm, 'D = spinReconstruct(X, %d, %d)' % (mu, sg), 'D:oF X:oHF', lambda v, mu=mu, sg=sg: recon(mu, sg, v['X']))
# chiral projectors on spinors and on spin matrices / propagators
for sg, cp, P in (('+', 'Plus', diag_spin([1, 1, 0, 0])), ('-', 'Minus', diag_spin([0, 0, 1, 1]))):
    for ty in ('SV', 'F', 'SM', 'P'):
        GT.expr('chiral %s %s' % (sg, ty), 'D[s] = chiralProject%s(X)' % cp, 'D:%s X:%s' % (ty, ty), lambda v, P=P: P * v['X'], alias=('X',))

# raw site kernels, any number of sites
u = unit('spinraw', ['$GEN'])
u.text = '#include "h.h"\n' + INL + ''.join('H h_p%s(const R* s, R* d, unsigned n) { inlineSpinProj%s(s, d, n); }\nH h_r%s(const R* s, R* d, unsigned n) { inlineSpinRecon%s(s, d, n); }\nH h_a%s(const R* s, R* d, unsigned n) { inlineAddSpinRecon%s(s, d, n); }\n' % ((nm,) * 6) for _, _, nm in MUS)
def raw(kind, mu, sg, nm):
    def run(env):
        V = sites(env, 0)
        s = Field(env, 'src', V, 12 if kind == 'p' else 6); d = Field(env, 'dst', V, 6 if kind == 'p' else 12)
        env.modifies(d.a)
        def g(f, j, n): return T((n,), (3,), [f(j, c) for c in range(3 * n)])
        def post(r):
            def one(j):
                x = g(s.old, j, 4 if kind == 'p' else 2)
                w = proj(mu, sg, x) if kind == 'p' else recon(mu, sg, x)
                if kind == 'a': w = g(d.old, j, 4) + w
                tcmp(env, 'dst', g(d.at, j, 2 if kind == 'p' else 4), w)
            env.forall('j', 0, V, one)
        env.run('h_%s%s' % (kind, nm), [s.a, d.a, V], post)
    return run
for mu, sg, nm in MUS:
    for k, kn in (('p', 'proj'), ('r', 'recon'), ('a', 'add recon')):
        contract('C10', u, 'kernel %s %s' % (kn, nm))(raw(k, mu, sg, nm))
