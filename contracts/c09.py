"""Colour-matrix algebra: lattice and site forms, optimised (generic linalg header) and plain templates."""
from .lat import *
META = dict(assumptions=['floating point is treated as exact real arithmetic', 'at most 80e6 local sites'])
GO = Gen('C09', 'colour', per=45)
GP = Gen('C09', 'colourplain', cfg='sse', flags=['-DQDP_SCALARSITE_SSE_LINALG_H', '-msse2'], per=45)
FORMS = [('X*Y', lambda x, y: x * y, 0), ('adj(X)*Y', lambda x, y: adj(x) * y, 0), ('X*adj(Y)', lambda x, y: x * adj(y), 1), ('adj(X)*adj(Y)', lambda x, y: adj(x) * adj(y), 1)]
ASG = [('=', lambda d, r: r), ('+=', lambda d, r: d + r), ('-=', lambda d, r: d - r)]
def build(G, pre, dbl, thin=False):
    for b in ('CM', 'CV', 'SF', 'HF', 'F', 'P'):
        if dbl and b not in ('CM', 'CV', 'F', 'HF'): continue
        kb = ('D' if dbl else '') + b; km = ('D' if dbl else '') + 'CM'
        for fn, f, sq in FORMS:
            if sq and b not in ('CM', 'P'): continue
            for an, a in ASG:
                al = ('Y',) + (('X', ('X', 'Y')) if b == 'CM' else ())
                G.expr('%s%s%s %s' % (pre, an, fn, kb), 'D[s] %s %s' % (an, fn), 'D:%s X:%s Y:%s' % (kb, km, kb), lambda v, f=f, a=a: a(v['D'], f(v['X'], v['Y'])), alias=al,
                       subs=('table',) if (b == 'P' or dbl or thin) else ('table', 'ordered'))
            G.expr('%ssite %s %s' % (pre, fn, kb), 'D = %s' % fn, 'D:o%s X:o%s Y:o%s' % (kb, km, kb), lambda v, f=f: f(v['X'], v['Y']), alias=('Y',) + (('X', ('X', 'Y')) if b == 'CM' else ()))
            if b != 'P':
                G.expr('%sscaled %s %s' % (pre, fn, kb), 'D[s] = Z - A*(%s)' % fn, 'D:%s X:%s Y:%s Z:%s A:o%s' % (kb, km, kb, kb, 'D' if dbl else 'R'), lambda v, f=f: v['Z'] - v['A'] * f(v['X'], v['Y']), subs=('table',))
    k = 'D' if dbl else ''
    M = '%sCM' % k; ops = 'D:%s X:%s Y:%s Z:%s' % (M, M, M, M)
    for nm, body, f in (('staple', 'X*Y*adj(Z)', lambda v: v['X'] * v['Y'] * adj(v['Z'])), ('lower staple', 'adj(X)*Y*Z', lambda v: adj(v['X']) * v['Y'] * v['Z']),
                        ('plaquette', 'X*Y*adj(D*Z)', lambda v: v['X'] * v['Y'] * adj(v['D'] * v['Z'])), ('commutator', 'X*Y-Y*X', lambda v: v['X'] * v['Y'] - v['Y'] * v['X']),
                        ('linear', 'X*Y+adj(X)*Z', lambda v: v['X'] * v['Y'] + adj(v['X']) * v['Z'])):
        G.expr('%s%s' % (pre, nm) + k, 'D[s] = ' + body, ops, f, subs=('table',))
    for nm, body, f in (('trace product', 'trace(X*Y)', lambda v: trace(v['X'] * v['Y'])), ('trace adj product', 'trace(adj(X)*Y)', lambda v: trace(adj(v['X']) * v['Y'])), ('trace product adj', 'trace(X*adj(Y))', lambda v: trace(v['X'] * adj(v['Y'])))):
        G.expr('%s%s%s' % (pre, nm, k), 'D[s] = ' + body, 'D:%sX X:%s Y:%s' % (k, M, M), f, subs=('table',))
    G.expr('%sreal trace%s' % (pre, k), 'D[s] = real(trace(X*Y))', 'D:%s X:%s Y:%s' % ('D' if dbl else 'R', M, M), lambda v: real(trace(v['X'] * v['Y'])), subs=('table',))
    G.expr('%svector add%s' % (pre, k), 'D[s] = X + Y', 'D:%sCV X:%sCV Y:%sCV' % (k, k, k), lambda v: v['X'] + v['Y'], alias=('X', 'Y'), subs=('table',))
    G.expr('%ssite vector add%s' % (pre, k), 'D = X + Y', 'D:o%sCV X:o%sCV Y:o%sCV' % (k, k, k), lambda v: v['X'] + v['Y'], alias=('X', 'Y'))
build(GO, '', False)
build(GO, 'double ', True)
build(GP, 'plain ', False, True)
# the unrolled site macros themselves
u = unit('colourmacro', ['$GEN'])
MAC = [('nn', 9, lambda a, b: a * b), ('an', 9, lambda a, b: adj(a) * b), ('na', 9, lambda a, b: a * adj(b)), ('aa', 9, lambda a, b: adj(a) * adj(b)), ('mat_vec', 3, lambda a, b: a * b), ('adj_mat_vec', 3, lambda a, b: adj(a) * b), ('add', 3, None)]
u.text = '#include "h.h"\n#include "scalarsite_generic/generic_mult_aa.h"\n#include "scalarsite_generic/generic_addvec.h"\ntypedef PColorMatrix<RComplex<float>,3> MM; typedef PColorVector<RComplex<float>,3> VV;\nnamespace QDP {\n'
for n in ('nn', 'an', 'na', 'aa'): u.text += 'H h_%s(float* a, float* b, float* d) { _inline_generic_mult_su3_%s((*(MM*)a), (*(MM*)b), (*(MM*)d)); }\n' % (n, n)
u.text += 'H h_mat_vec(float* a, float* b, float* d) { _inline_generic_mult_su3_mat_vec((*(MM*)a), (*(VV*)b), (*(VV*)d)); }\nH h_adj_mat_vec(float* a, float* b, float* d) { _inline_generic_mult_adj_su3_mat_vec((*(MM*)a), (*(VV*)b), (*(VV*)d)); }\n'
u.text += 'H h_add(float* a, float* b, float* d) { _inline_generic_add_su3_vector((*(VV*)a), (*(VV*)b), (*(VV*)d)); }\n}\n'
def mac(n, k, f):
    def run(env):
        a = LatOp(env, 'a', 'CV' if n == 'add' else 'CM', None); b = LatOp(env, 'b', 'CM' if k == 9 else 'CV', None); d = LatOp(env, 'd', 'CM' if k == 9 else 'CV', None)
        env.modifies(d.a)
        env.run('h_' + n, [a.a, b.a, d.a], lambda r: tcmp(env, 'd', d.new(), f(a.old(), b.old()) if f else a.old() + b.old()))
    return run
for n, k, f in MAC: contract('C09', u, 'macro ' + n)(mac(n, k, f))
