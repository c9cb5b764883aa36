"""The stand-alone scalar generator: one draw is S -> a*S + 1 mod 2^48, the value returned is S/2^48 in [0,1); a seed set at any time (before or
after the first draw) is the one the next draws start from, and the one savern gives back."""
from .common import *
from qvc.reg import unit, contract
META = dict(assumptions=['seed digits are 12 bit, as documented (0..4095)'])
A = 31167285; M = 1 << 48
U = unit('rannyu', '$GEN', natlibs='ALL', omit=('qdp_strnlen.cc', 'qdp_rannyu.cc'))
U.text = '''#include "h.h"
#include "qdp_rannyu.cc"
#define MKS(a, s) multi1d<int> a(4); for (int k = 0; k < 4; ++k) a[k] = s[k];
#define OUT(t, o) { if ((t).size() != 4) QDP_error_exit("size"); for (int k = 0; k < 4; ++k) (o)[k] = (t)[k]; }
static inline void pre(int how, const int* s0) { MKS(a, s0); if (how >= 2) RANNYU::setrn(a); if (how & 1) RANNYU::random(); if (how >= 4) { multi1d<int> b = RANNYU::savern(); RANNYU::setrn(b); } }
// one draw on an explicit state
H h_state(int* s, double* r) { RANNYU::RNGState_t st; MKS(a, s); st.seed = a; st.ran = 7; RANNYU::random(st); *r = st.ran; OUT(st.seed, s); }
// draw from the global state, which is whatever was set last
H h_draw(const int* s0, int* o, double* r) { MKS(a, s0); RANNYU::setrn(a); r[0] = RANNYU::random(); OUT(RANNYU::savern(), o); OUT(a, o + 4); }
H h_first(int* o, double* r) { r[0] = RANNYU::random(); OUT(RANNYU::savern(), o); }
// any history before the seed is set
''' + ''.join('''H h_set%d(const int* s0, const int* s, int* o, double* r) { pre(%d, s0); MKS(a, s); RANNYU::setrn(a); a = 5; OUT(RANNYU::savern(), o); r[0] = RANNYU::random(); OUT(RANNYU::savern(), o + 4); }
''' % (h, h) for h in range(6)) + '''// save, draw, restore: the same value and the same state again
''' + ''.join('''H h_again%d(const int* s0, int* o, double* r) { pre(%d, s0); multi1d<int> a = RANNYU::savern(); r[0] = RANNYU::random(); OUT(RANNYU::savern(), o); RANNYU::setrn(a); r[1] = RANNYU::random(); OUT(RANNYU::savern(), o + 4); }
''' % (h, h) for h in range(6)) + '''
// drawing from an explicit state does not disturb the global one
H h_indep(const int* s0, const int* s1, int* o) { MKS(a, s0); RANNYU::setrn(a); RANNYU::RNGState_t st; MKS(b, s1); st.seed = b; RANNYU::random(st); OUT(RANNYU::savern(), o); }
H h_badset(int n) { multi1d<int> a(n); a = 0; RANNYU::setrn(a); }
H h_badstate(int n) { RANNYU::RNGState_t st; st.seed.resize(n); st.seed = 0; RANNYU::random(st); }
'''
G = ('ran_seed', 'inited')
DEF = [13, 15, 1, 17]
def seed(env, name): return env.array(name, 'i32', 4, lo=0, hi=4095)
def val(d): return ((d[0] * 4096 + d[1]) * 4096 + d[2]) * 4096 + d[3]
def digits(env, lab, d):
    for k in range(4):
        env.true('%s digit %d in range' % (lab, k), env.and_(env.le(0, d[k]), env.le(d[k], 4095)))
def step(env, lab, s, o, r):
    """o is the state after one draw from s, r the value drawn"""
    digits(env, lab, o)
    env.eq(lab + ': a*S + 1 modulo 2^48', env.mod(val(o) - (val(s) * A + 1), M), 0)
    env.eq(lab + ': value is S/2^48', r * M, val(o))
def old(a, off=0): return [a.old(off + k) for k in range(4)]
def at(a, off=0): return [a.at(off + k) for k in range(4)]

@contract('C14', U, 'draw from an explicit state')
def _(env):
    s = seed(env, 's'); r = env.array('r', 'double', 1); env.modifies(s, r)
    env.run('h_state', [s, r], lambda res: step(env, 'state', old(s), at(s), r.at(0)))
@contract('C14', U, 'draw from the global state')
def _(env):
    s = seed(env, 's'); o = env.array('o', 'i32', 8, init='uninit'); r = env.array('r', 'double', 1); env.modifies(o, r, globals_ok=G)
    def post(res):
        step(env, 'global', old(s), at(o), r.at(0))
        for k in range(4): env.eq('caller\'s seed unchanged %d' % k, o.at(4 + k), s.old(k))
    env.run('h_draw', [s, o, r], post)
@contract('C14', U, 'first draw uses the default seed', no_native=True)
def _(env):
    o = env.array('o', 'i32', 4, init='uninit'); r = env.array('r', 'double', 1); env.modifies(o, r, globals_ok=G)
    env.run('h_first', [o, r], lambda res: step(env, 'first', DEF, at(o), r.at(0)))
HOW = ['fresh', 'after a draw', 'after a set', 'after set and draw', 'after set, save, restore', 'after set, draw, save, restore']
for h in range(6):
    def mk(h):
        @contract('C14', U, 'set then save round-trips, draws continue from it: ' + HOW[h])
        def _(env):
            s0 = seed(env, 's0'); s = seed(env, 's'); o = env.array('o', 'i32', 8, init='uninit'); r = env.array('r', 'double', 1); env.modifies(o, r, globals_ok=G)
            def post(res):
                for k in range(4): env.eq('saved digit %d' % k, o.at(k), s.old(k))
                step(env, 'draw', old(s), at(o, 4), r.at(0))
            env.run('h_set%d' % h, [s0, s, o, r], post)
        @contract('C14', U, 'restoring a saved seed repeats the sequence: ' + HOW[h])
        def _(env):
            s0 = seed(env, 's0'); o = env.array('o', 'i32', 8, init='uninit'); r = env.array('r', 'double', 2); env.modifies(o, r, globals_ok=G)
            def post(res):
                env.eq('same value', r.at(1), r.at(0))
                for k in range(4): env.eq('same state %d' % k, o.at(4 + k), o.at(k))
            env.run('h_again%d' % h, [s0, o, r], post)
    mk(h)
@contract('C14', U, 'explicit states are independent of the global one')
def _(env):
    s0 = seed(env, 's0'); s1 = seed(env, 's1'); o = env.array('o', 'i32', 4, init='uninit'); env.modifies(o, globals_ok=G)
    def post(res):
        for k in range(4): env.eq('global digit %d' % k, o.at(k), s0.old(k))
    env.run('h_indep', [s0, s1, o], post)
for f in ('h_badset', 'h_badstate'):
    def mk(f):
        @contract('C14', U, f[2:] + ' of the wrong length aborts', no_native=True)
        def _(env):
            n = env.int('n', 0, 80000000); env.assume(env.nec(n, 4)); env.modifies(globals_ok=G)
            env.run(f, [n], lambda res: env.true('does not return', False), abort=lambda *a: env.true('aborts', True))
    mk(f)
