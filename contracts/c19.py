"""Threaded dispatch.  The real dispatch_to_threads is verified for an arbitrary thread of an arbitrary team (the parallel region is its block run
once per thread): ranges of consecutive workers are adjacent, the first starts at 0, the last ends at the site count, inactive workers get none,
hence disjoint, in range and covering.  Every dispatched site loop is then verified for an arbitrary range low..high: it writes exactly the sites
numbered low..high of the subset, so workers never touch one another's sites."""
import os
from qvc.reg import unit, contract, CONTRACTS, UNITS, Unit
from . import c04, c06, c07, c08, c09, c10
from .common import VMAX, Sub
META = dict(assumptions=['an omp parallel region runs its block once in each thread of the team, numbered 0 .. team size - 1 (the pragma itself is not modelled)', 'site count times number of threads fits a 32-bit integer (as the property states)', 'the QMT back end is not covered'])
HARN = '''
#include "omp.h"
#include "qdp_dispatch.h"
#define H extern "C" __attribute__((noinline)) void
extern "C" { int qvc_team, qvc_thread; }
struct A { int* o; int tag; };
static void rec(int lo, int hi, int id, A* a) { a->o[0]++; a->o[1] = lo; a->o[2] = hi; a->o[3] = id; a->o[4] = a->tag; }
H h_one(int T, int t, int n, int tag, int* o) { A a; a.o = o; a.tag = tag; qvc_team = T; qvc_thread = t; QDP::dispatch_to_threads<A>(n, a, rec); }
// thread t and thread t + 1 of the same team
H h_pair(int T, int t, int n, int* o) { A a; a.o = o; a.tag = 0; qvc_team = T; qvc_thread = t; QDP::dispatch_to_threads<A>(n, a, rec); a.o = o + 5; qvc_thread = t + 1; QDP::dispatch_to_threads<A>(n, a, rec); }
H h_nums(int T, int t, int* o) { qvc_team = T; qvc_thread = t; o[0] = QDP::qdpNumThreads(); o[1] = QDP::qdpThreadNum(); }
'''
UO = unit('dispatch_omp', '$GEN', flags=['-DQDP_USE_OMP_THREADS', '-I$V/harness/omp']); UO.text = HARN
US = unit('dispatch_scalar', '$GEN', flags=['-I$V/harness/omp']); US.text = HARN
G = ('qvc_team', 'qvc_thread')
def team(env, name='t', lead=0):
    T = env.int('T', 1, 1 << 20, pick=lambda r: r.randint(1, 9)); t = env.int(name, 0, None if env.sym else int(T) - 1 if not env.sym else None)
    n = env.int('n', 0, VMAX, pick=lambda r: r.randint(0, 40))
    env.assume(env.lt(t + lead, T)); env.assume(env.le(n * T, 2**31 - 1))
    return T, t, n
def out(env, k): return env.array('o', 'i32', 5 * k, init=[0] * 5 * k)
@contract('C19', UO, 'a worker is called once with a range inside the site table, or there are not enough sites and it is not called')
def _(env):
    T, t, n = team(env); tag = env.int('tag', 0, 1000); o = out(env, 1); env.modifies(o, globals_ok=G)
    def post(r):
        env.cases(env.lt(t, n), lambda k: active() if k else env.eq('not called', o.at(0), 0))
    def active():
        env.eq('called once', o.at(0), 1); env.eq('id', o.at(3), t); env.eq('argument', o.at(4), tag)
        env.true('0 <= low', env.le(0, o.at(1))); env.true('low < high', env.lt(o.at(1), o.at(2))); env.true('high <= n', env.le(o.at(2), n))
    env.run('h_one', [T, t, n, tag, o], post)
@contract('C19', UO, 'the first worker starts at the first site')
def _(env):
    T, _, n = team(env); env.assume(env.lt(0, n)); o = out(env, 1); env.modifies(o, globals_ok=G)
    env.run('h_one', [T, 0, n, 0, o], lambda r: env.eq('low', o.at(1), 0))
@contract('C19', UO, 'the last active worker ends at the last site')
def _(env):
    T, t, n = team(env); env.assume(env.lt(t, n)); env.assume(env.or_(env.eqc(t, T - 1), env.eqc(t, n - 1))); o = out(env, 1); env.modifies(o, globals_ok=G)
    env.run('h_one', [T, t, n, 0, o], lambda r: env.eq('high', o.at(2), n))
@contract('C19', UO, 'ranges of consecutive workers are adjacent')
def _(env):
    T, t, n = team(env, lead=1); env.assume(env.lt(t + 1, n)); o = out(env, 2); env.modifies(o, globals_ok=G)
    env.run('h_pair', [T, t, n, o], lambda r: env.eq('low of the next = high', o.at(6), o.at(2)))
@contract('C19', UO, 'number of threads and thread number')
def _(env):
    T, t, n = team(env); o = out(env, 1); env.modifies(o, globals_ok=G)
    env.run('h_nums', [T, t, o], lambda r: (env.eq('threads', o.at(0), T), env.eq('thread', o.at(1), t)))
@contract('C19', US, 'no threading: the single worker receives the whole range')
def _(env):
    T, t, n = team(env); tag = env.int('tag', 0, 1000); o = out(env, 1); env.modifies(o, globals_ok=G)
    env.run('h_one', [T, t, n, tag, o], lambda r: [env.eq('field %d' % k, o.at(k), v) for k, v in enumerate((1, 0, n, 0, tag))])
@contract('C19', US, 'no threading: one thread, number 0')
def _(env):
    T, t, n = team(env); o = out(env, 1); env.modifies(o, globals_ok=G)
    env.run('h_nums', [T, t, o], lambda r: (env.eq('threads', o.at(0), 1), env.eq('thread', o.at(1), 0)))

# ------------------------------------------------------------- dispatched site loops, any range
def ranged(fn):
    def run(env):
        env.threads = True
        return fn(env)
    return run
def clone(u):
    n = 'thr_' + u.name
    if n not in UNITS:
        v = Unit(n, u.srcs, cfg=u.cfg, flags=u.flags + ['-include', '$V/harness/thr_dispatch.h'], opt=u.opt, natlibs=u.natlibs, omit=u.omit)
        if hasattr(u, 'text'): v.text = u.text
        UNITS[n] = v
    return UNITS[n]
def wanted(c):
    if '/d=' in c.name or '/D=' in c.name or c.opts.get('thorough_only'): return False
    if c.prop == 'C06': return c.unit.name in ('blas_real', 'blas_cplx')
    if c.prop == 'C07': return True
    if c.prop == 'C04': return '/view/' in c.name and '= zero' not in c.name   # zero fills are not dispatched
    if c.prop == 'C10': return c.name.startswith('special d')
    if c.prop == 'C08': return 'D ' in c.name and 'site' not in c.name
    return False
for c in list(CONTRACTS):
    if wanted(c): contract('C19', clone(c.unit), 'range of ' + c.name, **c.opts)(ranged(c.fn))
