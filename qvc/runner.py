"""check <property>: recompile the real code, generate and discharge every obligation, report."""
import sys, os, time, json, subprocess, tempfile, shutil, importlib, multiprocessing as mp, traceback, random, ctypes, signal, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import reg
from .reg import ROOT, REPO

LIBSRC = ['qdp_%s.cc' % x for x in ('map', 'subset', 'random', 'layout', 'io', 'byteorder', 'util', 'stdio', 'profile', 'strnlen', 'crc32', 'stopwatch', 'rannyu',
          'scalar_init', 'scalar_layout', 'scalar_specific', 'scalarsite_specific', 'default_allocator', 'generic_threadbind')]
CXX = 'clang++-18'
BASE = ['-std=c++17', '-DNDEBUG_QVC', '-fno-access-control', '-msse2', '-ffp-contract=off', '-fno-strict-aliasing', '-w',
        '-include', 'cstring', '-include', 'cstdint']
IRF = ['-DQVC_IR', '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-discard-value-names', '-fno-inline-cost-x'][:7]

def incs(u):
    return ['-I%s/cfg/%s' % (ROOT, u.cfg), '-I%s/harness' % ROOT, '-I%s/include' % REPO, '-I%s/lib' % REPO]

def srcpath(x):
    return x.replace('$REPO', REPO).replace('$V', ROOT)

def run_cmd(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stderr.decode(errors='replace')

def gen_text(u, scratch):
    if getattr(u, 'text', None) is not None:
        with open(os.path.join(scratch, u.name + '.cc'), 'w') as f: f.write(u.text)

def compile_ir(u, scratch):
    out = []
    errs = []
    def one(i_s):
        i, src = i_s
        o = os.path.join(scratch, '%s.%d.ll' % (u.name, i))
        cmd = [CXX] + BASE + [u.opt] + IRF + incs(u) + [srcpath(f) for f in u.flags] + [srcpath(src), '-o', o]
        rc, err = run_cmd(cmd)
        return o, rc, err, ' '.join(cmd)
    gen_text(u, scratch)
    for i, s in enumerate(u.srcs):
        o, rc, err, cmd = one((i, s.replace('$GEN', os.path.join(scratch, u.name + '.cc'))))
        if rc: errs.append((cmd, err))
        out.append(o)
    return out, errs

def lib_archive(u, scratch):
    key = hashlib.md5(repr((u.cfg, u.flags)).encode()).hexdigest()[:10]
    ar = os.path.join(scratch, 'lib_%s.a' % key)
    if os.path.exists(ar): return ar
    srcs = [os.path.join(REPO, 'lib', x) for x in LIBSRC]
    if u.cfg.startswith('sse'):
        d = os.path.join(REPO, 'lib', 'scalarsite_sse')
        srcs += [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.cc') and x != 'qdp_scalarsite_sse.cc']
    def one(i_s):
        i, s = i_s
        o = os.path.join(scratch, 'lib_%s.%d.o' % (key, i))
        return (o,) + run_cmd([CXX] + BASE + ['-O1', '-fPIC', '-c'] + incs(u) + [srcpath(f) for f in u.flags] + [s, '-o', o])
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for o, rc, err in ex.map(one, list(enumerate(srcs))):
            if not rc: objs.append(o)
    rc, err = run_cmd(['ar', 'rcs', ar] + objs)
    return ar if not rc else None

def compile_native(u, scratch):
    so = os.path.join(scratch, u.name + '.so')
    if os.path.exists(so): return so, None
    objs = []
    nl = u.natlibs or []
    if nl == 'ALL': nl = ['$REPO/lib/%s' % x for x in LIBSRC if '$REPO/lib/%s' % x not in u.srcs and x not in u.omit]
    gen_text(u, scratch)
    srcs = [srcpath(s.replace('$GEN', os.path.join(scratch, u.name + '.cc'))) for s in u.srcs] + [srcpath(s) for s in nl]
    def one(i_s):
        i, s = i_s
        o = os.path.join(scratch, '%s.%d.o' % (u.name, i))
        return (o,) + run_cmd([CXX] + BASE + ['-O1', '-fPIC', '-g1', '-c'] + incs(u) + [srcpath(f) for f in u.flags] + [s, '-o', o])
    with ThreadPoolExecutor(8) as ex:
        for o, rc, err in ex.map(one, list(enumerate(srcs))):
            if rc: return None, err
            objs.append(o)
    tmp = so + '.tmp%d' % os.getpid()
    link = [CXX, '-shared', '-Wl,-z,defs', '-o', tmp] + objs
    tail = ['-lpthread', '-ldl', '-lm']
    rc, err = run_cmd(link + tail)
    if rc:   # the unit refers to library globals: link the library itself, built from the same tree
        ar = lib_archive(u, scratch)
        if ar: rc, err = run_cmd(link + [ar] + tail)
    if rc: return None, err
    os.rename(tmp, so)
    return so, None

_mods = {}
def load(u, files):
    from . import ir
    if u.name not in _mods:
        ms = []
        for f in files: ms.append(ir.Module(open(f).read(), os.path.basename(f)) if hasattr(ir, 'Module') else ir.parse(f))
        _mods[u.name] = ms
    return _mods[u.name]

def prove_one(c, files, timeout):
    """-> result dict"""
    from . import env as E, exec as X
    t0 = time.time()
    res = dict(name=c.name, unit=c.unit.name, status='proved', obl=0, backend={}, smt_q=0, smt_t=0.0, msg='', label='', model=None,
               funcs=[], loops=0, paths=0, assumptions=[], samples=[])
    env = None
    try:
        mods = load(c.unit, files)
        for m in mods: pass
        env = E.SymEnv(mods)
        env.deadline = env.ex.deadline = t0 + timeout
        sys.setrecursionlimit(20000)
        c.fn(env)
        if env.obl == 0: raise E.Failed('vacuity', 'no obligation was generated')
    except E.Failed as e:
        res['status'] = 'failed'; res['msg'] = e.msg; res['label'] = e.label; res['model'] = e.model
    except X.Refuted as e:
        res['status'] = 'failed'; res['msg'] = str(e); res['label'] = 'bounds'
    except X.Undecided as e:
        res['status'] = 'undecided'; res['msg'] = str(e); res['label'] = 'engine'
    except X.NeedSummary as e:
        res['status'] = 'undecided'; res['msg'] = 'loop %s' % (e.key,); res['label'] = 'engine'
    except Exception as e:
        res['status'] = 'undecided'; res['msg'] = 'internal: %s' % traceback.format_exc()[-1500:]; res['label'] = 'engine'
    if env is not None:
        st = env.ex.prover.stats
        res['smt_unknown'] = st.unknown
        res.update(obl=env.obl, backend=env.backend, smt_q=st.queries, smt_t=round(st.time, 2), funcs=sorted(env.ex.used_funcs),
                   loops=env.ex.loop_invs, paths=env.paths, assumptions=env.assumptions + sorted(env.ex.assumed), samples=env.samples,
                   forks=env.ex.counters['forks'])
    res['time'] = round(time.time() - t0, 2)
    return res

def sigs_of(mods):
    r = {}
    for m in mods:
        for n, f in m.funcs.items():
            if n.startswith('h_') or True:
                try:
                    ps = [(('i%d' % t.w) if t.k == 'i' else t.k) for t, _ in f.params]
                    rt = f.retty
                    r[n] = (None if rt is None or rt.k == 'void' else ('i%d' % rt.w) if rt.k == 'i' else rt.k, ps)
                except AttributeError: pass
    return r

def native_child(c, so, files, model, seed, secs, outp, given=None, crashp=None):
    """search for a failing input by running the contract on the natively compiled code"""
    from . import env as E
    # the code under test must not spoil the report channel or reach anything outside scratch
    try:
        mods = load(c.unit, files)
        sg = sigs_of(mods)
        lib = ctypes.CDLL(so, mode=ctypes.RTLD_LOCAL | os.RTLD_LAZY if hasattr(os, 'RTLD_LAZY') else ctypes.RTLD_LOCAL)
    except Exception as e:
        json.dump(dict(error=str(e)[:500]), open(outp, 'w')); os._exit(0)
    t0 = time.time()
    n = 0; obl = 0; skipped = 0
    rnd = random.Random('%s/%s' % (seed, c.name))
    found = None
    def rec(log):
        with open(crashp + '.t', 'w') as f: json.dump(log, f)
        os.rename(crashp + '.t', crashp)
    while time.time() - t0 < secs and n < c.opts.get('native_n', 4000):
        size = [1, 2, 3, 5, 8, 13, 20][n % 7]
        env = E.NatEnv(lib, sg, rnd, model if (model and n < 20) else None, size, given)
        env.recorder = rec
        n += 1
        if skipped > 3000: break
        try:
            c.fn(env)
            obl += env.obl
        except E.Skip: skipped += 1; n -= 1; model = None; continue
        except E.Failed as e:
            if e.label == 'contract': 
                found = dict(label='contract', msg=e.msg, log=env.log); break
            found = dict(label=e.label, msg=e.msg, log=env.log); break
        if given is not None: break
    json.dump(dict(n=n, obl=obl, found=found, skipped=skipped), open(outp, 'w'), default=str)
    sys.stdout.flush()
    os._exit(0)

def jload(p):
    try: return json.load(open(p))
    except Exception: return {}

def native_search(c, so, files, model, seed, secs, scratch, given=None):
    outp = os.path.join(scratch, 'nat_%s.json' % hashlib.md5((c.name + str(os.getpid())).encode()).hexdigest()[:12])
    crashp = outp + '.in'
    for f in (outp, crashp):
        if os.path.exists(f): os.unlink(f)
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1); os.dup2(dn, 2)
            wd = os.path.join(scratch, 'wd'); os.makedirs(wd, exist_ok=True); os.chdir(wd)
            native_child(c, so, files, model, seed, secs, outp, given, crashp)
        except BaseException as e:
            try: json.dump(dict(error=traceback.format_exc()[-800:]), open(outp, 'w'))
            except Exception: pass
        os._exit(0)
    t0 = time.time(); st = None
    while time.time() - t0 < secs + 20:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        time.sleep(0.02)
    else:
        os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
        log = jload(crashp)
        if log: return dict(n=1, obl=0, found=dict(label='termination', msg='the call did not return within %d s' % (secs + 20), log=log))
        return dict(error='timeout')
    if os.path.exists(outp):
        try: return json.load(open(outp))
        except Exception as e: return dict(error=str(e))
    log = jload(crashp)
    if log:
        return dict(n=1, obl=0, found=dict(label='crash', msg='the real code ended abnormally (status %s)' % st, log=log))
    return dict(error='native child ended with status %s before any call' % st)

def worker(args):
    i, files, timeout = args
    c = reg.CONTRACTS[i]
    return i, prove_one(c, files, timeout)

def known_findings():
    p = os.path.join(ROOT, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'): r.append(l)
    return r

def run_pool(jobs, nproc, stop=None):
    """jobs: list of (i, files, timeout); each in its own forked process"""
    results = {}
    pend = list(jobs)
    live = {}
    import pickle
    def giveup(i, why): results[i] = dict(name=reg.CONTRACTS[i].name, status='undecided', msg=why, label='engine', obl=0, backend={}, smt_q=0, smt_t=0, funcs=[], loops=0, paths=0, assumptions=[], samples=[], model=None, time=0, unit='')
    while pend or live:
        if stop and time.time() > stop:
            for j in pend: giveup(j[0], 'not reached within the time budget of the check')
            pend = []
        while pend and len(live) < nproc:
            j = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = worker(j)
                    data = pickle.dumps(res)
                except BaseException as e:
                    data = pickle.dumps((j[0], dict(name=reg.CONTRACTS[j[0]].name, status='undecided', msg='worker: %r' % e, label='engine', obl=0, backend={}, smt_q=0, smt_t=0, funcs=[], loops=0, paths=0, assumptions=[], samples=[], model=None, time=0, unit='')))
                with os.fdopen(w, 'wb') as f: f.write(data)
                os._exit(0)
            os.close(w)
            live[pid] = (r, j, time.time(), [])
            os.set_blocking(r, False)
        # collect
        import select
        fds = [v[0] for v in live.values()]
        rd, _, _ = select.select(fds, [], [], 0.2)
        for pid, (r, j, t0, buf) in list(live.items()):
            done = False
            if r in rd:
                try:
                    while True:
                        d = os.read(r, 1 << 20)
                        if not d: done = True; break
                        buf.append(d)
                except BlockingIOError: pass
            if not done and (time.time() - t0 > j[2] * 1.5 + 20 or stop and time.time() > stop + 15):
                os.kill(pid, signal.SIGKILL); done = True
            if done:
                os.waitpid(pid, 0); os.close(r); del live[pid]
                try: i, res = pickle.loads(b''.join(buf))
                except Exception:
                    i = j[0]
                    res = dict(name=reg.CONTRACTS[i].name, status='undecided', msg='verifier process ended (time or memory)', label='engine', obl=0, backend={}, smt_q=0, smt_t=0, funcs=[], loops=0, paths=0, assumptions=[], samples=[], model=None, time=time.time() - t0, unit='')
                results[i] = res
    return results

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a[7:] for a in argv if a.startswith('--only=')]
    t0 = time.time()
    mod = importlib.import_module('contracts.' + prop.lower())
    meta = getattr(mod, 'META', {})
    cs = [(i, c) for i, c in enumerate(reg.CONTRACTS) if c.prop == prop and (tier == 'thorough' or not c.opts.get('thorough_only'))]
    if only: cs = [(i, c) for i, c in cs if any(o in c.name for o in only)]
    scratch = tempfile.mkdtemp(prefix='qvc_%s_' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        return check(prop, tier, seed, cs, meta, scratch, t0, argv)
    finally:
        if '--keep' not in argv: shutil.rmtree(scratch, ignore_errors=True)
        else: print('scratch', scratch)

def check(prop, tier, seed, cs, meta, scratch, t0, argv):
    units = {c.unit.name: c.unit for _, c in cs}
    files = {}; cerr = {}
    with ThreadPoolExecutor(8) as ex:
        for u, (fs, errs) in zip(units.values(), ex.map(lambda u: compile_ir(u, scratch), units.values())):
            files[u.name] = fs
            if errs: cerr[u.name] = errs
    tcomp = time.time() - t0
    budget = 780 if tier == 'quick' else 3000
    # parse once in the parent so that forked workers share it
    for u in units.values():
        if u.name not in cerr:
            try: load(u, files[u.name])
            except Exception as e: cerr[u.name] = [('parse', traceback.format_exc()[-800:])]
    jobs = []
    for i, c in cs:
        if c.unit.name in cerr: continue
        jobs.append((i, files[c.unit.name], c.opts.get('timeout', 150) * (1 if tier == 'quick' else 4)))
    jobs.sort(key=lambda j: -reg.CONTRACTS[j[0]].opts.get('weight', 1))
    nproc = int(os.environ.get('QVC_JOBS', '8'))
    # native cross-check libraries are only needed on failure or in the thorough tier
    results = run_pool(jobs, nproc, t0 + (420 if tier == 'quick' else 6000))
    # contracts which ran into a time limit (a loaded machine) are tried once more, with larger limits
    slow = [j for j in jobs if results[j[0]]['status'] != 'proved' and not reg.CONTRACTS[j[0]].opts.get('bounded_ok')
            and (results[j[0]].get('smt_unknown') or 'deadline' in results[j[0]]['msg'] or 'time or memory' in results[j[0]]['msg'])]
    # ... except when a definite failure elsewhere already reproduces on the real code: the verdict is known, the retry would only cost time
    if slow and len(slow) <= 32:
        sl = {j[0] for j in slow}
        firm = [j[0] for j in jobs if results[j[0]]['status'] == 'failed' and j[0] not in sl and not reg.CONTRACTS[j[0]].opts.get('no_native')][:4]
        libs = {}
        for i in firm:
            c = reg.CONTRACTS[i]
            if c.unit.name not in libs: libs[c.unit.name] = compile_native(c.unit, scratch)[0]
            if libs[c.unit.name] is None: continue
            f = native_search(c, libs[c.unit.name], files[c.unit.name], results[i]['model'], seed, 10.0, scratch).get('found')
            if f and f['label'] != 'contract': slow = []; break
    if slow and len(slow) <= 32:
        from . import smt
        smt.SCALE = 4
        again = run_pool([(i, f, 2 * t) for i, f, t in slow], nproc, max(t0 + (420 if tier == 'quick' else 6000), time.time() + 60))
        for i, r in again.items():
            if r['status'] == 'proved' or (r['status'] == 'failed' and results[i]['status'] != 'failed'): results[i] = r
    bad = []
    for i, c in cs:
        if c.unit.name in cerr:
            cmd, err = cerr[c.unit.name][0]
            results[i] = dict(name=c.name, status='failed', label='translation', msg='the unit does not compile or parse: ' + err[-1500:], obl=0, backend={}, smt_q=0, smt_t=0,
                              funcs=[], loops=0, paths=0, assumptions=[], samples=[], model=None, time=0, unit=c.unit.name)
        if results[i]['status'] != 'proved': bad.append(i)
    if '-v' in argv or '--list' in argv:
        for i, c in cs:
            r = results[i]
            print('%-10s %-50s obl=%d t=%.1f q=%d paths=%d %s' % (r['status'], r['name'], r['obl'], r['time'], r['smt_q'], r['paths'], (r['label'] + ': ' + r['msg'][:1200]) if r['status'] != 'proved' else ''))
    # ---------------- failing obligations: counterexample replay / search on the real code
    bounded = []
    violations = []
    known = known_findings()
    natres = {}
    need = set(bad)
    if tier == 'thorough' or '--native' in argv: need |= {i for i, c in cs if c.unit.name not in cerr and not c.opts.get('no_native')}
    if need:
        so = {}
        us = {reg.CONTRACTS[i].unit.name: reg.CONTRACTS[i].unit for i in need if reg.CONTRACTS[i].unit.name not in cerr}
        for u in us.values():
            so[u.name] = compile_native(u, scratch)
        left = max(60, budget - (time.time() - t0) - 60)
        secs = min(20.0, left / max(1, (len(need) + 7) // 8)) if tier == 'quick' else 15.0
        def nat(i):
            c = reg.CONTRACTS[i]
            if c.unit.name in cerr or c.opts.get('no_native'): return i, dict(error='no native form')
            lib, err = so[c.unit.name]
            if lib is None: return i, dict(error='native build failed: ' + (err or '')[-600:])
            return i, native_search(c, lib, files[c.unit.name], results[i]['model'], seed, secs if i in bad else min(secs, 3), scratch)
        natjobs = sorted(need)
        stop = time.time() + (260 if tier == 'quick' else 1500)
        def nat(i, nat=nat):
            if time.time() > stop or (tier == 'quick' and '--native' not in argv and sum(1 for x in list(natres.values()) if x.get('found')) >= 12): return i, dict(error='search skipped (time)')
            i, r = nat(i); natres[i] = r
            return i, r
        # fork-based children: run a few at a time through threads
        with ThreadPoolExecutor(8) as ex:
            for i, r in ex.map(nat, natjobs): natres[i] = r
        if '-v' in argv or '--native' in argv:
            for i, r in natres.items():
                print('native', reg.CONTRACTS[i].name, {k: (str(v)[-400:]) for k, v in r.items()})
    repdir = os.path.join(ROOT, 'evidence', 'replay')
    for i in sorted(need):
        c = reg.CONTRACTS[i]; r = results[i]; nr = natres.get(i, {})
        f = nr.get('found')
        if f and f['label'] == 'contract': f = None
        if i not in bad and not f: continue
        if i not in bad and f:
            r = dict(r); r['status'] = 'failed'; r['label'] = f['label']; r['msg'] = 'native execution contradicts the discharged contract: ' + f['msg']
        kf = [k for k in known if ('property=%s ' % prop) in k and ('contract=%s ' % c.name) in k + ' ' and ('label=%s' % r['label'].replace(' ', '_')) in k]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[0].split(' :: ', 1)[-1]))
            continue
        if r['status'] == 'undecided' and not f and c.opts.get('bounded_ok') and nr.get('n') and not nr.get('error'):
            bounded.append(dict(contract=c.name, reason=r['msg'][:300], cases=nr.get('n'), checks=nr.get('obl')))
            continue
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, '%s-%s.json' % (prop, c.name.replace('/', '_').replace(' ', '_')))
        json.dump(dict(property=prop, contract=c.name, unit=c.unit.name, sources=c.unit.srcs, obligation=r['label'], status=r['status'], verifier=r['msg'], model=r['model'],
                       failing_input=f, replay='cd /verif && ./check %s --only=%s -v' % (prop, c.name)), open(path, 'w'), indent=1, default=str)
        violations.append((c, r, f, path, nr))
    withf = [v for v in violations if v[2]]
    if withf and len(withf) < len(violations):
        print('%d further contracts are not discharged (listed in the evidence file)' % (len(violations) - len(withf)))
    for c, r, f, path, nr in (withf or violations):
        print('obligation %s / %s not discharged (%s): %s' % (c.name, r['label'], r['status'], r['msg'][:400].replace('\n', ' ')))
        if f:
            print('  failing input on the real code: %s: %s' % (f['label'], f['msg'][:300]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            if nr.get('error'): print('  native search: %s' % nr['error'][:300])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    # ---------------- evidence
    obl = sum(r['obl'] for r in results.values()) + len(bad)
    dis = sum(r['obl'] for r in results.values())
    funcs = sorted({f for r in results.values() for f in r['funcs']})
    be = {}
    for r in results.values():
        for k, v in r['backend'].items(): be[k] = be.get(k, 0) + v
    assume = []
    for r in results.values():
        for a in r['assumptions']:
            if a not in assume: assume.append(a)
    assume = list(meta.get('assumptions', [])) + assume
    samples = []
    for i, c in cs:
        for x in results[i]['samples'][:1]: samples.append('%s | %s' % (c.name, x))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis, checker_cmd='cd /verif && ./check %s' % prop,
                            trusted_base=['clang-18 -O1 front end (C++ to LLVM IR)', '/verif/qvc LLVM-IR semantics and verification-condition generator (inductive loop invariants found and then verified by it)',
                                          'z3 %s' % z3v(), 'ring normaliser of /verif/qvc/poly.py'],
                            contracts=len(cs), contracts_proved=sum(1 for r in results.values() if r['status'] == 'proved'),
                            functions_under_contract=len(funcs), functions=[f for f in demangle(funcs)][:400],
                            by_backend=be, loop_invariants_verified=sum(r['loops'] for r in results.values()),
                            paths=sum(r['paths'] for r in results.values()), smt_queries=sum(r['smt_q'] for r in results.values()),
                            solver_time_s=round(sum(r['smt_t'] for r in results.values()), 2), compile_s=round(tcomp, 1),
                            bounded=bounded, bounded_note='contracts listed here were not proved on this run; they were only executed on the stated number of cases' if bounded else 'none',
                            native_crosscheck_cases=sum((natres[i].get('n') or 0) for i in natres), samples=samples[:40],
                            undischarged=[dict(contract=c.name, obligation=r['label'], message=r['msg'][:500]) for c, r, f, p, n in violations]),
              assumptions=assume, wall_s=round(time.time() - t0, 1), violations=len(violations))
    if not [a for a in argv if a.startswith('--only')]:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d contracts, %d obligations, %d discharged, %d violations, %.1f s' % (prop, len(cs), obl, dis, len(violations), time.time() - t0))
    return 1 if violations else 0

def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception: return ''

def demangle(fs):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(fs).encode(), stdout=subprocess.PIPE, timeout=20)
        return [l[:200] for l in r.stdout.decode().split('\n')]
    except Exception: return fs
