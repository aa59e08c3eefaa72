#!/usr/bin/env python3-vt
"""check.py CID: decide one property for /repo's current source.

1. extract the program from /repo (engine/extract.sh) and discharge every obligation of the
   contracts of the property (contracts/CID.py);
2. build the replay harness (replay/CID.cpp) from /repo's sources with sanitizers and run it:
   it looks for a concrete failing input.
exit 0: every obligation discharged (or a function is out of the verifier's reach and the
bounded stand-in found nothing, said so in the evidence) and no failing input.
exit 1: VIOLATION."""
import sys, os, json, time, subprocess, shutil, tempfile, importlib, re
if os.environ.get('PYTHONHASHSEED') != '0': os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V + '/contracts')
REPO = os.environ.get('REPO', '/repo')
def sh(cmd, timeout, log, env=None):
    p = subprocess.Popen(cmd, stdout=open(log, 'w'), stderr=subprocess.STDOUT, env=env, start_new_session=True)
    return p
def wait(p, timeout):
    try: return p.wait(timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.wait(); return None
def main():
    t0 = time.time()
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') if '--thorough' not in sys.argv else 'thorough'
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    try: seedn = int(seed)
    except ValueError: seedn = 1
    env = dict(os.environ, VERIF_SEED=str(seedn), VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77')
    W = tempfile.mkdtemp(prefix='verif-%s-' % cid)
    ev = {'property': cid, 'tier': tier, 'seed': seedn, 'assumptions': [], 'violations': 0}
    rc = 0
    try:
        rc = run(cid, tier, seedn, env, W, ev, t0)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return rc
def run(cid, tier, seedn, env, W, ev, t0):
    hsrc = '%s/replay/%s.cpp' % (V, cid)
    # ---- concrete replay on the real code, beside the proof
    hout, hrc, hstate = '', None, 'none'
    lim = 200 if tier == 'quick' else 1200
    def go(e):
        log = W + '/h.log'
        p = sh([W + '/h'], lim, log, e)
        r = wait(p, lim)
        return r, open(log, errors='replace').read()
    os.environ['REPLAY_FOUND'] = W + '/found'
    hb = None
    if os.path.exists(hsrc):
        hb = sh(['bash', '-c', 'timeout -k 5 400 bash "$0" "$1" "$2/h" > "$2/hbuild.log" 2>&1 || exit 0; timeout -k 5 $3 "$2/h" > "$2/h.log" 2>&1; r=$?; [ $r = 0 ] || touch "$2/found"; echo $r > "$2/h.rc"',
                 V + '/replay/build.sh', cid, W, str(lim)], 0, W + '/hsh.log', env)
    # ---- proof
    xp = sh(['bash', V + '/engine/extract.sh', W + '/x', REPO], 300, W + '/x.log', env)
    xr = wait(xp, 300)
    unsupported, failed, slow = [], [], []
    res, mod = [], None
    n_ob = n_ok = 0
    tsolve = 0.0
    fns, trusted, backs, assumed, loops = set(), set(), {}, [], 0
    if xr != 0 or not os.path.exists(W + '/x/all.json'):
        unsupported.append('extraction of the program failed: ' + tail(W + '/x.log'))
    else:
        import run as runner
        mod = importlib.import_module(cid)
        res = runner.run_property(W + '/x/all.json', cid, budget=420 if tier == 'quick' else 1500)
        for r in res:
            if r['error']: unsupported.append('%s: %s' % (r['task'], r['error'].split('\n')[0]))
            for x in r['results']:
                n_ob += 1; n_ok += bool(x['ok']); tsolve += x['t']
                if x['ok']:
                    for k in set(re.split(r'[+]', x['how'] or '')): backs[k] = backs.get(k, 0) + 1
                else: failed.append(dict(x, task=r['task']))
            for n in sorted(set(n for n, _ in r['covers'])):
                if all(y == 'unsat' for m, y in r['covers'] if m == n): failed.append({'task': r['task'], 'name': 'reachability of ' + n, 'loc': None, 'how': 'assumptions of the contract are contradictory', 'model': None})
            fns |= set(r.get('inlined', [])); trusted |= set(r.get('trusted', [])); loops += len(r.get('loops', []))
            for a in r.get('assumed', []):
                if a not in assumed: assumed.append(a)
    unsupported += ['%s (by design: see DESIGN.md)' % x for x in (getattr(mod, 'BOUNDED', []) if mod else [])]
    # ---- the replay's answer
    if hb is not None:
        wait(hb, 420 + lim)
        if os.path.exists(W + '/h.rc'):
            hrc, hout = int(open(W + '/h.rc').read()), open(W + '/h.log', errors='replace').read()
            if hrc in (124, 137): hrc = None
            # proof open: look harder
            k = 0
            while hrc == 0 and (failed or unsupported) and k < (3 if tier == 'quick' else 12) and time.time() - t0 < 500:
                k += 1
                hrc, hout2 = go(dict(env, VERIF_SEED=str(seedn * 1000 + k)))
                hout = hout if hrc == 0 else hout2
            hstate = 'ok' if hrc == 0 else 'fail'
        else: hstate = 'build'
    m = re.search(r'OK cases=(\d+)', hout)
    cases = int(m.group(1)) if m else 0
    # ---- verdict
    os.makedirs(V + '/build/replays', exist_ok=True)
    rp = '%s/build/replays/%s.txt' % (V, cid)
    if os.path.exists(rp): os.remove(rp)
    concrete = hstate == 'fail'
    bad = concrete or bool(failed)
    if bad:
        with open(rp, 'w') as f:
            f.write('property %s\n' % cid)
            if failed:
                f.write('\nobligations the verifier does not discharge:\n')
                for x in failed:
                    f.write('  [%s] %s  at %s  (%s)\n' % (x['task'], x['name'], x['loc'], x['how']))
                    if x.get('model'): f.write('      verifier\'s model: %s\n' % '; '.join(x['model'][:40]))
            if concrete:
                f.write('\nreplay on the real code (%s):\n  bash %s/replay/build.sh %s /tmp/h && VERIF_SEED=%d VERIF_TIER=%s /tmp/h\n' % ('did not finish' if hrc is None else 'exit %s' % hrc, V, cid, seedn, tier))
                f.write('\n'.join('  ' + l for l in hout.split('\n')[-200:]) + '\n')
    level = 'proof'
    cov = {'obligations': n_ob, 'discharged': n_ok, 'checker_cmd': 'python3-vt %s/engine/run.py <extracted program> %s' % (V, cid),
           'trusted_base': TRUST + sorted('contract assumed on: ' + t for t in trusted),
           'functions_under_contract': list(getattr(mod, 'UNDER_CONTRACT', [])) if mod else [],
           'functions_verified': sorted(f for f in fns if 'ndt_2d' in f.split('(')[0]), 'functions_inlined': len(fns),
           'loops_summarised': loops, 'back_ends': backs, 'solver_s': round(tsolve, 1), 'tasks': [{'task': r['task'], 'obligations': len(r['results']), 'discharged': sum(1 for x in r['results'] if x['ok']), 's': round(r['t'], 1), 'error': (r['error'] or '')[:300]} for r in res],
           'undischarged': ['%s: %s' % (x['task'], x['name']) for x in failed][:60],
           'bounded_replay': {'state': hstate, 'cases': cases}}
    if unsupported:
        cov['out_of_reach'] = unsupported
        cov['evaluations'] = cases; cov['distinct_nontrivial'] = cases
        cov['rule'] = 'bounded stand-in: the replay harness, pseudo-random and directed inputs, each with its own operations and values'
        cov['samples'] = [hout[-300:]]
        level = 'exploration'
    ev.update({'level': level, 'coverage': cov, 'assumptions': ASSUME + assumed + list(getattr(mod, 'ASSUMES', []) if mod else []), 'wall_s': round(time.time() - t0, 1), 'violations': int(bad)})
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, cid), 'w'), indent=1)
    print('%s: %d of %d obligations discharged, %d out of reach, replay %s (%d cases), %.0f s' % (cid, n_ok, n_ob, len(unsupported), hstate, cases, time.time() - t0))
    for x in failed[:20]: print('  not discharged: [%s] %s  %s' % (x['task'], x['name'], x['how']))
    for u in unsupported: print('  out of the verifier\'s reach, bounded stand-in only: ' + u[:300])
    if hstate == 'build': print('  replay harness does not build against this tree: ' + tail(W + '/hbuild.log'))
    if concrete: print('  ' + '\n  '.join(hout.split('\n')[:12]))
    for l in known(cid): print(l)
    if bad:
        print('VIOLATION property=%s replay=%s%s' % (cid, rp, '' if concrete else ' no-failing-input-found'))
        return 1
    return 0
def known(cid):
    try: ls = open(V + '/known_findings.txt').read().split('\n')
    except OSError: return []
    return ['KNOWN-FINDING: ' + l[len('finding: '):] for l in ls if l.startswith('finding: property=%s ' % cid)]
def tail(p):
    try: return open(p, errors='replace').read()[-400:].replace('\n', ' | ')
    except OSError: return ''
TRUST = ['clang 18 front end (translation of the C++ source to LLVM IR at -O0)', 'engine/irdump.cpp, engine/*.py (symbolic execution, loop summaries, obligation generation)',
         'z3 4.x and the polynomial normal form of engine/smt.py', 'vstub/: interfaces of the standard library, Eigen, ceres and ROS as specified there']
ASSUME = ['floating-point numbers are treated as real numbers; integers as mathematical integers with conversion-range obligations',
          'containers hold fewer than 2^48 elements; allocation succeeds']
if __name__ == '__main__': sys.exit(main())
