"""Run the contracts of one property over an extracted program."""
import sys, os, time, json, importlib, multiprocessing, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(V, 'contracts'))
import api
from api import *

def run_task(path, mod, name, fn, jobs, budget):
    t0 = time.time()
    out = {'task': name, 'results': [], 'error': None, 'covers': []}
    try:
        p = Prog(path)
        c = Ctx(p, name)
        c.ex.deadline = time.time() + budget * 0.6
        fn(c)
        out['t_exec'] = time.time() - t0
        for n, facts, q in c.covers:
            r = smt_check([f for f in facts if isz(f)] + axioms([f for f in facts if isz(f)][:50]), 3000)[0]
            out['covers'].append((n, str(r)))
        out['results'] = discharge(c.ex.obls, jobs, max(30, budget - (time.time() - t0)))
        out['inlined'] = sorted(c.ex.inlined); out['trusted'] = sorted(c.ex.trusted); out['contracts'] = sorted(c.ex.used_contracts)
        out['loops'] = [(a, b, d, str(T)) for a, b, d, T in c.ex.loopnotes]
        out['assumed'] = c.assumed
    except sx.Unsupported as e: out['error'] = 'unsupported: %s at %s' % (e, getattr(c.ex, 'loc', None) if 'c' in dir() else None)
    except Exception as e: out['error'] = 'engine: ' + repr(e)[:300] + '\n' + traceback.format_exc()[-1500:]
    out['t'] = time.time() - t0
    return out
def _task(w, *a):
    try: r = run_task(*a)
    except BaseException as e: r = {'task': a[2], 'results': [], 'error': 'engine: ' + repr(e)[:300], 'covers': [], 't': 0}
    w.send(r); w.close(); os._exit(0)
def run_property(path, pid, budget=500, only=None):
    mod = importlib.import_module(pid)
    tasks = [t for t in mod.TASKS if only is None or t[0] in only]
    ctx = multiprocessing.get_context('fork')
    live, res = {}, []
    jobs = max(3, 8 // max(1, len(tasks)))
    pend = list(tasks)
    t0 = time.time()
    while pend or live:
        while pend and len(live) < 8:
            n, f = pend.pop(0)[:2]
            if api.found():
                res.append({'task': n, 'results': [], 'error': 'not run: the verdict is known', 'covers': [], 't': 0}); continue
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_task, args=(w, path, pid, n, f, max(1, jobs), max(30, budget - (time.time() - t0))))
            p.start(); w.close(); live[n] = (p, r, time.time())
        for n, (p, r, ts) in list(live.items()):
            if r.poll(0.05):
                try: res.append(r.recv())
                except EOFError: res.append({'task': n, 'results': [], 'error': 'engine: died', 'covers': [], 't': time.time() - ts})
                p.join(); del live[n]
                # the verdict is known: the other tasks need not go on for long
                if any(not x['ok'] for x in res[-1]['results']) and os.environ.get('REPLAY_FOUND'): open(os.environ['REPLAY_FOUND'], 'w').close()
            elif time.time() - t0 > budget + 60:
                p.kill(); p.join(); del live[n]
                res.append({'task': n, 'results': [], 'error': 'unsupported: time limit', 'covers': [], 't': time.time() - ts})
    return res
if __name__ == '__main__':
    path, pid = sys.argv[1], sys.argv[2]
    only = sys.argv[3:] or None
    res = run_property(path, pid, only=only)
    bad = 0
    for r in res:
        ok = sum(1 for x in r['results'] if x['ok'])
        print('%-34s %d/%d obligations, exec %.1fs total %.1fs %s' % (r['task'], ok, len(r['results']), r.get('t_exec', 0), r['t'], r['error'] or ''))
        for n, x in r['covers']:
            if all(y == 'unsat' for m, y in r['covers'] if m == n): print('    VACUOUS', n)
        for x in r['results']:
            if not x['ok']:
                print('    FAILED %s  @%s  %s %.1fs' % (x['name'], x['loc'][1:] if x['loc'] else '', x['how'], x['t']))
                if os.environ.get('MODEL') and x['model']: print('       ', '; '.join(x['model'][:30]))
        if os.environ.get('SLOW'):
            for x in sorted(r['results'], key=lambda x: -x['t'])[:4]: print('     slow %.1f %s %s' % (x['t'], x['name'], x['how']))
