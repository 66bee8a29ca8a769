"""Runs the harnesses of one property in parallel, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import subprocess
import sys
import time
import traceback

from . import paths

EVID = os.path.join(paths.VERIF, 'evidence')
KNOWN = os.path.join(paths.VERIF, 'known_findings.txt')


class Task:
    def __init__(self, name, fn, mode='sym', params=None, timeout=240, weight=1, **opts):
        self.name, self.fn, self.mode, self.params = name, fn, mode, params or {}
        self.timeout, self.weight, self.opts = int(os.environ.get('VS_TIMEOUT', timeout)), weight, opts


def _monitor():
    seen = set()
    mon = sys.monitoring
    tid = 4
    root = os.path.join(paths.REPO, 'galgebra') + os.sep
    mon.use_tool_id(tid, 'vs')

    def start(code, off):
        if code.co_filename.startswith(root):
            seen.add(code.co_filename[len(root):] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    return seen


def _run_task(prop, task, conn):
    t0 = time.time()
    res = dict(task=task.name, mode=task.mode)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except ValueError:
        pass
    if not os.environ.get('VS_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    import warnings
    warnings.simplefilter('ignore')
    from . import engine, enc, harness
    seen = _monitor()
    eng = engine.Engine(task.mode, **task.opts)
    ctx = harness.SymCtx(eng, task.params)
    engine.hooks.eng = eng
    res['incl'] = ctx.incl
    try:
        def run():
            ctx.start_path()
            try:
                task.fn(ctx, **task.params)
            except (engine.Inconclusive, enc.Unsupported) as e:
                ctx.incl.append('%s: %s' % (type(e).__name__, e))
                return
            except Exception as e:
                from . import ref
                fr = 'result' if isinstance(e, ref.Malformed) else harness.galgebra_frame(e.__traceback__)
                if os.environ.get('VS_DEBUG'):
                    traceback.print_exc()
                if fr is None:
                    raise
                r, m = eng._solve(eng.pc)
                if r != 'unsat' and not eng.violations:
                    ctx._violation('exception %s in %s' % (type(e).__name__, fr), ctx._model(eng.pc, m) if m is not None else {},
                                   'exception', '%s: %s' % (type(e).__name__, str(e)[:300]))
                return
            if ctx.claims_on_path and not eng.violations:
                r, _ = eng._solve(eng.pc)          # reachability witness: the claims were not vacuous
                if r == 'sat':
                    eng.stats['reach'] += 1
        eng.explore(run)
        if eng.stats['claims'] == 0:
            ctx.incl.append('no claim reached')
        elif eng.stats['reach'] == 0 and not eng.violations:
            ctx.incl.append('no satisfiable path reaches a claim')
    except (engine.Inconclusive, enc.Unsupported) as e:
        ctx.incl.append('%s: %s' % (type(e).__name__, e))
    except MemoryError:
        ctx.incl.append('out of memory')
    except BaseException as e:
        ctx.incl.append('harness error %s: %s' % (type(e).__name__, traceback.format_exc()[-1500:]))
    res.update(stats=eng.stats, violations=eng.violations, labels=ctx.labels, funcs=sorted(seen),
               wall=time.time() - t0)
    conn.send(res)
    conn.close()


def _known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split('|')[0].split() if '=' in x)
                out.append((d.get('property'), d.get('task'), d.get('label', '').replace('_', ' '),
                            line.split('|', 1)[1].strip() if '|' in line else ''))
    return out


def replay(path, timeout=200):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([paths.VENV_PY, '-m', 'vs.replay', path], cwd=paths.VERIF, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return None, 'replay timed out'
    return p.returncode, p.stdout[-2000:]


def main(prop, tier='quick', only=None, jobs=8):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    random.seed(seed)
    mod = importlib.import_module('checks.' + prop)
    tasks = [t for t in mod.tasks(tier) if only is None or only in t.name]
    names = [t.name for t in tasks]
    assert len(set(names)) == len(names), 'duplicate task names %s' % sorted(n for n in set(names) if names.count(n) > 1)
    order = sorted(tasks, key=lambda t: -t.weight)
    running, results, hits, notrep = [], [], [], []
    ctxm = mp.get_context('fork')
    rdir = os.path.join(EVID, 'replays')
    os.makedirs(rdir, exist_ok=True)
    known = [k for k in _known() if k[0] == prop]
    knownseen = []
    nrep = [0]

    def handle(task, res):
        results.append(res)
        for v in res.get('violations', ()):
            nrep[0] += 1
            path = os.path.join(rdir, '%s-%s-%d.json' % (prop, task.name.replace('/', '_'), nrep[0]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, module='checks.' + prop, task=task.name, fn=task.fn.__name__,
                               mode=task.mode, params=task.params, **v), f, indent=1)
            rc, out = replay(path)
            if rc == 1:
                k = [x for x in known if x[1] == task.name and (not x[2] or x[2] in v['label'])]
                if k:
                    knownseen.append(k[0])
                    print('KNOWN-FINDING: property=%s task=%s %s (%s)' % (prop, task.name, v['label'], k[0][3]), flush=True)
                else:
                    hits.append((path, task.name, v, out))
                    print('  %s: %s %s' % (task.name, v['label'], v['detail']))
                    print('  ' + out.strip().replace('\n', '\n  ')[-800:])
                    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            else:
                notrep.append((path, task.name, v['label'], rc, out))

    keep = bool(os.environ.get("VS_KEEP"))
    while order or running:
        while order and len(running) < jobs and (keep or not hits):
            t = order.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_run_task, args=(prop, t, b))
            p.start()
            b.close()
            running.append((t, p, a, time.time()))
        if hits and not keep:
            order = []
            for t, p, a, s in running:
                p.kill()
                p.join()
            running = []
            break
        done = mp.connection.wait([a for _, _, a, _ in running], timeout=0.5)
        nxt = []
        for t, p, a, s in running:
            if a in done:
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(task=t.name, incl=['worker died'])
                p.join()
                handle(t, r)
            elif time.time() - s > t.timeout:
                p.kill()
                p.join()
                handle(t, dict(task=t.name, incl=['timeout %ds' % t.timeout]))
            else:
                nxt.append((t, p, a, s))
        running = nxt

    agg = {}
    funcs = set()
    labels = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            agg[k] = agg.get(k, 0) + v
        funcs.update(r.get('funcs', ()))
        for k, v in r.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
    incl = [(r['task'], i) for r in results for i in r.get('incl', ())]
    from . import loader
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(hits),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', ())) + [
                  'real-arithmetic semantics of the sympy operations galgebra calls (sympy and z3 are trusted)',
                  'claims hold where all denominators of the compared values are nonzero'],
              coverage=dict(
                  explanation='symbolic execution of the current galgebra source (import-time rewrite: %d tests routed to the engine); '
                              'z3 decides the negation of each claim for all real values of the symbolic inputs' % sum(loader.REWRITTEN.values()),
                  bounds=getattr(mod, 'BOUNDS', ''),
                  harnesses=len(results), paths=agg.get('paths', 0), path_decisions=agg.get('decisions', 0),
                  obligations=agg.get('claims', 0), discharged=agg.get('discharged', 0),
                  solver_queries=agg.get('queries', 0), solver_seconds=round(agg.get('solver_s', 0), 2),
                  satisfiable_paths_reaching_claims=agg.get('reach', 0), undecided=len(incl),
                  functions_encoded=sorted(funcs),
                  claims=labels,
                  samples=[dict(task=r['task'], mode=r.get('mode'), stats=r.get('stats'), wall=round(r.get('wall', 0), 2)) for r in
                           sorted(results, key=lambda r: -r.get('wall', 0))[:400]]))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d claims (%d discharged), %d queries, solver %.1fs, wall %.1fs, %d undecided' % (
        prop, tier, len(results), agg.get('paths', 0), agg.get('claims', 0), agg.get('discharged', 0), agg.get('queries', 0),
        agg.get('solver_s', 0), time.time() - t0, len(incl)))
    for t, i in incl[:20]:
        print('  undecided %s: %s' % (t, i[-600:]))
    for n in notrep[:10]:
        print('  model did not reproduce on the real code: %s' % (n,))
    if hits:
        return 1
    if incl or notrep:
        return 2
    return 0
