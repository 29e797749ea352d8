#!/usr/bin/env python3-vt
"""run.py <PROPERTY>: decide one property of the fluids package in $FLUIDS_REPO (/repo)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')


def worker(pid, idx, tier, seed, limit, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from symx import harness as H
    h = H.REG[pid][idx]
    try:
        r = H.run_symbolic(h, tier, seed, time.time() + limit)
    except BaseException as e:      # noqa
        import traceback
        r = {'name': h.name, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'name': h.name, 'error': 'send: %r' % e})
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from symx import patches
    patches.install()
    from symx import harness as H
    importlib.import_module('props.' + a.pid.lower())
    hs = H.REG[a.pid]
    sel = [i for i, h in enumerate(hs) if (a.tier == 'thorough' or h.opt.get('tier', 'quick') == 'quick')
           and (not a.only or a.only in h.name)]
    budget = float(os.environ.get('VERIF_BUDGET', 420 if a.tier == 'quick' else 3000))
    # long ones first
    todo = sorted(sel, key=lambda i: -hs[i].opt.get('timeout', 60))
    mult = 1 if a.tier == 'quick' else 6
    running = []
    results = {}
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < a.j:
            i = todo.pop(0)
            lim = hs[i].opt.get('timeout', 60) * mult
            if time.time() - t0 > budget:
                results[i] = {'name': hs[i].name, 'error': 'not started: check budget exhausted'}
                continue
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(a.pid, i, a.tier, seed, lim, w))
            p.start()
            w.close()
            running.append([i, p, r, time.time() + lim * 1.5 + 10])
        time.sleep(0.02)
        for x in list(running):
            i, p, r, dl = x
            if r.poll():
                try:
                    results[i] = r.recv()
                except EOFError:
                    results[i] = {'name': hs[i].name, 'error': 'worker died (memory?)'}
                p.join()
                running.remove(x)
            elif not p.is_alive():
                results[i] = {'name': hs[i].name, 'error': 'worker died'}
                running.remove(x)
            elif time.time() > dl:
                p.kill()
                p.join()
                results[i] = {'name': hs[i].name, 'error': 'time limit'}
                running.remove(x)
    finish(a, hs, results, seed, t0)


def finish(a, hs, results, seed, t0):
    agg = {'paths': 0, 'decisions': 0, 'proved': 0, 'queries': 0, 'solver_time_s': 0.0, 'validated': 0, 'unsat': 0, 'sat': 0, 'unknown': 0}
    how, inconclusive, samples, mism, per, vac = {}, [], [], [], [], []
    cands = []
    for i in sorted(results):
        r = results[i]
        if 'error' in r:
            inconclusive.append('%s: %s' % (r['name'], r['error']))
            if a.v:
                print('ERROR', r['name'], r['error'], r.get('tb', ''))
            continue
        agg['paths'] += r['paths']
        agg['decisions'] += r['decisions']
        agg['proved'] += r['proved']
        agg['validated'] += r['validated']
        for k in ('queries', 'unsat', 'sat', 'unknown'):
            agg[k] += r['smt'].get(k, 0)
        agg['solver_time_s'] += r['smt']['time']
        for k, v in r['how'].items():
            how[k] = how.get(k, 0) + v
        for o in r['open']:
            inconclusive.append('%s: %s (%s) %s' % (r['name'], o[0], o[1], o[2] or ''))
        us = {}
        for u in r['unsupported']:
            us[u] = us.get(u, 0) + 1
        for u, n in us.items():
            inconclusive.append('%s: %d path(s) not encoded: %s' % (r['name'], n, u))
        mism += r['mismatch']
        samples += r['samples'][:1]
        if r['proved'] == 0 and not r['cands']:
            vac.append(r['name'])
        per.append({'harness': r['name'], 'paths': r['paths'], 'goals_proved': r['proved'], 'witnessed_paths': r['witnessed'],
                    'validated': r['validated'], 'wall_s': round(r['wall'], 2), 'queries': r['smt']['queries'],
                    'bounds': hs[i].opt.get('bounds', ''), 'code': hs[i].opt.get('funcs', '')})
        for c in r['cands']:
            cands.append((i, c))
        if a.v:
            print('%-40s paths %4d proved %4d open %d cands %d unsup %d valid %d mism %d  %.1fs smt %.1fs' % (
                r['name'][:40], r['paths'], r['proved'], len(r['open']), len(r['cands']), len(r['unsupported']),
                r['validated'], len(r['mismatch']), r['wall'], r['smt']['time']))
    viol, known, notrep = replay_all(a, hs, cands, seed)
    if mism:
        inconclusive += ['encoding mismatch: ' + m for m in mism[:20]]
    if vac:
        inconclusive += ['vacuous harness (no goal reached): ' + v for v in vac]
    inconclusive += ['candidate did not replay: ' + n for n in notrep[:40]]
    ev = {
        'property': a.pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': agg['paths'], 'transitions': agg['decisions'],
            'traces_validated_against_impl': agg['validated'], 'samples': samples[:8],
            'explanation': 'states = symbolic paths of the real functions explored; transitions = symbolic branch decisions; '
                           'every goal on every path is an SMT query over all inputs in the stated bounds',
            'goals_proved': agg['proved'], 'proved_by': how, 'smt_queries': agg['queries'], 'smt_unsat': agg['unsat'],
            'smt_sat': agg['sat'], 'smt_unknown': agg['unknown'], 'solver_time_s': round(agg['solver_time_s'], 2),
            'harnesses': per, 'inconclusive': inconclusive, 'known_findings': known,
            'counterexamples_replayed': len(viol) + len(known) + len(notrep),
        },
        'assumptions': ['inputs are real numbers within the stated bounds (rounding below the 1e-10 relative proof tolerance is not modelled)',
                        'z3, mpmath and libm are correct',
                        'iterative root finders satisfy their contract (return a root) in harnesses marked stub'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d harnesses, %d paths, %d goals proved, %d queries, %d inconclusive, %.1f s' % (
        a.pid, len(results), agg['paths'], agg['proved'], agg['queries'], len(inconclusive), time.time() - t0))
    for x in inconclusive[:60 if a.v else 12]:
        print('INCONCLUSIVE', str(x)[:300])
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k))
    for lab, path in viol:
        print('# %s' % lab)
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
    sys.exit(1 if viol else 0)


def replay_all(a, hs, cands, seed):
    """Replay candidates on the unpatched package in a clean process."""
    viol, known, notrep = [], [], []
    kf = load_known(a.pid)
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    n = 0
    done = {}
    for i, c in cands:
        key = (hs[i].name, c['label'])
        if done.get(key, 0) >= 3 or len(viol) >= 10 or n > 60:
            continue
        n += 1
        path = os.path.join(rd, '%s-%d.json' % (a.pid, n))
        with open(path, 'w') as f:
            json.dump({'property': a.pid, 'harness': hs[i].name, 'label': c['label'], 'why': c['why'],
                       'choices': c['choices'], 'cases': c['cases'], 'mp': hs[i].opt.get('mp', True)}, f, indent=1)
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), path], capture_output=True, text=True, timeout=90)
        except subprocess.TimeoutExpired:
            notrep.append('%s/%s replay timed out' % key)
            continue
        out = p.stdout.strip().splitlines()
        last = out[-1] if out else ''
        if p.returncode == 1 and last.startswith('REPRODUCED'):
            detail = '%s / %s: %s' % (hs[i].name, c['label'], last[11:])
            k = match_known(kf, hs[i].name, c, last)
            if k:
                if k not in known:
                    known.append(k)
            else:
                done[key] = done.get(key, 0) + 3
                viol.append((detail, path))
        else:
            done[key] = done.get(key, 0) + 1
            if c['label'] != 'path not encoded':
                notrep.append('%s/%s (%s): %s %s' % (key + (c['why'], last[:200], p.stderr.strip()[-200:])))
    return viol, known, notrep


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') == 'open']


def match_known(kf, hname, c, last):
    for k in kf:
        if k['harness'] == hname and (k['label'] == c['label'] or c['label'] == 'path not encoded' and k['label'] in last) and all(c['choices'].get(x) == v for x, v in k.get('choices', {}).items()):
            return k['what']
    return None


if __name__ == '__main__':
    main()
