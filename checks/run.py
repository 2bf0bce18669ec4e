#!/usr/bin/env python3
"""Decides one property: run.py <id>.  Exit 0: held on everything analysed; 1: VIOLATION lines; 2: could not analyse."""
import hashlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import multiprocessing as mp
import facts
import props
import analyses
from core import Program

PROGS = {}
CACHE = {}


def load(cfg):
    return cfg, facts.extract(cfg)


def work(t):
    cls, cfg, i, rules = t
    k = (cls, cfg)
    try:
        A = CACHE[k]
        name, root = A._tasks[i]
        r = A.run(root)
        r['unmodelled'] = {str(a): str(b) for a, b in A.eng.unmodelled.items()} if getattr(A, 'eng', None) else {}
    except Exception:
        r = {'root': '%s[%d]' % (cls, i), 'violations': [], 'counts': {}, 'functions': [], 'unknown': {}, 'blocks': 0, 'states': 0,
             'wall': 0.0, 'unmodelled': {}, 'error': traceback.format_exc()}
    r['analysis'], r['config'] = cls, cfg
    return r


def known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                d = dict(x.split('=', 1) for x in l[len('finding: '):].split(' ', 2)[:2])
                out[(d['property'], d['key'])] = l
    return out


def key(v):
    return hashlib.sha256(('%s|%s|%s' % (v['rule'], v['construct'], v['what'])).encode()).hexdigest()[:12]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rules, parts = props.PROPS[pid]
    todo = [(cls, cfg) for cls, q, t in parts for cfg in (q if tier == 'quick' else t)]
    try:
        facts.build_driver()
        cfgs = sorted({c for _, c in todo})
        with mp.Pool(max(1, len(cfgs))) as p:
            paths = dict(p.map(load, cfgs))
        for c in cfgs:
            PROGS[c] = Program(paths[c])
    except facts.FactsError as x:
        print('cannot analyse: %s' % x)
        return 2
    tf = time.time() - t0
    jobs, errs = [], []
    for cls, cfg in todo:
        try:
            A = CACHE[(cls, cfg)] = getattr(analyses, cls)(PROGS[cfg], rules, cfg)
            A._tasks = A.tasks()
        except Exception:
            errs.append('%s %s: %s' % (cfg, cls, traceback.format_exc().strip().splitlines()[-1]))
            continue
        n = len(A._tasks)
        jobs += [(cls, cfg, i, rules) for i in range(n)]
        if n < props.FLOORS.get(cls, {}).get(cfg, 1):
            print('cannot analyse: %s finds only %d entry points in configuration %s' % (cls, n, cfg))
            return 2
    if os.environ.get('VERIF_SERIAL'):
        res = [work(j) for j in jobs]
    else:
        with mp.Pool(min(8, os.cpu_count() or 8)) as p:
            res = p.map(work, jobs, chunksize=1)
    bad, kn = {}, known()
    counts, funcs, unknown, unmod = {}, set(), {}, {}
    for r in res:
        if r.get('error'):
            errs.append('%s %s: %s' % (r['config'], r['root'], r['error'].strip().splitlines()[-1]))
        for v in r['violations']:
            v['root'], v['config'], v['analysis'] = r['root'], r['config'], r['analysis']
            bad.setdefault(key(v), v)
        for k, x in r['counts'].items():
            counts.setdefault(k, set()).update(map(str, x))
        funcs.update(r['functions'])
        for k, x in r['unknown'].items():
            unknown.setdefault(k, set()).update(x)
        unmod.update(r['unmodelled'])
    new = []
    for k, v in sorted(bad.items()):
        if (pid, k) in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['construct'], v['what']))
            continue
        path = os.path.join(ev, '%s-%s.json' % (pid, k))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'key': k, 'rule': v['rule'], 'rule_text': props.RULES.get(v['rule'], ''), **v}, f, indent=1, default=str)
        new.append((k, v, path))
    cov = {'explanation': 'Static analysis of the type-checked, monomorphised MIR of /repo (%s). Rules applied: %s' % (
               ', '.join(cfgs), '; '.join('%s: %s' % (r, props.RULES.get(r, '')) for r in sorted(rules))),
           'entry_points': len({(r['analysis'], r['root']) for r in res}),
           'entry_point_runs': len(res),
           'functions_analysed': len(funcs),
           'abstract_states': sum(r['states'] for r in res),
           'blocks_interpreted': sum(r['blocks'] for r in res),
           'sites': {k: len(x) for k, x in sorted(counts.items())},
           'site_list': {k: sorted(x)[:60] for k, x in sorted(counts.items())},
           'functions': sorted(funcs)[:300],
           'not_decided': {k: sorted(x) for k, x in unknown.items()},
           'calls_treated_as_opaque': sorted(unmod),
           'internal_errors': errs,
           'facts_wall_s': round(tf, 1)}
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
                   'coverage': cov, 'assumptions': props.ASSUMPTIONS.get(pid, props.ASSUMPTIONS['']), 'wall_s': round(time.time() - t0, 2),
                   'violations': len(new)}, f, indent=1)
    print('%s %s: %d entry point runs, %d functions, %d states, %d site kinds, %.1fs (facts %.1fs)' % (
        pid, tier, len(res), len(funcs), cov['abstract_states'], len(counts), time.time() - t0, tf))
    for k, x in sorted(unknown.items()):
        print('not decided: %s: %s' % (k, ', '.join(sorted(x))[:300]))
    for e in errs[:5]:
        print('internal error: ' + e)
    for k, v, path in new:
        print('%s [%s] %s' % (v['construct'], v['rule'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if new:
        return 1
    if not res or len(errs) * 2 > len(res):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
