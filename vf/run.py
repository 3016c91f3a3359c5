"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--facet NAME] [--scale X]
                run.py --replay FILE
"""
import os
import sys

WANT = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8',
        'MALLOC_MMAP_THRESHOLD_': '4294967296', 'MALLOC_TRIM_THRESHOLD_': '8589934592',
        'MALLOC_TOP_PAD_': '67108864', 'PYTHONWARNINGS': 'ignore', 'VF_ENV': '1'}
if os.environ.get('VF_ENV') != '1':
    env = dict(os.environ)
    env.update(WANT)
    env.pop('PYTHONPATH', None)
    if not os.path.isdir(env.get('MPLCONFIGDIR', '')):
        env['MPLCONFIGDIR'] = '/tmp/vf_mplconfig'
        os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse          # noqa: E402
import json              # noqa: E402
import time              # noqa: E402
import traceback         # noqa: E402
import multiprocessing   # noqa: E402
from concurrent.futures import ProcessPoolExecutor, as_completed  # noqa: E402
import core              # noqa: E402


def shard_seed(seed, prop, facet, i):
    import hashlib
    h = hashlib.sha256(('%s|%s|%s|%s' % (seed, prop, facet, i)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def write_replay(prop, seed, tier, fail):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, fail['facet']))
    with open(p, 'w') as fh:
        json.dump({'property': prop, 'facet': fail['facet'], 'seed': seed, 'tier': tier,
                   'case': fail['case'], 'why': fail['why']}, fh, indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    f = core.load(d['property']).get(d['facet'])
    rec, txt, exc = core.run_body(f, d['case'])
    if txt:
        print(txt)
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('replay passes')
    return 0


def run_known(prop, entry):
    f = core.load(prop).get(entry['facet'])
    rec, txt, exc = core.run_body(f, entry['case'])
    return txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--facet')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        import falco
        import hypothesis
        print('falco', falco.__file__, 'hypothesis', hypothesis.__version__)
        sys.exit(0)
    if a.replay:
        sys.exit(replay(a.replay))
    prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import falco
    if not os.path.abspath(falco.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise core.HarnessError('falco imported from ' + falco.__file__)
    facets = core.load(prop)
    ncpu = 8
    budget = 240.0 if tier == 'quick' else 700.0
    deadline = t0 + budget
    tasks = []
    for f in facets.facets:
        if a.facet and f.name != a.facet:
            continue
        n = int(round((f.quick if tier == 'quick' else f.thorough)*a.scale))
        n = max(n, 1) if f.strategy is not None else 0
        ns = f.shards or min(ncpu, max(1, n))
        for i in range(ns):
            m = n//ns + (1 if i < n % ns else 0)
            tasks.append((f.name, m, shard_seed(seed, prop, f.name, i), i == 0))
    # interleave shards so that all facets progress when time is short
    results, errors = [], []
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(ncpu, mp_context=ctx) as ex:
        futs = {ex.submit(core.run_shard, prop, t[0], t[1], t[2], deadline, t[3]): t for t in tasks}
        for fu in as_completed(futs):
            try:
                results.append(fu.result())
            except BaseException as e:
                errors.append((futs[fu][0], ''.join(traceback.format_exception(e))))
    known = []
    for entry in core.known_entries(prop):
        if a.facet and entry['facet'] != a.facet:
            continue
        txt = run_known(prop, entry)
        if txt is not None:
            known.append(entry)
            print('KNOWN-FINDING: property=%s %s' % (prop, entry['what']))
    fails = {}
    for r in results:
        if r['fail']:
            k = r['facet']
            if k not in fails or len(core.canon(r['fail']['case'])) < len(core.canon(fails[k]['case'])):
                fails[k] = r['fail']
    per = {}
    for r in results:
        p = per.setdefault(r['facet'], dict(evaluations=0, nt=set(), skipped=0, labels={}, cpu_s=0.0,
                                            samples=[]))
        p['evaluations'] += r['evals']
        p['nt'].update(r['nt'])
        p['skipped'] += r['skipped']
        p['cpu_s'] += r['wall']
        p['samples'] += r['samples']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
    samples = []
    for k in sorted(per):
        samples += sorted(per[k].pop('samples'), key=core.canon)[:2]
    cov = {
        'evaluations': sum(p['evaluations'] for p in per.values()),
        'distinct_nontrivial': sum(len(p['nt']) for p in per.values()),
        'rule': facets.rule,
        'samples': samples,
        'facets': {k: {'evaluations': p['evaluations'], 'distinct_nontrivial': len(p['nt']),
                       'not_run_out_of_time': p['skipped'], 'classes': dict(sorted(p['labels'].items())),
                       'cpu_s': round(p['cpu_s'], 1), 'what': facets.get(k).rule}
                   for k, p in sorted(per.items())},
        'known_findings_reproduced': len(known),
    }
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': facets.assumptions, 'wall_s': round(wall, 2), 'violations': len(fails)}
    if not a.facet:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    for k, p in sorted(cov['facets'].items()):
        print('  %-34s evals=%-6d nontrivial=%-6d skipped=%-4d cpu=%.1fs %s' % (
            k, p['evaluations'], p['distinct_nontrivial'], p['not_run_out_of_time'], p['cpu_s'],
            p['classes'] if a.v else ''))
    for name, tb in errors:
        print('HARNESS ERROR in facet %s\n%s' % (name, tb))
    for k in sorted(fails):
        print('--- facet %s failed on case %s' % (k, core.canon(fails[k]['case'])[:2000]))
        print(fails[k]['why'])
    for k in sorted(fails):
        print('VIOLATION property=%s replay=%s' % (prop, write_replay(prop, seed, tier, fails[k])))
    print('%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1fs' % (
        prop, tier, cov['evaluations'], cov['distinct_nontrivial'], len(fails), wall))
    sys.stdout.flush()
    if fails:
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
