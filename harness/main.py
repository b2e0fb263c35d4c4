"""main.py <PROPERTY> [--replay FILE]   (see /verif/DESIGN.md)"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = '/repo'
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def bootstrap():
    """numpy/scipy of the repository's own environment first, Hypothesis appended last."""
    import numpy, scipy, scipy.sparse, scipy.linalg, scipy.sparse.linalg  # noqa
    try:
        import hypothesis  # noqa
    except ImportError:
        for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
            if os.path.isdir(p) and p not in sys.path:
                sys.path.append(p)
        try:
            import hypothesis  # noqa
        except ImportError:
            import atexit, shutil, subprocess, tempfile
            tmp = tempfile.mkdtemp(prefix='verif-hyp-')
            atexit.register(shutil.rmtree, tmp, True)
            subprocess.check_call([sys.executable, '-m', 'pip', 'install', '-q', '--no-index', '--find-links',
                                   '/opt/veriftools/wheels', '--target', tmp, 'hypothesis'])
            sys.path.append(tmp)
            import hypothesis  # noqa


_TASKS = []


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _run(i):
    try:
        return i, _TASKS[i].run(), None
    except BaseException:
        import traceback
        return i, None, traceback.format_exc()


def main():
    t0 = time.time()
    if len(sys.argv) < 2:
        print('usage: main.py <PROPERTY> [--replay FILE]')
        return 2
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    bootstrap()
    import warnings
    warnings.simplefilter('ignore')
    import qosy
    if not os.path.realpath(qosy.__file__).startswith(REPO + '/'):
        print('ERROR: qosy was imported from', qosy.__file__)
        return 2
    import core
    prop = importlib.import_module('props.' + pid.lower()).PROP

    rdir = os.path.join(core.VERIF, 'replays')

    if len(sys.argv) >= 4 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as fh:
            rec = json.load(fh)
        ev, err = core.run_case(prop.sub(rec['sub']), rec['case'])
        if err:
            print(err)
            print('VIOLATION property={} replay={}'.format(pid, sys.argv[3]))
            return 1
        print('the case passes')
        return 0

    violations = []
    stats = dict(evaluations=0, labels={}, samples=[], known=0, truncated=0)
    nontriv = set()
    per_sub = {}

    # 1. Known findings: replay the listed case, print a line if it still fails.
    for k in core.load_known(pid):
        ev, err = core.run_case(prop.sub(k['sub']), k['case'])
        if err:
            print('KNOWN-FINDING: property={} {}'.format(pid, k['what']))

    # 2. Committed regression cases (shrunk cases of repaired defects and planted bugs).
    nreg = 0
    for path, rec in core.load_regressions(pid):
        try:
            sub = prop.sub(rec['sub'])
        except KeyError:
            continue
        nreg += 1
        ev, err = core.run_case(sub, rec['case'])
        if err:
            violations.append(dict(sub=rec['sub'], case=rec['case'], err=err, src=path))

    # 3. Generated-input search, sharded over processes.
    nproc = max(1, min(int(os.environ.get('VERIF_PROCS', '8')), os.cpu_count() or 1))
    budget = float(os.environ.get('VERIF_BUDGET_S', '420' if tier == 'quick' else '700'))
    deadline = t0 + budget
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    only = os.environ.get('VERIF_ONLY')
    for sub in prop.subs:
        if only and sub.name != only:
            continue
        count = sub.quick if tier == 'quick' else sub.thorough
        shards = max(1, min(8, count // 4))      # independent of the number of processors
        for sh in range(shards):
            n = count // shards + (1 if sh < count % shards else 0)
            if n:
                _TASKS.append(core.Task(prop, sub, sh, n, seed, tier, deadline, stop,
                                     float(os.environ.get('VERIF_SHRINK_S', '60'))))
    crashes = []
    if not violations:
        # imap with chunksize 1, interleaving sub-checks so that the long ones start first
        order = list(range(len(_TASKS)))
        with ctx.Pool(nproc, initializer=_limit) as pool:
            for i, res, tb in pool.imap_unordered(_run, order, chunksize=1):
                if tb is not None:
                    crashes.append(tb)
                    continue
                s, viol, crash = res
                if crash:
                    crashes.append(crash)
                stats['evaluations'] += s['evaluations']
                stats['known'] += s['known']
                stats['truncated'] += s['truncated']
                d = per_sub.setdefault(s['sub'], dict(evaluations=0, distinct_nontrivial=0, labels={}))
                d['evaluations'] += s['evaluations']
                d['slowest_case_s'] = round(max(d.get('slowest_case_s', 0.0), s['slowest']), 2)
                new = s['nontrivial'] - nontriv
                d['distinct_nontrivial'] += len(new)
                nontriv |= new
                for l, c in s['labels'].items():
                    d['labels'][l] = d['labels'].get(l, 0) + c
                if len([x for x in stats['samples'] if x['check'] == s['sub']]) < 2:
                    stats['samples'] += s['samples'][:1]
                if viol:
                    violations.append(viol)

    wall = time.time() - t0
    rc = 0
    out = []
    if violations:
        rc = 1
        violations.sort(key=lambda v: len(core.jdump(v['case'])))
        os.makedirs(rdir, exist_ok=True)
        v = violations[0]
        text = core.jdump(dict(property=pid, sub=v['sub'], case=v['case']))
        import hashlib
        path = os.path.join(rdir, '{}-{}.json'.format(pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, sub=v['sub'], case=v['case'], err=v['err'],
                           replay='./run.sh {} --replay {}'.format(pid, path)), fh, indent=1, sort_keys=True)
        print('[{}] {}: {}'.format(pid, v['sub'], v['err'][:3000]))
        print('case: ' + core.jdump(v['case'])[:3000])
        out.append('VIOLATION property={} replay={}'.format(pid, path))
    elif crashes:
        rc = 3
        print('ERROR in the harness:\n' + crashes[0])
    evid = dict(property=pid, tier=tier, seed=seed, level='exploration',
                coverage=dict(evaluations=stats['evaluations'] + nreg, distinct_nontrivial=len(nontriv),
                              rule=prop.rule, samples=stats['samples'][:12] or [dict(check=v['sub'], case=v['case']) for v in violations[:1]],
                              per_check=per_sub, regression_cases=nreg,
                              excluded_known_findings=stats['known'], not_run_time_budget=stats['truncated']),
                assumptions=prop.assumptions, wall_s=round(wall, 2), violations=len(violations))
    edir = os.path.join(core.VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as fh:
        json.dump(evid, fh, indent=1, sort_keys=True)
    print('[{}] tier={} seed={} evaluations={} distinct_nontrivial={} known={} truncated={} wall={:.1f}s'.format(
        pid, tier, seed, evid['coverage']['evaluations'], len(nontriv), stats['known'], stats['truncated'], wall))
    for l in out:
        print(l)
    return rc


if __name__ == '__main__':
    sys.stdout.flush()
    sys.exit(main())
