"""Plants bugs (development tool; no check reads seeded/).

plant.py SPEC.py [ID...]    SPEC.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo='python source')]
For each seed: scratch copy, patch, stable tests, demo with/without, then the property's check (and `also`) against the scratch copy.
Keeps a seed under /verif/seeded/<id> when the tests pass and the demo tells the trees apart.
"""
import importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import mutate

DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds on this input
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec timeout 250 "$py" -W ignore "$(dirname "$0")/demo.py"
'''


def one(s):
    base = '/tmp/plant/' + s['id']
    out = [s['id']]
    try:
        mutate.setup(base)
        repo = base + '/repo'
        env = mutate.env_for(base, 4)
        dd = base + '/demo'
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(s['demo'])
        open(dd + '/demo.sh', 'w').write(DEMO_SH)

        def demo():
            r = subprocess.run(['bash', dd + '/demo.sh'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return r.returncode, r.stdout.decode()[-700:]
        rc0, o0 = demo()
        for f, old, new in s['edits']:
            p = repo + '/qosy/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return out + ['EDIT MATCHES {} TIMES: {}'.format(t.count(old), old[:60])]
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
        # is at least one removed line a line of the original repository?
        base_commit = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=repo, stdout=subprocess.PIPE).stdout.decode().split()[0]
        orig = True
        rem = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
        for f in set(e[0] for e in s['edits']):
            b = subprocess.run(['git', 'show', base_commit + ':qosy/' + f], cwd=repo, stdout=subprocess.PIPE).stdout.decode().split('\n')
            for l in rem:
                if l not in b:
                    orig = False
        tests = mutate.run_tests(base, env)
        rc1, o1 = demo()
        out.append('tests={} demo={}/{} orig={}'.format('pass' if tests else 'FAIL', rc0, rc1, orig))
        if rc0 != 0:
            out.append('demo fails unpatched: ' + o0)
        if not tests or rc0 != 0 or rc1 == 0:
            return out
        res = {}
        for c in [s['prop']] + s.get('also', []):
            r = subprocess.run(['bash', base + '/verif/run.sh', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res[c] = r.returncode
        out.append('checks {}'.format(res))
        out.append('CAUGHT' if res[s['prop']] == 1 else '*** MISSED')
        if not orig:
            return out + ['(not kept)']
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        return out
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:]
    seeds = [s for s in m.SEEDS if not ids or s['id'] in ids]
    with ThreadPoolExecutor(2) as ex:
        for o in ex.map(one, seeds):
            print(' | '.join(o), flush=True)


if __name__ == '__main__':
    main()
