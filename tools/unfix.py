"""Reverts each fix: commit in a scratch copy, runs the property's check there and stores the shrunk case (development tool).

unfix.py [COMMIT...]    writes regress/<ID>/<commit>.json and prints what was found
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import mutate

MAP = '''f26934e C12|dcba8ba C31|254378e C31|4c12750 C31|fe68098 C31 C21|5cb2a96 C31|3451739 C31|8f4acd9 C31|f0773f3 C31|dbe1d1b C31|5b5cea5 C04 C30|f721084 C29|78a7f99 C29|
f9d6987 C27|09a19b9 C27|41c6ddc C27|366a86d C27|af6807d C27|5b6faa4 C27|e7f746b C26|20f3e7e C26|45ac245 C26|565a79f C23|c34eecd C23|844dddc C23|551d79f C22|5332b24 C21|
d56e7a6 C28|8f20a61 C28|5b87e4d C20|3696d54 C19|d9c2515 C19|db93f78 C18|d0f43e2 C18|0e4bc5f C17 C18|2482f8a C15 C31|79312b0 C14|970d804 C13|dc3bedf C13|9bb5bef C12|d53d3e6 C11|
1bc9da0 C10|96e9522 C08|cb12ddd C07|1c14a10 C07|cb35f94 C25|10f7d8f C05|6c11aae C01|47e99dd C02 C01|0ad94bf C31 C01|554eeca C27|544ca78 C27|e1b21d6 C27|c76e99b C19|d370385 C25|e169791 C27|be5a434 C27|ee5fcfe C32|bfd7399 C32|93cfe63 C32|7a56cd8 C32|f4a2293 C32|24a56b8 C32|801766d C27|05df786 C29|113935f C12|113935f C33|75e8d95 C19 C17 C18|413e634 C33|3eef855 C33'''.replace('\n', '')


def one(item):
    c, ids = item
    base = '/tmp/unfix/' + c + ids[0]
    out = [c]
    try:
        mutate.setup(base)
        repo = base + '/repo'
        env = dict(mutate.env_for(base, 3), VERIF_SHRINK_S='45')
        subprocess.run(['git', 'update-index', '-q', '--refresh'], cwd=repo)
        patch = subprocess.run(['git', 'show', c], cwd=repo, stdout=subprocess.PIPE).stdout
        r = subprocess.run(['git', 'apply', '-R', '--3way'], cwd=repo, input=patch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return c, None, 'REVERT CONFLICTS ' + r.stdout.decode()[-200:]
        if subprocess.run('git diff HEAD --quiet', shell=True, cwd=repo).returncode == 0:
            return c, None, 'EMPTY'
        for p in ids:
            shutil.rmtree(base + '/verif/replays', ignore_errors=True)
            shutil.rmtree(base + '/verif/regress', ignore_errors=True)
            r = subprocess.run(['bash', base + '/verif/run.sh', p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1:
                f = os.listdir(base + '/verif/replays')[0]
                rec = json.load(open(base + '/verif/replays/' + f))
                d = os.path.join(os.environ.get('OUT', V), 'regress', p)
                os.makedirs(d, exist_ok=True)
                json.dump(dict(commit=c, sub=rec['sub'], case=rec['case'], err=rec['err'].split('\n')[0][:300]), open(d + '/' + c + '.json', 'w'), sort_keys=True)
                return c, p, rec['err'].split('\n')[0][:200]
        return c, None, '*** NOT DETECTED by {}'.format(ids)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    items = [(x.split()[0], x.split()[1:]) for x in MAP.split('|')]
    if sys.argv[1:]:
        items = [x for x in items if x[0] in sys.argv[1:]]
    with ThreadPoolExecutor(2) as ex:
        for o in ex.map(one, items):
            print(*o, flush=True)
