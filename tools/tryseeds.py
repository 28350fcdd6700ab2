"""Run the check of its property on every planted bug, in scratch clones.  usage: tryseeds.py [ID...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(ID):
    T = tempfile.mkdtemp(prefix='try-'); r = T + '/repo'; v = T + '/verif'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        shutil.copytree(V, v, ignore=shutil.ignore_patterns('.git', '__pycache__', 'evidence', 'seeded'))
        subprocess.run(['git', '-C', r, 'apply', f'{V}/seeded/{ID}/patch.diff'], check=True)
        p = json.load(open(f'{V}/seeded/{ID}/meta.json'))['property']
        x = subprocess.run(['/opt/venv/bin/python', '-B', v + '/harness/check.py', p], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/nonexistent/verif-pyc'))
        return ID, p, {0: 'MISSED', 1: 'caught'}.get(x.returncode, 'ERROR ' + x.stderr[-300:])
    finally: shutil.rmtree(T)
with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, sys.argv[1:] or sorted(os.listdir(V + '/seeded'))): print(*r, flush=True)
