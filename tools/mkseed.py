"""
Make and try planted bugs.  usage: mkseed.py DEFS.py [ID...]
DEFS.py defines S = [(id, property, needs, what it breaks, [(file in ndspy, old, new)], demo), ...];
demo is Python text that fails when the bug shows.  Everything runs in scratch clones of /repo;
a bug is kept under seeded/ when the tests still pass and the demonstration tells it from the
original, and it only changes lines of the original repository.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
root = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
for ID, prop, needs, breaks, edits, demo in runpy.run_path(sys.argv[1])['S']:
    if sys.argv[2:] and ID not in sys.argv[2:]: continue
    T = tempfile.mkdtemp(prefix='seed-'); r = T + '/repo'; out = T + '/out'; os.mkdir(out)
    try:
        sh('git', 'clone', '-q', '/repo', r)
        mine = set(sh('git', '-C', r, 'log', '--format=%H', '--grep=^fix:').stdout.split())
        open(out + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + demo.strip() + '\n')
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n/opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        r0 = sh('bash', out + '/demo.sh', cwd=r)
        for f, old, new in edits:
            p = f'{r}/ndspy/{f}'; s = open(p).read()
            assert s.count(old) == 1, (ID, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', r, 'diff').stdout
        open(out + '/patch.diff', 'w').write(diff)
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        foreign = []
        for f in {e[0] for e in edits}:
            for l in sh('git', '-C', r, 'blame', '-l', 'HEAD', '--', 'ndspy/' + f).stdout.splitlines():
                h, text = l.split(' ', 1)[0].lstrip('^'), l.split(') ', 1)[-1]
                if text in removed and h in mine: foreign.append(text)
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests', cwd=r, env=dict(os.environ, PYTHONPATH=r))
        r1 = sh('bash', out + '/demo.sh', cwd=r)
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0 and not foreign
        print('kept ' if ok else 'NO   ', ID, 'demo before', r0.returncode, 'after', r1.returncode, 'tests', t.returncode, foreign or '')
        if not ok: print((r0.stdout + r0.stderr)[-500:])
        else:
            shutil.rmtree(f'{V}/seeded/{ID}', ignore_errors=True)
            shutil.copytree(out, f'{V}/seeded/{ID}')
    finally: shutil.rmtree(T)
