"""Mutation runs against the checks: makes small changes of ndspy in scratch copies and tells which checks notice.

usage: mutate.py OUT.jsonl COUNT SEED [FILE ...]     (JOBS=n for parallel runs)
Scratch copies live in a temporary directory that is removed at the end.
"""
import ast, concurrent.futures as cf, json, os, queue, random, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CHECKS = {'lz10': 'C01', '_lzCommon': 'C01 C02', 'codeCompression': 'C02', 'fnt': 'C03 C04', 'narc': 'C04', 'rom': 'C05 C06', 'code': 'C07 C08',
          'bmg': 'C09 C10', 'soundArchive': 'C11 C12', 'soundSequence': 'C13 C14 C15', 'soundSequenceArchive': 'C16', 'soundBank': 'C17', 'soundWave': 'C18',
          'soundWaveArchive': 'C18', 'soundStream': 'C19', 'bnbl': 'C20', 'bncl': 'C20', 'color': 'C21', 'graphics2D': 'C22', 'texture': 'C23 C24', 'model': 'C23',
          'extras/music': 'C25 C26 C32', '_common': 'C27 C20 C06 C23 C34 C35 C24 C22', 'soundGroup': 'C11', 'soundSequencePlayer': 'C11 C29', 'soundStreamPlayer': 'C11 C29', '__init__': 'C27 C18'}
LAST = 'C30 C29 C28 C31 C33 C34 C35'
SKIP = set()
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
OPS = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//', '+'], ast.FloorDiv: ['*'], ast.Mod: ['//'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&', '^'], ast.BitXor: ['|']}


def mutants(src):
    """(line, description, new source) of every mutant of a module."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    raw = [l.encode() for l in lines]
    starts = [0]
    for l in raw: starts.append(starts[-1] + len(l))
    data = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: data[slice(*span(n))].decode()
    out = []
    def put(n, new, what):
        a, b = span(n)
        out.append((n.lineno, f'{what}: {text(n)[:70]!r} -> {new[:70]!r}', (data[:a] + new.encode() + data[b:]).decode()))
    def stmt(n):
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            put(n, 'pass', 'drop')
    def go(n, infn, noted):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP: return
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]: go(d, True, noted)
            for x in n.body: go(x, True, noted)
            return
        if isinstance(n, (ast.JoinedStr,)) or isinstance(n, ast.Raise):
            if isinstance(n, ast.Raise) and infn: stmt(n)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value: go(n.value, infn, noted)
            return
        if infn:
            if isinstance(n, ast.stmt): stmt(n)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []): put(n, f'({text(n.left)} {o} {text(n.comparators[0])})', 'compare')
            if isinstance(n, ast.BinOp):
                for o in OPS.get(type(n.op), []):
                    if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))): put(n, f'({text(n.left)} {o} {text(n.right)})', 'operator')
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                put(n, f'({n.value + 1})', 'constant'); put(n, f'({n.value - 1})', 'constant')
            if isinstance(n, ast.Constant) and isinstance(n.value, bool): put(n, str(not n.value), 'constant')
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and any(c in n.value for c in '<>') and len(n.value) < 9:
                for a, b in (('H', 'h'), ('h', 'H'), ('I', 'i'), ('i', 'I'), ('B', 'b'), ('<', '>')):
                    if a in n.value: put(n, repr(n.value.replace(a, b, 1)), 'format')
            if isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                put(n, '(' + o.join(text(v) for v in n.values) + ')', 'boolean'); put(n, '(' + text(n.values[0]) + ')', 'half'); put(n, '(' + text(n.values[-1]) + ')', 'half')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): put(n, '(' + text(n.operand) + ')', 'not')
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                put(n.test, '(not (' + text(n.test) + '))', 'negate'); put(n.test, 'False', 'never')
                if not isinstance(n, ast.While): put(n.test, 'True', 'always')
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                put(n, f'{text(n.func)}({text(n.args[1])}, {text(n.args[0])}' + ''.join(', ' + text(x) for x in n.args[2:]) + ''.join(', ' + text_kw(k, text) for k in n.keywords) + ')', 'swap')
            if isinstance(n, ast.Slice):
                if n.lower: put(n.lower, f'({text(n.lower)} + 1)', 'slice')
                if n.upper: put(n.upper, f'({text(n.upper)} - 1)', 'slice')
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): put(n.value, 'None', 'return')
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
            go(c, infn, noted)
    go(tree, False, None)
    return out


def text_kw(k, text): return (f'{k.arg}=' if k.arg else '**') + text(k.value)


def main():
    outp, count, seed, *files = sys.argv[1:]
    R = random.Random(int(seed))
    allm = []
    for name in files or sorted(CHECKS):
        path = f'ndspy/{name}.py'
        with open(os.path.join(REPO, path)) as f: src = f.read()
        for ln, what, new in mutants(src):
            try: compile(new, path, 'exec')
            except SyntaxError: continue
            if new != src: allm.append((name, path, ln, what, new))
    print(len(allm), 'mutants possible', flush=True)
    R.shuffle(allm)
    todo = allm[:int(count)]
    jobs = int(os.environ.get('JOBS', '3'))
    base = tempfile.mkdtemp(prefix='mutate-')
    slots = queue.Queue()
    for i in range(jobs):
        d = f'{base}/{i}'; os.makedirs(d)
        shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('.git'))
        slots.put(d)
    done = {json.loads(l)['what'] for l in open(outp)} if os.path.exists(outp) else set()
    t0 = time.time()
    def one(m):
        name, path, ln, what, new = m
        what = f'{path}:{ln} {what}'
        if what in done: return
        d = slots.get()
        try:
            p = os.path.join(d, 'repo', path)
            with open(p) as f: orig = f.read()
            with open(p, 'w') as f: f.write(new)
            env = dict(os.environ, VERIF_REPO=d + '/repo', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_SEED='1')
            killed, how = None, ''
            try:
                for c in (CHECKS[name] + ' ' + LAST).split():
                    try: r = subprocess.run(['/opt/venv/bin/python', '-B', d + '/verif/harness/check.py', c], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    except subprocess.TimeoutExpired: killed, how = c, 'TIMEOUT'; break
                    if r.returncode == 1 and 'VIOLATION' in r.stdout: killed = c; how = r.stdout.split('clause "')[1].split('"')[0] if 'clause "' in r.stdout else ''; break
                    if r.returncode != 0: how += f'{c} exit {r.returncode}: {r.stdout[-300:]}; '
            finally:
                with open(p, 'w') as f: f.write(orig)
            with open(outp, 'a') as f: f.write(json.dumps({'what': what, 'killed': killed, 'how': how, 'at': round(time.time() - t0)}) + '\n')
            if not killed or how == 'TIMEOUT' or 'exit' in how: print('SURVIVED' if not killed else killed, what, how, flush=True)
        finally: slots.put(d)
    try:
        with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(one, todo))
    finally: shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__': main()
