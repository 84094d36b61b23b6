"""Point mutants of the library: which survive its tests, which the checks see.

mutate.py list OUT.jsonl [--file F]          all mutants
mutate.py tests IN.jsonl OUT.jsonl           those that survive the tests
mutate.py checks IN.jsonl OUT.jsonl [P ...]  which checks (short runs) see them
"""
import ast, json, os, shutil, subprocess, sys, tempfile, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['pysrc/whenever/_pywhenever.py', 'pysrc/whenever/__init__.py']
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '//', ast.Div: '*'}


def mutants(path):
    src = open('/repo/' + path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def add(node, new, what, fn):
        s, e = span(node)
        out.append({'file': path, 'line': node.lineno, 's': s, 'e': e, 'old': b[s:e].decode(), 'new': new, 'what': what, 'fn': fn})

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = fn + '.' + n.name if fn else n.name
            if isinstance(n, ast.FunctionDef) and (n.name in ('__repr__', '__init_subclass__') or any(
                    isinstance(d, ast.Name) and d.id in ('overload', 'abstractmethod') for d in n.decorator_list)):
                return
            body = n.body
            for c in body:
                visit(c, q)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d, q)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, fn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = CMP[type(n.ops[0])]
            add(n, f'({seg(n.left)} {t} {seg(n.comparators[0])})', 'cmp', fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'bin', fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, f'({seg(n.left)})', 'dropright', fn)
        if isinstance(n, ast.Constant) and type(n.value) is int and fn:
            add(n, f'{n.value + 1}', 'const', fn)
        if isinstance(n, ast.Constant) and type(n.value) is bool and fn:
            add(n, f'{not n.value}', 'bool', fn)
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join(f'({seg(v)})' for v in n.values) + ')', 'boolop', fn)
            for k in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join(f'({seg(v)})' for i, v in enumerate(n.values) if i != k) + ')', 'boolop-drop', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f'({seg(n.operand)})', 'unary', fn)
        if isinstance(n, ast.IfExp):
            add(n, f'({seg(n.body)})', 'ifexp', fn)
            add(n, f'({seg(n.orelse)})', 'ifexp', fn)
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, '(True)', 'if', fn)
            add(n.test, '(False)', 'if', fn)
        if isinstance(n, ast.Call):
            args = [seg(a) for a in n.args]
            kws = [(f'{k.arg}=' if k.arg else '**') + seg(k.value) for k in n.keywords]
            for i in range(len(kws)):
                add(n, f'{seg(n.func)}({", ".join(args + kws[:i] + kws[i + 1:])})', 'dropkw', fn)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('replace', 'astimezone', 'rstrip', 'lstrip', 'strip', 'upper', 'time', 'date', 'ljust', 'zfill'):
                add(n, f'({seg(n.func.value)})', 'dropcall', fn)
            if isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords:
                add(n, f'({seg(n.args[0])})', 'unwrap', fn)
            if isinstance(n.func, ast.Name) and n.func.id.startswith('_') and len(n.args) >= 1:
                add(n, f'({seg(n.args[0])})', 'unwrap', fn)
            if len(n.args) >= 2:
                add(n, f'{seg(n.func)}({", ".join([args[1], args[0]] + args[2:] + kws)})', 'swapargs', fn)
        if isinstance(n, (ast.AugAssign,)) and fn:
            add(n, 'pass', 'dropstmt', fn)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn:
            add(n, 'pass', 'dropstmt', fn)
        if isinstance(n, ast.Assign) and fn:
            add(n.value, f'(None)', 'none', fn) if not isinstance(n.value, ast.Constant) else None
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    visit(tree, '')
    seen, res = set(), []
    for m in out:
        k = (m['s'], m['e'], m['new'])
        if k in seen or m['new'] == m['old']:
            continue
        seen.add(k)
        new = b[:m['s']] + m['new'].encode() + b[m['e']:]
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        res.append(m)
    return res


ORIG = {}


def apply(m, tree):
    b = ORIG.get(m['file'])
    if b is None:
        b = ORIG[m['file']] = open('/repo/' + m['file'], 'rb').read()
    assert b[m['s']:m['e']].decode() == m['old']
    open(f'{tree}/{m["file"]}', 'wb').write(b[:m['s']] + m['new'].encode() + b[m['e']:])


def tree(base, k):
    t = f'{base}/t{k}'
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    return t


def run_all(items, work, n=8):
    q = queue.Queue()
    for x in items:
        q.put(x)
    base = tempfile.mkdtemp(prefix='mut_', dir='/dev/shm')

    def loop(k):
        t = tree(base, k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(m, t)
            work(m, t, k)
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=t)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(base)


def main():
    mode = sys.argv[1]
    if mode == 'list':
        fs = FILES
        with open(sys.argv[2], 'w') as f:
            for p in fs:
                for m in mutants(p):
                    f.write(json.dumps(m) + '\n')
        return
    items = [json.loads(l) for l in open(sys.argv[2])]
    lock = threading.Lock()
    n = [0]
    out = open(sys.argv[3], 'a')
    done = {(d['file'], d['s'], d['e'], d['new']) for d in map(json.loads, open(sys.argv[3]))}
    items = [m for m in items if (m['file'], m['s'], m['e'], m['new']) not in done]

    def tests(m, t, k):
        env = dict(os.environ, PYTHONPATH=t + '/pysrc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   HYPOTHESIS_STORAGE_DIRECTORY=t + '/.hyp')
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--hypothesis-seed=0',
                                'tests/'], cwd=t, env=env, capture_output=True, timeout=200).returncode
        except subprocess.TimeoutExpired:
            r = 99
        with lock:
            n[0] += 1
            m['tests'] = r
            out.write(json.dumps(m) + '\n')
            out.flush()
            if n[0] % 50 == 0:
                print(n[0], len(items), flush=True)

    props = sys.argv[4:] or [f'C{i:02}' for i in range(1, 19)]
    runs = {'C14': 40, 'C15': 150, 'C13': 250, 'C12': 300, 'C10': 300}

    def checks(m, t, k):
        seen = {}
        for p in props:
            env = dict(os.environ, SIM_REPO=t, SIM_OUT=t + '/o', VERIF_SEED='1', VERIF_TIER='quick', SIM_WORKERS='1')
            r = subprocess.run([PY, '-B', 'check.py', p, '--runs', str(runs.get(p, 600))], cwd=VERIF, env=env,
                               capture_output=True, text=True)
            if r.returncode:
                seen[p] = (r.stdout.splitlines()[-2:] or ['?'])[0][:200] if r.returncode == 1 else f'rc {r.returncode} ' + (r.stdout + r.stderr)[-200:]
                if r.returncode == 1:
                    break
        with lock:
            n[0] += 1
            m['seen'] = seen
            out.write(json.dumps(m) + '\n')
            out.flush()
            print(n[0], len(items), m['fn'], m['line'], m['what'], list(seen), flush=True)

    run_all(items, tests if mode == 'tests' else checks)


main()
