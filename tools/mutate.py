"""Automatic mutation campaign: python3 tools/mutate.py list | run N SEED OUT [file-substring]
Small AST mutations of the library (comparison, arithmetic, constant, condition, argument, dropped statement), each judged by the
checks that concern the changed file; survivors are for a human to read (equivalent, or a hole in a check)."""
import ast, json, os, random, shutil, subprocess, sys, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = '/repo/run_time_assurance'
SCR = '/tmp/mutc'
CHECKS = {
    'controller.py': 'P15 P20 P07 P12 P22', 'constraint.py': 'P19 P21 P10 P07', 'rta/base.py': 'P01 P02 P14 P11 P13 P16 P12',
    'rta/asif.py': 'P06 P07 P10 P08 P21 P01 P12 P13 P16', 'rta/simplex.py': 'P03 P04 P05 P13 P12 P16',
    'zoo/cwh/docking_3d.py': 'P20 P19 P18 P09', 'zoo/cwh/docking_2d.py': 'P20 P19 P18 P09', 'zoo/cwh/random_sample_testing.py': 'P24 P23',
    'zoo/cwh/inspection_1v1.py': 'P20 P22 P19 P17 P18 P09 P12', 'zoo/cwh/inspection_3d.py': 'P20 P19 P17 P09 P18', 'zoo/cwh/utils.py': 'P19 P20',
    'zoo/integrators/integrator_1d.py': 'P20 P19 P18 P09', 'state.py': 'P25 P20', 'utils/sample_testing.py': 'P23 P24', 'utils/utils.py': 'P25 P19 P14 P20',
}
SW = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BO = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: None, ast.BitOr: None}


def mutants(path):
    src = open(path).read(); lines = src.split('\n'); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    B = src.encode()
    sp = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: B[slice(*sp(n))].decode()
    out = []
    def add(n, new, kind, fn):
        a, b = sp(n)
        out.append((path, a, b, new, kind, fn, n.lineno, txt(n)[:70]))
    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + '.' + n.name
            body = n.body
            for d in (n.args.defaults + [k for k in n.args.kw_defaults if k] if isinstance(n, ast.FunctionDef) else []): walk(d, fn)
            for c in body: walk(c, fn)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.AnnAssign):
            if n.value: walk(n.value, fn)
            return
        if isinstance(n, ast.Raise): return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f'{txt(n.left)} {SW[type(n.ops[0])]} {txt(n.comparators[0])}', 'cmp', fn)
        if isinstance(n, ast.BinOp) and BO.get(type(n.op)):
            add(n, f'({txt(n.left)}) {BO[type(n.op)]} ({txt(n.right)})', 'arith', fn)
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(txt(v) for v in n.values) + ')', 'bool', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
            add(n, f'({txt(n.operand)})', 'neg', fn)
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if isinstance(v, bool): add(n, str(not v), 'const', fn)
            elif isinstance(v, int): add(n, str(v + 1), 'const', fn)
            elif isinstance(v, float): add(n, repr(v * 1.1 if v else 0.1), 'const', fn)
        if isinstance(n, ast.Call):
            f = txt(n.func)
            for a, b in (('minimum', 'maximum'), ('min', 'max'), ('argmin', 'argmax'), ('sin', 'cos'), ('any', 'all')):
                for x, y in ((a, b), (b, a)):
                    if f.split('.')[-1] == x: add(n.func, f[:len(f) - len(x)] + y, 'call', fn)
            if f.split('.')[-1] in ('copy', 'deepcopy', 'array') and len(n.args) == 1: add(n, f'({txt(n.args[0])})', 'nocopy', fn)
            if f.split('.')[-1] == 'copy' and not n.args and isinstance(n.func, ast.Attribute): add(n, txt(n.func.value), 'nocopy', fn)
            for k in n.keywords:
                if k.arg: # drop a keyword argument
                    ks = [x for x in n.keywords if x is not k]
                    add(n, f'{f}(' + ', '.join([txt(x) for x in n.args] + [(x.arg + '=' if x.arg else '**') + txt(x.value) for x in ks]) + ')', 'dropkw', fn)
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                xs = [txt(x) for x in n.args]; xs[0], xs[1] = xs[1], xs[0]
                if 'isinstance' not in f: add(n, f'{f}(' + ', '.join(xs + [(x.arg + '=' if x.arg else '**') + txt(x.value) for x in n.keywords]) + ')', 'swapargs', fn)
        if isinstance(n, ast.IfExp): add(n, f'({txt(n.orelse)})', 'ifexp', fn); add(n, f'({txt(n.body)})', 'ifexp', fn)
        if isinstance(n, ast.If): add(n.test, f'not ({txt(n.test)})', 'cond', fn)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn.count('.') >= 1:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign): add(n, 'pass', 'drop', fn)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, 'pass', 'drop', fn)
        for c in ast.iter_child_nodes(n): walk(c, fn)
    for n in ast.parse(src).body: walk(n, '')
    return out


def judge(i, m, outf):
    path, a, b, new, kind, fn, line, old = m
    rel = os.path.relpath(path, PK)
    w = f'{SCR}/m{i}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(SCR, exist_ok=True)
    subprocess.run(f'cp -a /repo {w}', shell=True)
    p = f'{w}/run_time_assurance/{rel}'; s = open(p, 'rb').read()
    s = s[:a] + new.encode() + s[b:]
    open(p, 'wb').write(s)
    res = []
    try:
        try: compile(s.decode(), p, 'exec')
        except SyntaxError: return
        v = f'{SCR}/v{i}'
        subprocess.run(f'mkdir -p {v} && cp -a {V}/run.sh {V}/vp {V}/known_findings.json {v}/', shell=True)
        for c in (['P25'] if 'State.' in fn else []) + CHECKS[rel].split():
            try:
                r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {w} /repo && cd {v} && VERIF_SEED=1 bash run.sh {c} quick'], capture_output=True, text=True, timeout=1200)
                what = [l.strip() for l in r.stdout.splitlines() if l.startswith('   ')][:1]
                rc = r.returncode
                if rc == 2: what = [r.stdout[-300:]]
            except subprocess.TimeoutExpired:
                rc, what = 9, []
            res.append((c, rc, what))
            if rc == 1: break
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(f'{SCR}/v{i}', ignore_errors=True)
    st = 'KILLED' if res and res[-1][1] == 1 else 'SURVIVED'
    with open(outf, 'a') as f:
        f.write(json.dumps({'st': st, 'where': f'{rel}:{line} {fn}', 'kind': kind, 'old': old, 'new': new[:120], 'by': [(c, rc) for c, rc, _ in res], 'what': (res[-1][2] or [''])[0][:160]}) + '\n')


if __name__ == '__main__':
    M = [m for f in sorted(glob.glob(PK + '/**/*.py', recursive=True)) if os.path.relpath(f, PK) in CHECKS for m in mutants(f)]
    if sys.argv[1] == 'list':
        from collections import Counter
        print(len(M), Counter(os.path.relpath(m[0], PK) for m in M), Counter(m[4] for m in M))
    else:
        n, seed, outf = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        sub = sys.argv[5] if len(sys.argv) > 5 else ''
        M = [m for m in M if sub in m[0] and not (m[4] == 'drop' and m[5].endswith('__init__'))]
        rng = random.Random(seed)
        # one per function first, so that every function is visited before any is visited twice
        by = {}
        for m in M: by.setdefault((m[0], m[5]), []).append(m)
        for v in by.values(): rng.shuffle(v)
        order = []
        while by:
            ks = list(by); rng.shuffle(ks)
            for k in ks:
                order.append(by[k].pop())
                if not by[k]: del by[k]
        start = int(os.environ.get('START', '0'))
        with cf.ThreadPoolExecutor(int(os.environ.get('N', '2'))) as ex:
            list(ex.map(lambda t: judge(t[0], t[1], outf), list(enumerate(order))[start:start + n]))
