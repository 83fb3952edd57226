"""Developer aid: mutation analysis of the specifications.
  mutate.py map OUT                     which specification executes which statement of autosar (OUT: json lines)
  mutate.py run MAP SECONDS LOG [SEED]  mutate statements at random in scratch copies; those that pass the tests go to the specifications that execute them
Nothing of this is part of a check."""
import ast, json, os, random, re, shutil, subprocess, sys, time, multiprocessing, importlib, tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ['P%02d' % i for i in range(1, 23)]


def paths(src):
    sys.path[:0] = [here, src, '/opt/venv/lib/python3.12/site-packages']
    sys.setrecursionlimit(20000)


def map_one(job):
    prop, i = job
    from vf import engine, spec as S
    seen = set()
    old = engine.Engine.exec_stmt

    def exec_stmt(self, s, fr):
        name = fr.globals.get('__name__', '')
        if name.startswith('autosar'):
            seen.add((name, s.lineno))
        return old(self, s, fr)
    engine.Engine.exec_stmt = exec_stmt
    sp = importlib.import_module('vfspec.' + prop.lower()).specs()[i]
    if sp.opts.get('concrete') or sp.opts.get('bounded'):
        return prop, sp.name, []
    try:
        t = time.time()
        S.verify(sp, None, 60)
        t = time.time() - t
    except BaseException:
        t = 99
    engine.Engine.exec_stmt = old
    return prop, sp.name, sorted('%s:%d' % x for x in seen), round(t, 2)


def make_map(out):
    paths('/repo/src')
    jobs = []
    for p in PROPS:
        jobs += [(p, i) for i in range(len(importlib.import_module('vfspec.' + p.lower()).specs()))]
    with multiprocessing.get_context('fork').Pool(7, maxtasksperchild=20) as pool, open(out, 'w') as f:
        for r in pool.imap_unordered(map_one, jobs, chunksize=4):
            if r[2]:
                f.write(json.dumps(r) + '\n')


def mutants(text, lines):
    """(offset, end, new text, what) of every mutation of the statements at these lines."""
    tree = ast.parse(text)
    starts = [0]
    for l in text.splitlines(True):
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((a, b, new, what))
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for s in ast.walk(fn):
            if not isinstance(s, ast.stmt) or s is fn or s.lineno not in lines:
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                put(s, 'pass', 'drop')
            if isinstance(s, (ast.Continue, ast.Break)):
                put(s, 'break' if isinstance(s, ast.Continue) else 'continue', 'jump')
                put(s, 'pass', 'drop')
            if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                put(s, 'return None', 'none')
            if isinstance(s, (ast.If, ast.While)):
                t = ast.unparse(s.test)
                put(s.test, 'not (%s)' % t, 'negate')
                put(s.test, 'True' , 'always')
                put(s.test, 'False', 'never')
            heads = []
            for name, v in ast.iter_fields(s):
                if name in ('body', 'orelse', 'finalbody', 'handlers'):
                    continue
                heads += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST)]
            for h in heads:
                for n in ast.walk(h):
                    if isinstance(n, ast.Compare) and len(n.ops) == 1:
                        l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
                        sw = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
                        put(n, '%s %s %s' % (l, sw[type(n.ops[0])], r), 'compare')
                        if isinstance(n.ops[0], ast.IsNot):
                            put(n, '(True if %s else False)' % l, 'truth')
                        if isinstance(n.ops[0], ast.Is):
                            put(n, '(not %s)' % l, 'truth')
                    elif isinstance(n, ast.BoolOp):
                        for v in n.values:
                            rest = [x for x in n.values if x is not v]
                            put(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % ast.unparse(x) for x in rest), 'operand')
                        put(n, '(%s)' % (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % ast.unparse(x) for x in n.values), 'andor')
                    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                        put(n, '(True if %s else False)' % ast.unparse(n.operand), 'not')
                    elif isinstance(n, ast.IfExp):
                        put(n, '(%s)' % ast.unparse(n.body), 'then')
                        put(n, '(%s)' % ast.unparse(n.orelse), 'else')
                    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                        put(n, repr(not n.value), 'bool')
                    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                        put(n, repr(n.value + 1), 'int')
                        if n.value > 0:
                            put(n, repr(n.value - 1), 'int')
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and not isinstance(s, ast.Raise) and not isinstance(s, ast.Expr):
                        put(n, repr(n.value + 'X'), 'str')
                    elif isinstance(n, ast.BinOp):
                        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '+'}
                        if type(n.op) in sw:
                            put(n, '(%s %s %s)' % (ast.unparse(n.left), sw[type(n.op)], ast.unparse(n.right)), 'arith')
                    elif isinstance(n, ast.Call):
                        f = ast.unparse(n.func)
                        args = [ast.unparse(x) for x in n.args]
                        kws = [(k.arg + '=' if k.arg else '**') + ast.unparse(k.value) for k in n.keywords]
                        for i in range(len(args) - 1):
                            if args[i] != args[i + 1] and f not in ('isinstance', 'issubclass'):
                                sw = args[:i] + [args[i + 1], args[i]] + args[i + 2:]
                                put(n, '%s(%s)' % (f, ', '.join(sw + kws)), 'swap')
                        for i in range(len(kws)):
                            put(n, '%s(%s)' % (f, ', '.join(args + kws[:i] + kws[i + 1:])), 'kwarg')
                        if f.endswith('.append') and len(args) == 1:
                            put(n, '%s.insert(0, %s)' % (f[:-7], args[0]), 'front')
                        if f in ('sorted', 'reversed', 'list', 'set', 'tuple') and len(args) == 1:
                            put(n, 'list(%s)' % args[0], 'order')
                        if f == 'isinstance' and isinstance(n.args[1], ast.Tuple):
                            for x in n.args[1].elts:
                                put(n, 'isinstance(%s, (%s,))' % (args[0], ', '.join(ast.unparse(y) for y in n.args[1].elts if y is not x)), 'kind')
                        if isinstance(n.func, ast.Attribute) and n.func.attr in ('upper', 'lower', 'strip') and not args:
                            put(n, ast.unparse(n.func.value), 'identity')
                    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                        put(n, ast.unparse(n.value), 'slice')
                    elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(n.ctx if hasattr(n, 'ctx') else ast.Load(), ast.Load) and len(n.elts) > 1:
                        for x in n.elts:
                            put(n, '%s' % ast.unparse(type(n)(elts=[y for y in n.elts if y is not x], **({'ctx': ast.Load()} if hasattr(n, 'ctx') else {}))), 'elts')
    return [(a, b, new, what) for a, b, new, what in out if raw[a:b].decode().replace('\n', ' ') != new]


def check_specs(src, jobs):
    paths(src)
    from vf import spec as S
    tables = {}
    n = 0
    for prop, name in jobs:
        if prop not in tables:
            tables[prop] = {sp.name: sp for sp in importlib.import_module('vfspec.' + prop.lower()).specs()}
        sp = tables[prop].get(name)
        if sp is None:
            print(json.dumps(['gone', prop, name]))
            return
        try:
            r = S.verify(sp, None, 60)
        except BaseException as ex:
            print(json.dumps(['crash', prop, name, repr(ex)[:100]]))
            return
        n += 1
        if r.status != 'proved':
            bad = [o.label for o in r.obligations if o.status != 'proved'][:1]
            print(json.dumps([r.status, prop, name, (bad or [r.reason])[0][:120]]))
            return
    print(json.dumps(['survived', n]))


def worker(k, mapping, until, log, seed):
    rng = random.Random('%s %s' % (seed, k))
    d = tempfile.mkdtemp(prefix='mutant')
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
    sources, pool = {}, []
    for key in mapping:
        mod = key.rsplit(':', 1)[0]
        sources.setdefault(mod, set()).add(int(key.rsplit(':', 1)[1]))
    texts = {}
    for mod, lines in sources.items():
        p = '/src/' + mod.replace('.', '/')
        p = p + '/__init__.py' if os.path.isdir('/repo' + p) else p + '.py'
        texts[mod] = (p, open('/repo' + p).read())
        for m in mutants(texts[mod][1], lines):
            if not re.search(os.environ.get('MUTATE', '.'), mod):
                continue
            pool.append((mod, m))
    env = dict(os.environ, PYTHONPATH=d + '/repo/src', PYTHONDONTWRITEBYTECODE='1')
    try:
        while time.time() < until:
            mod, (a, b, new, what) = rng.choice(pool)
            p, text = texts[mod]
            raw = text.encode()
            line = raw[:a].count(b'\n') + 1
            jobs = list(mapping.get('%s:%d' % (mod, line), ()))
            if not jobs or (what == 'truth' and rng.random() < 0.9) or re.match(r'child_elements.skip|self._report_unproc|self._read_multi_language_ref|super..\.__init', raw[a:b].decode()):
                continue
            src = raw[:a] + new.encode() + raw[b:]
            try:
                compile(src, p, 'exec')
            except SyntaxError:
                continue
            with open(d + '/repo' + p, 'wb') as f:
                f.write(src)
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=d + '/repo', env=env, capture_output=True, timeout=60).returncode
            except subprocess.TimeoutExpired:
                r = 1
            if r == 0:
                rng.shuffle(jobs)
                jobs.sort(key=lambda j: j[2])
                cheap = jobs[:12] + rng.sample(jobs[12:], min(24, len(jobs) - 12)) if len(jobs) > 12 else jobs
                seen = {j[0] for j in cheap}
                for j in jobs:      # at least one of each property
                    if j[0] not in seen:
                        seen.add(j[0])
                        cheap.append(j)
                try:
                    q = subprocess.run(['python3-vt', __file__, '--check', d + '/repo/src'], input=json.dumps([j[:2] for j in cheap]), capture_output=True, text=True, timeout=240, env=dict(os.environ, VERIF_REPO=d + '/repo'))
                    res = json.loads(q.stdout.strip().splitlines()[-1]) if q.stdout.strip() else ['nothing', q.stderr[-200:]]
                except subprocess.TimeoutExpired:
                    res = ['slow']
                with open(log, 'a') as f:
                    f.write(json.dumps(dict(where='%s:%d' % (mod, line), what=what, old=raw[a:b].decode()[:160], new=new[:160], result=res, specs=len(jobs))) + '\n')
            with open(d + '/repo' + p, 'w') as f:
                f.write(text)
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == 'map':
        make_map(sys.argv[2])
    elif sys.argv[1] == '--check':
        check_specs(sys.argv[2], json.load(sys.stdin))
    else:
        mapping = {}
        for l in open(sys.argv[2]):
            prop, name, lines, t = json.loads(l)
            for x in lines:
                mapping.setdefault(x, []).append((prop, name, t))
        until = time.time() + float(sys.argv[3])
        ps = [multiprocessing.Process(target=worker, args=(k, mapping, until, sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else '1')) for k in range(int(os.environ.get('WORKERS', '7')))]
        for p in ps:
            p.start()
        for p in ps:
            p.join()


if __name__ == '__main__':
    main()
