"""Check driver: proves the specifications of one property against /repo's current source, replays
refuted obligations on the real code, cross-checks by executing the specifications on sampled
inputs, writes the evidence file."""
import hashlib
import importlib
import glob
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
FINDINGS = os.path.join(ROOT, 'known-findings.json')


class Child:
    """Interpreter of the repository running specifications natively."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.p = subprocess.Popen([PY, os.path.join(ROOT, 'vfspec', 'child.py'), ROOT, os.path.join(REPO, 'src')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/tmp')

    def ask(self, job, seconds=60):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(job) + '\n').encode())
            self.p.stdin.flush()
            end = time.time() + seconds
            fd = self.p.stdout.fileno()
            buf = b''
            while True:
                i = buf.find(b'@@')
                if i >= 0 and buf.find(b'\n', i) >= 0:
                    return json.loads(buf[i + 2:buf.find(b'\n', i)])
                r, _, _ = select.select([fd], [], [], max(0.0, end - time.time()))
                if not r:
                    self.p.kill()
                    self.p.wait()
                    self.p = None
                    return {'status': 'hang'}
                data = os.read(fd, 1 << 16)
                if not data:
                    self.p = None
                    return {'status': 'died'}
                buf += data
        except (BrokenPipeError, OSError):
            self.p = None
            return {'status': 'died'}


child = Child()


def load(prop):
    m = importlib.import_module('vfspec.' + prop.lower())
    return m


def one(task):
    """Verify one specification (in a worker process)."""
    prop, name, tier, seed, begun = task
    sys.setrecursionlimit(30000)
    t0 = time.time()
    out = dict(spec=name, prop=prop, status=None, obligations=[], violations=[], bound=None, reason='', sampled=0, log=[])
    try:
        spec = {s.name: s for s in load(prop).specs()}[name]
    except Exception:
        out['status'] = 'crash'
        out['reason'] = traceback.format_exc()[-600:]
        return out
    quick = tier != 'thorough'
    secs = spec.opts.get('seconds', 40) if quick else 4 * spec.opts.get('seconds', 60)
    searching = 12 if quick else 60
    if quick and t0 - begun > 240:
        # many specifications take long: shares of the time that is left
        secs, searching = (10, 5) if t0 - begun < 500 else (3, 2)
    out['title'] = spec.title or spec.name
    refuted = []
    if not spec.opts.get('concrete'):
        from . import spec as S
        plan = [None] if not spec.opts.get('bounded') else []
        plan += [1 if quick else 2] if not spec.opts.get('hint') else []
        for bound in plan:
            try:
                r = S.verify(spec, bound, secs)
            except Exception:
                out['log'].append('verifier crash (bound=%s): %s' % (bound, traceback.format_exc()[-700:]))
                out['status'] = 'crash'
                continue
            out['status'], out['reason'], out['bound'], out['stats'] = r.status, r.reason[:300], bound, r.stats
            out['obligations'] = [(o.label, o.where[:160], o.status, getattr(o, 'backend', '')) for o in r.obligations]
            out['contracts'] = getattr(r, 'contract_uses', {})
            out['functions'] = sorted(getattr(r, 'inlined', {}))
            if r.status not in ('proved', 'refuted'):
                out['log'].append('bound=%s: %s %s' % (bound, r.status, r.reason[:200]))
            refuted += [o for o in r.obligations if o.status == 'refuted']
            if r.status in ('proved', 'refuted'):
                break
    else:
        out['status'], out['bound'] = 'executed', spec.opts.get('bounded', 'all inputs enumerated')
    # replay on the real code
    seen = set()
    for o in refuted:
        if o.recipe is None:
            a = {'status': 'norecipe', 'detail': o.detail}
        else:
            a = child.ask(dict(prop=prop, spec=name, mode='replay', recipe=o.recipe))
        if a['status'] in ('fail', 'error', 'hang'):
            k = (a['status'], a.get('detail', '')[:80])
            if k in seen:
                continue
            seen.add(k)
            out['violations'].append(dict(kind='replayed', obligation=o.label, where=o.where, recipe=a.get('recipe', o.recipe),
                                          observed=a.get('detail', a['status']), trace=a.get('trace', []), diffs=getattr(o, 'diffs', [])))
        else:
            out['log'].append('refuted but not reproduced: %s @ %s (%s %s)' % (o.label, o.where[:120], a['status'], a.get('detail', '')[:120]))
            if spec.opts.get('hint'):
                # a proof hint (loop invariant) that does not fit the code is no violation
                out['status'], out['reason'] = 'not proved', 'invariant does not fit: ' + o.label
                continue
            out.setdefault('unreplayed', []).append(dict(kind='unreplayed', obligation=o.label, where=o.where, recipe=o.recipe,
                                                        observed='%s %s' % (a['status'], a.get('detail', '')), diffs=getattr(o, 'diffs', [])))
    if out.get('unreplayed') and not out['violations']:
        # search for a witness with the constants of the functions the specification runs
        a = child.ask(dict(prop=prop, spec=name, mode='sample', n=4000, seed=seed, secs=min(12, searching), constants=constants_of(out.get('functions', ()))), seconds=60)
        if a['status'] == 'done':
            for b in a['bad']:
                out['violations'].append(dict(kind='sampled', obligation=b['detail'] if b['status'] == 'fail' else 'no exception',
                                              where='', recipe=b['recipe'], observed=b['detail'], trace=b['trace'], diffs=[]))
                seen.add((b['status'], b['detail'][:80]))
    # the same specification, executed on sampled inputs
    n = spec.opts.get('samples', 60)
    if out['status'] not in ('proved',) or out['bound'] is not None:
        n *= 8
    if not quick:
        n *= 10
    if spec.opts.get('concrete'):
        n = 1 if not spec.inputs else n
    a = None
    if spec.inputs and not spec.opts.get('concrete') and not out['violations'] and (out['status'] != 'proved' or out['bound'] is not None and not spec.opts.get('bounded')):
        # sampling stands in for the proof: the constants of the functions which the specification runs, and inputs of the sizes these speak of
        consts = constants_of(out.get('functions', ())) or [16]
        a = child.ask(dict(prop=prop, spec=name, mode='sample', n=max(n, 1500), seed=seed, secs=searching, constants=consts), seconds=120)
        if a['status'] == 'hang' or a['status'] == 'done' and not a['bad']:
            a = None
    if a is None:
        a = child.ask(dict(prop=prop, spec=name, mode='sample', n=n, seed=seed, secs=min(searching, 6 if quick else 60)), seconds=120)
    out['sampled'] = a.get('ok', 0)
    out['skips'] = a.get('skips', {})
    if a['status'] == 'done':
        for b in a['bad']:
            k = (b['status'], b['detail'][:80])
            if k in seen:
                continue
            seen.add(k)
            out['violations'].append(dict(kind='sampled', obligation=b['detail'] if b['status'] == 'fail' else 'no exception',
                                          where='', recipe=b['recipe'], observed=b['detail'], trace=b['trace'], diffs=[]))
            if out['status'] == 'proved':
                out['log'].append('cross-check: sampled violation of a proved specification')
    elif a['status'] == 'hang':
        out['violations'].append(dict(kind='sampled', obligation='termination', where='', recipe=None, observed='no result within 120 s', trace=[], diffs=[]))
    else:
        out['log'].append('sampling: %s %s' % (a['status'], a.get('detail', '')[-300:]))
    out['wall'] = round(time.time() - t0, 2)
    return out


def constants_of(functions):
    """The literals in the named functions of the library, and the module and class constants which they name."""
    import ast
    import glob
    names = {'.'.join(f.split('.')[-2:]) for f in functions if '<locals>' not in f}
    src = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')
    numbers, texts = {}, {}

    def add(c):
        if type(c) is str and len(c) <= 40:
            texts[c] = 1
        elif type(c) in (int, float):
            numbers[c] = 1
    found, shared = [], {}
    for path in glob.glob(os.path.join(src, 'autosar', '**', '*.py'), recursive=True):
        tree = ast.parse(open(path, encoding='utf-8').read())
        for scope in [tree] + [n for n in tree.body if isinstance(n, ast.ClassDef)]:
            for n in scope.body:
                if isinstance(n, ast.FunctionDef):
                    if (n.name if scope is tree else scope.name + '.' + n.name) in names:
                        found.append(n)
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, (ast.Constant, ast.UnaryOp, ast.BinOp)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Name):
                            shared.setdefault(t.id, []).append(n.value)
    for n in found:
        doc = [x.value for x in ast.walk(n) if isinstance(x, ast.Expr)]
        nodes = list(ast.walk(n))
        for x in list(nodes):
            for v in shared.get(getattr(x, 'id', None) or getattr(x, 'attr', None), ()):
                nodes.extend(ast.walk(v))
        cs = [x.value for x in nodes if isinstance(x, ast.Constant) and not any(x is d for d in doc)]
        table = len(cs) > 120
        for c in cs:
            if not (table and type(c) is str):
                add(c)
    return [c for c in list(numbers) + list(texts)[:300] if c == c and c not in (float('inf'), float('-inf'))]


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    specs = mod.specs()
    if only:
        import re
        specs = [s for s in specs if re.search(only, s.name)]
    findings = json.load(open(FINDINGS)) if os.path.exists(FINDINGS) else []
    known = {f['spec']: f for f in findings if f.get('status') != 'fixed' and f['property'] == prop}
    tasks = [(prop, s.name, tier, seed, t0) for s in specs]
    limit = 840 if tier == 'quick' else 6 * 3600
    results = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 2), maxtasksperchild=12) as pool:
        # the slowest first
        order = sorted(tasks, key=lambda t: -({s.name: s for s in specs}[t[1]].opts.get('cost', 1)))
        hs = [(t, pool.apply_async(one, (t,))) for t in order]
        for t, h in hs:
            try:
                results.append(h.get(max(1, limit - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                results.append(dict(spec=t[1], prop=prop, status='timeout', obligations=[], violations=[], bound=None,
                                    reason='time limit of the check', sampled=0, log=['no result in time']))
            except Exception as ex:
                results.append(dict(spec=t[1], prop=prop, status='crash', obligations=[], violations=[], bound=None,
                                    reason=str(ex)[:200], sampled=0, log=[traceback.format_exc()[-300:]]))
        pool.terminate()
    extra = getattr(mod, 'extra', None)
    if extra is not None and not only:
        results += extra(tier, seed)
    return report(prop, tier, seed, mod, results, known, t0)


def report(prop, tier, seed, mod, results, known, t0):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
    for old in glob.glob(os.path.join(ROOT, 'replay', prop + '-*.json')):
        os.remove(old)
    nobl = sum(len(r['obligations']) for r in results)
    ndis = sum(1 for r in results if r['bound'] is None for o in r['obligations'] if o[2] == 'discharged')
    nbd = sum(1 for r in results if r['bound'] is not None for o in r['obligations'] if o[2] == 'discharged')
    bad = 0
    lines = []
    for r in results:
        vs = list(r['violations'])
        if not vs and r.get('unreplayed'):
            vs = [dict(v, kind='unreplayed') for v in r['unreplayed'][:1]]
        kf = known.get(r['spec'])
        if kf is not None:
            if vs:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
            continue
        if vs:
            v = vs[0]
            path = os.path.join(ROOT, 'replay', '%s-%s.json' % (prop, hashlib.sha1(r['spec'].encode()).hexdigest()[:10]))
            json.dump(dict(property=prop, spec=r['spec'], violations=vs, verifier=r['log'], obligations=r['obligations'],
                           how='python3-vt /verif/check.py --replay ' + path), open(path, 'w'), indent=1)
            bad += len(vs)
            for v in vs[:3]:
                print('  %s: %s: %s %s' % (r['spec'], v['obligation'], str(v['observed'])[:200], ' '.join(v.get('trace') or [])[:300]))
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if v['kind'] == 'unreplayed' else ''))
    by = {}
    for r in results:
        k = r['status'] if r['bound'] is None else '%s (bounded %s)' % (r['status'], r['bound'])
        by.setdefault(k, []).append(r['spec'])
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    contracts = sorted({f for r in results for f in r.get('contracts', {})})
    backend = {}
    for r in results:
        for o in r['obligations']:
            if o[2] == 'discharged':
                k = o[3] if r['bound'] is None else o[3] + ' (bounded)'
                backend[k] = backend.get(k, 0) + 1
    level = getattr(mod, 'LEVEL', 'proof')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=bad,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
              coverage=dict(obligations=nobl, discharged=ndis, discharged_bounded_only=nbd,
                            checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
                            trusted_base=TRUSTED, specifications=len(results),
                            outcome={k: len(v) for k, v in by.items()},
                            not_proved_unbounded={k: v[:60] for k, v in by.items() if k != 'proved'},
                            functions_executed_symbolically=len(funcs), functions=funcs,
                            contracts_assumed_at_calls=contracts, backends=backend,
                            solver_seconds=round(sum(r.get('stats', {}).get('z3_seconds', 0) for r in results), 2),
                            solver_queries=sum(r.get('stats', {}).get('z3_queries', 0) for r in results),
                            crosscheck_executions=sum(r['sampled'] for r in results),
                            samples=[dict(spec=r['spec'], obligations=r['obligations'][:4]) for r in results[:3]],
                            notes=[r['spec'] + ': ' + x for r in results for x in r['log']][:80]))
    ev['coverage'].update(getattr(mod, 'COVERAGE', {}))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if nobl == 0 and not any(r['sampled'] for r in results):
        print('no obligation generated: the check examined nothing')
        path = os.path.join(ROOT, 'replay', prop + '-vacuous.json')
        json.dump(dict(property=prop, results=results), open(path, 'w'), default=str)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        bad = 1
    for x in lines:
        print(x)
    print('%s: %d specifications, %d obligations, %d discharged, %d bounded; %s; %d executions; %.1fs' % (
        prop, len(results), nobl, ndis, nbd, ', '.join('%s %d' % (k, len(v)) for k, v in sorted(by.items(), key=str)),
        ev['coverage']['crosscheck_executions'], time.time() - t0))
    return 1 if any(x.startswith('VIOLATION') for x in lines) else 0


COMMON = [
    'machine integers and floats: Python ints are mathematical; conversions int->float are exact (|i| <= 2**53); NaN is outside the domain',
    'the decimal module: Decimal(str(x)) is the exact value of the shortest decimal text of x, precision 28',
    'lxml: parsing the text written for a well-formed tree gives back that tree (element order, attributes, text and tail); the writer primitives are under contract and checked against lxml by P07',
    'CPython semantics of the constructs in the verified functions as implemented by the symbolic interpreter (vf/engine.py)',
    'texts contain only characters XML 1.0 can represent',
]
TRUSTED = ['z3 (python3-vt z3-solver)', '/verif/vf (verification-condition generator, BDD path conditions)', 'CPython 3.12', 'lxml/libxml2', 'frozen input domains vfspec/domains.py']


def replay(path):
    d = json.load(open(path))
    rc = 0
    for v in d.get('violations', []):
        if v.get('recipe') is None:
            continue
        a = child.ask(dict(prop=d['property'], spec=d['spec'], mode='replay', recipe=v['recipe']))
        print(json.dumps(a, indent=1))
        rc = 1 if a['status'] in ('fail', 'error') else rc
    return rc


def selftest():
    """Everything loads, the interpreter of the repository answers."""
    from . import spec, engine, xmlmodel, builtin_models, symgen    # noqa: F401
    import z3
    x = z3.Int('x')
    s = z3.Solver()
    s.add(x > 0, x < 0)
    assert s.check() == z3.unsat
    for f in sorted(glob.glob(os.path.join(ROOT, 'vfspec', 'p[0-9][0-9].py'))):
        prop = os.path.basename(f)[:-3].upper()
        print(prop, len(load(prop).specs()), 'specifications')
    print('interpreter of the repository:', child.ask(dict(prop='P01', spec='', mode='ping')).get('status'))
    return 0
