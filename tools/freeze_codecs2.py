"""One-off: write vfspec/codecs.py: (class, writer method, reader method, takes_tag, tags)."""
import ast, sys, re, collections, pprint
sys.path[:0] = ['/repo/src', '/opt/venv/lib/python3.12/site-packages']
import autosar.xml.writer as w, autosar.xml.reader as r, autosar.xml.element as el, autosar.xml.reference as rf
W = ast.parse(open('/repo/src/autosar/xml/writer.py').read())
R = ast.parse(open('/repo/src/autosar/xml/reader.py').read())
def cls(tree, n):
    return next(c for c in tree.body if isinstance(c, ast.ClassDef) and c.name == n)
def classes():
    out = {}
    for m in (rf, el):
        for n, c in vars(m).items():
            if isinstance(c, type) and c.__module__ == m.__name__:
                out[n] = c
    return out
C = classes()
wr = {}
for f in cls(W, 'Writer').body:
    if isinstance(f, ast.FunctionDef) and f.name.startswith('_write_') and not f.name.endswith('_group') and len(f.args.args) > 1:
        k = None
        for s in f.body:
            if isinstance(s, ast.Assert) and isinstance(s.test, ast.Call) and getattr(s.test.func, 'id', '') == 'isinstance' and isinstance(s.test.args[1], ast.Attribute) and getattr(s.test.args[0], 'id', '') == f.args.args[1].arg:
                k = s.test.args[1].attr
                break
        if k is None and f.args.args[1].annotation is not None and isinstance(f.args.args[1].annotation, ast.Attribute):
            k = f.args.args[1].annotation.attr
        tag = None
        for s in f.body:
            if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == 'tag' and isinstance(s.value, ast.Constant):
                tag = s.value.value
        if tag is None:
            cand = None
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') in ('_add_child', '_add_content', '_begin_line', '_write_ref_content') and n.args:
                    for a in n.args[:2]:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            if cand is None or n.lineno < cand[0]:
                                cand = (n.lineno, a.value)
            if cand: tag = '~' + cand[1]
        ps = [a.arg for a in f.args.args][2:]
        wr.setdefault(k, []).append((f.name, tag, ps))
calls = collections.defaultdict(set)
for n in ast.walk(W):
    if isinstance(n, ast.Call) and getattr(n.func, 'attr', '').startswith('_write_') and len(n.args) > 1:
        for x in ast.walk(n.args[1]):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                calls[n.func.attr].add(x.value)
sw = collections.defaultdict(list)
rnames = [f.name for f in cls(R, 'Reader').body if isinstance(f, ast.FunctionDef) and f.name.startswith('_read_') and len(f.args.args) == 2]
for n in ast.walk(cls(R, 'Reader')):
    if isinstance(n, ast.Dict):
        for k, v in zip(n.keys, n.values):
            if isinstance(k, ast.Constant) and isinstance(v, ast.Attribute):
                if k.value not in sw[v.attr]: sw[v.attr].append(k.value)
made = collections.defaultdict(list)
for f in cls(R, 'Reader').body:
    if isinstance(f, ast.FunctionDef) and f.name in rnames:
        ms = {n.func.attr for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, 'id', '') in('ar_element', 'ar_reference','ar_ref')}
        for m in ms: made[m].append(f.name)
out, bad = [], []
for k in C:
    ws = wr.get(k, [])
    if not ws: continue
    snake = re.sub(r'(?<!^)(?=[A-Z])', '_', k).lower()
    wn = ws[0] if len(ws) == 1 else None
    if wn is None:
        wn = next((x for x in ws if x[0] == '_write_' + snake), ws[0])
        if len(ws)>1: bad.append((k, 'multiple', ws))
    rn = '_read_' + wn[0][7:]
    if rn not in rnames:
        c2 = made.get(k, [])
        rn = c2[0] if len(c2) == 1 else None
        if rn is None: bad.append((k, wn, c2)); 
    takes = wn[2][0] if wn[2] and wn[2][0] in ('tag', 'elem_tag') else None
    tags = sorted(calls[wn[0]]) if takes else [wn[1].lstrip('~')] if wn[1] else []
    st = sw.get(rn, [])
    tags2 = tags
    if st and not takes and tags and tags[0] not in st:
        bad.append((k, 'tag?', tags, st)); 
    if takes:
        tags2 = sorted(set(tags) | {t for t in st if re.fullmatch('[A-Z0-9-]+', t)})
    if not tags2: bad.append((k, 'notag', wn, st))
    out.append((k, wn[0], rn, takes, tuple(tags2)))
for b in bad: print(b)
print(len(out))
open('/tmp/s/codecs_raw.py', 'w').write('CODECS = ' + pprint.pformat(out, width=160) + '\n')
missing = [k for k in C if k not in [o[0] for o in out]]
print(missing)
