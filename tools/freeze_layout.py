"""One-off generation of vfspec/layout.py from the current writer (then reviewed and frozen)."""
import os, sys, pprint
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path[:0] = ['/repo/src', '/opt/venv/lib/python3.12/site-packages']
sys.setrecursionlimit(20000)
from vf import spec as S, xmlmodel, layout
from vf.values import *
from vf.bdd import TRUE, FALSE
from vfspec import Spec, p12
from vfspec.domains import TABLE, APPEND
from vfspec.codecs import CODECS
from vfspec.roundtrip import setup
import lxml.etree
only = sys.argv[1] if len(sys.argv) > 1 else None
out = {}


def shape(e, n, warn, path=''):
    attrs = tuple(k for k, g, v in n.attrs.entries)
    if n.payload is not None and n.fill is not None:
        return None
    order, subs, many, mixed = [], {}, set(), False
    seen = []

    def walk(entries, g, seg):
        nonlocal mixed
        for en in entries:
            if isinstance(en, Seg):
                n0 = len(order)
                walk(en.entries, e.b.AND(g, en.src.nonempty), True)
                if len({x[1].tag for x in en.entries if not isinstance(x, Seg)}) > 1:
                    mixed = True
                continue
            c = en[1]
            h = e.b.AND(g, en[0])
            s = shape(e, c, warn, path + '/' + c.tag)
            if c.tag not in order:
                order.append(c.tag)
                subs[c.tag] = s
            else:
                subs[c.tag] = merge(subs[c.tag], s)
                for k, t in seen:
                    if t == c.tag and e.b.AND(k, h) != FALSE:
                        many.add(c.tag)
            seen.append((h, c.tag))
            if seg:
                many.add(c.tag)
    walk(xmlmodel.children(e, n), TRUE, False)
    # order conflicts between alternatives
    if not order:
        return (attrs, None)
    return (attrs, (mixed, tuple((t, subs[t], t in many) for t in order)))


def merge(a, b):
    if a is None or b is None:
        return a or b
    attrs = a[0] + tuple(x for x in b[0] if x not in a[0])
    if a[1] is None or b[1] is None:
        return (attrs, a[1] or b[1])
    order = list(a[1][1])
    names = [x[0] for x in order]
    pos = 0
    for t, s, m in b[1][1]:
        if t in names:
            i = names.index(t)
            order[i] = (t, merge(order[i][1], s), order[i][2] or m)
            pos = i + 1
        else:
            order.insert(pos, (t, s, m))
            names.insert(pos, t)
            pos += 1
    return (attrs, (a[1][0] or b[1][0], tuple(order)))


def paths(sh, pre=''):
    if sh is None or sh[1] is None:
        return
    for t, s, m in sh[1][1]:
        yield pre + t
        yield from paths(s, pre + t + '/')


for cname, wname, rname, takes, tags in CODECS:
    if only and cname not in only.split(','):
        continue
    isref = cname not in TABLE and cname not in APPEND
    for tag in tags:
        box = {}
        sp = Spec('x', p12.probe(wname, tag, bool(takes)), [('e', ('ref' if isref else 'obj', cname))], root='e', engine=None)

        def eng(e, box=box):
            setup(e)
            from vfspec import api

            def cap(e, args, kw):
                roots = e.split(args[0])
                warn = []
                shs = [shape(e, r, warn) for g, r in roots]
                sh = shs[0]
                for x in shs[1:]:
                    sh = merge(sh, x)
                if len({r.tag for g, r in roots}) > 1:
                    warn.append('alternatives %s' % [(r.tag) for g, r in roots])

                def occ(path):
                    g = FALSE
                    for h, r in roots:
                        g = e.b.OR(g, e.b.AND(h, layout.occurs(e, r, path)))
                    return g

                def att(a):
                    g = FALSE
                    for h, r in roots:
                        g = e.b.OR(g, e.b.AND(h, layout.has_attr(e, r, a)))
                    return g
                parts = []
                o = args[1]
                used = []
                ps = [p for p, _ in TABLE.get(cname, [])]
                if cname in APPEND:
                    ps = [p for p, _ in APPEND[cname][0]]
                for p in ps:
                    try:
                        p = dict(scale_constr='scale_constrs').get(p, p)
                        v = e.getattr1(o, p, layout.MISSING)
                        if v is layout.MISSING:
                            raise KeyError(p)
                    except Exception:
                        warn.append('no attribute ' + p)
                        continue
                    try:
                        g = e.truth(e.call(p12.given, [v], []))
                    except Unsupported:
                        warn.append('no place for ' + p)
                        continue
                    if e.b.AND(e.pc, g) == e.pc:
                        g = e.pc
                    hit = None
                    norm = p.upper().replace('_', '-')
                    cand = []
                    for pa in paths(sh):
                        try:
                            h = occ(pa.split('/'))
                        except Unsupported:
                            continue
                        d = e.b.OR(e.b.DIFF(h, g), e.b.DIFF(g, h))
                        if e.live(d) == FALSE:
                            cand.append(pa)
                    if True:
                        for a in sh[0]:
                            h = att(a)
                            d = e.b.OR(e.b.DIFF(h, g), e.b.DIFF(g, h))
                            if e.live(d) == FALSE:
                                cand.append('@' + a)
                    cand = [c for c in cand if c not in used]
                    cand = [c for c in cand if not any(c.startswith(d + '/') for d in cand)]
                    import difflib
                    if cand:
                        hit = max(cand, key=lambda c: (difflib.SequenceMatcher(None, norm, c.split('/')[-1]).ratio(), -c.count('/')))
                    if len(cand) > 1 and 'ANNOTATION' not in hit or hit is None:
                        print(cname, p, cand, hit, [str(e.b.to_z3(e.b.AND(e.pc, g)))[:200] for c in cand[:1]])
                    if hit is None:
                        warn.append('no place for ' + p)
                    else:
                        parts.append((p, hit))
                        used.append(hit)
                box['r'] = (sh, tuple(parts))
                box['w'] = warn
                return None
            e.contracts[api.has_attribute] = cap
        sp.opts['engine'] = eng
        r = S.verify(sp, seconds=60)
        if 'r' not in box:
            print('FAIL', cname, tag, r.status, r.reason, file=sys.stderr)
            continue
        if box['w']:
            print(cname, tag, box['w'], file=sys.stderr)
        out[cname, tag] = box['r']
if only:
    from vfspec.layout import LAYOUT
    out = {**LAYOUT, **out}
with open('vfspec/layout.py' if only else 'vfspec/layout.py', 'w') as f:
    f.write('"""Shape of every written element and the place of each of its parts (see tools/freeze_layout.py; frozen)."""\n')
    f.write('LAYOUT = ' + pprint.pformat(out, width=150) + '\n')
