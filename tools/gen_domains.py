"""One-off: derive the frozen domain table (specs/domain_table.py) from the constructor annotations.
The table is committed; it is not regenerated by the checks."""
import sys
sys.path.insert(0, '/repo/src')
sys.path.insert(0, '/opt/venv/lib/python3.12/site-packages')
import inspect, types, typing, enum, pprint
import autosar.xml.element as el, autosar.xml.reference as rf, autosar.xml.enumeration as en

def params(cls):
    out, seen = [], set()
    for c in cls.__mro__:
        if '__init__' in c.__dict__ and c is not object:
            s = inspect.signature(c.__dict__['__init__'])
            kw = False
            for n, p in list(s.parameters.items())[1:]:
                if p.kind == p.VAR_KEYWORD:
                    kw = True
                    continue
                if n in seen:
                    continue
                seen.add(n)
                out.append((n, p.annotation, 'req' if p.default is p.empty else 'none' if p.default is None else 'def'))
            if not kw:
                break
    return out

bad = []

def conv(a, ctx):
    if isinstance(a, str):
        a = typing.ForwardRef(a)
    if isinstance(a, typing.ForwardRef):
        s = a.__forward_arg__
        if '[' in s or '|' in s or ',' in s:
            try:
                return conv(eval(s, {**vars(el), **vars(typing)}), ctx)
            except Exception as e:
                bad.append((ctx, s, e))
                return '?'
        if hasattr(el, s):
            return conv(getattr(el, s), ctx)
        bad.append((ctx, s))
        return '?'
    if a is type(None):
        return None
    o = typing.get_origin(a)
    if o in (typing.Union, types.UnionType):
        alts = []
        opt = False
        for x in typing.get_args(a):
            c = conv(x, ctx)
            if c is None:
                opt = True
            elif isinstance(c, tuple) and c[0] == 'or':
                alts += [y for y in c[1:] if y not in alts]
            elif c not in alts:
                alts.append(c)
        # str beside a reference / list beside the element are construction conveniences
        r = alts[0] if len(alts) == 1 else ('or',) + tuple(alts)
        return ('opt', r) if opt else r
    if o is list:
        return ('list', conv(typing.get_args(a)[0], ctx))
    if o is tuple:
        return ('tuple',) + tuple(conv(x, ctx) for x in typing.get_args(a))
    if a in (int, float, str, bool):
        return a.__name__
    if isinstance(a, type) and issubclass(a, enum.Enum):
        return ('enum', a.__name__)
    if isinstance(a, type) and a.__module__ == rf.__name__ or isinstance(a, type) and issubclass(a, rf.BaseRef):
        return ('ref', a.__name__)
    if isinstance(a, type) and a.__module__ == el.__name__:
        return ('obj', a.__name__)
    bad.append((ctx, a))
    return '?'


def concrete(name):
    """Concrete (instantiable, documented) classes for a class used as a type."""
    c = getattr(el, name)
    subs = [n for n, k in vars(el).items() if inspect.isclass(k) and issubclass(k, c) and k.__module__ == el.__name__]
    leaf = [n for n in subs if not any(m != n and issubclass(getattr(el, m), getattr(el, n)) for m in subs)]
    return [name] if name not in ABSTRACT else sorted(leaf)

ABSTRACT = {'ProvidePortComSpec', 'RequirePortComSpec', 'PortPrototype', 'SwConnector', 'ValueSpecification', 'ARElement', 'SenderComSpec',
            'ReceiverComSpec', 'RteEvent', 'AbstractAccessPoint', 'ServerCallPoint', 'SwcSupportedFeature', 'DataInterface', 'PortInterface'}

def flat(d):
    if isinstance(d, tuple) and d[0] == 'or':
        out = []
        for x in d[1:]:
            for y in flat(x):
                if y not in out:
                    out.append(y)
        return out
    if isinstance(d, tuple) and d[0] == 'opt':
        return flat(d[1])
    return [d]

def norm(d):
    """Canonical argument forms (the convenience forms are a property of their own)."""
    if isinstance(d, tuple) and d[0] == 'opt':
        return ('opt', norm(d[1]))
    if isinstance(d, tuple) and d[0] == 'list':
        return ('list', norm(d[1]))
    if isinstance(d, tuple) and d[0] == 'tuple':
        return ('tuple',) + tuple(norm(x) for x in d[1:])
    if isinstance(d, tuple) and d[0] == 'obj':
        cs = concrete(d[1])
        return ('obj', cs[0]) if len(cs) == 1 else ('or',) + tuple(('obj', c) for c in cs)
    if isinstance(d, tuple) and d[0] == 'or':
        alts = flat(('or',) + tuple(norm(x) for x in d[1:]))
        lists = [a for a in alts if isinstance(a, tuple) and a[0] == 'list']
        if lists:
            big = [l for l in lists if not (l[1] == 'str' and len(lists) > 1)]
            return big[0]
        if any(isinstance(a, tuple) and a[0] == 'ref' for a in alts):
            alts = [a for a in alts if a != 'str']
        if any(isinstance(a, tuple) and a[0] == 'obj' for a in alts):
            alts = [a for a in alts if not (isinstance(a, tuple) and a[0] == 'tuple')]
        return alts[0] if len(alts) == 1 else ('or',) + tuple(alts)
    return d

OVERRIDE = {}
tab = {}
for n, c in vars(el).items():
    if inspect.isclass(c) and c.__module__ == el.__name__ and not issubclass(c, enum.Enum):
        row = []
        for p, a, k in params(c):
            d = conv(a, (n, p))
            if p == 'desc' and isinstance(d, tuple):
                d = ('opt', ('obj', 'MultiLanguageOverviewParagraph'))
            d = norm(d) if d is not None else 'none'
            if k == 'none' and not (isinstance(d, tuple) and d[0] == 'opt'):
                d = ('opt', d)
            row.append((p, d))
        tab[n] = row
if __name__ == '__main__':
    for b in bad:
        print(b)
    import re
    seen = set()
    for n, row in tab.items():
        for p, d in row:
            if "'or'" in repr(d) or '?' in repr(d) or 'SwDataDefPropsConditional' in repr(d):
                key = (p, repr(d))
                if key not in seen:
                    seen.add(key)
                    print(n, p, d)
    with open('/tmp/s/table.py', 'w') as f:
        f.write('TABLE = {\n')
        for n, row in tab.items():
            f.write('    %r: [\n' % n)
            for p, d in row:
                f.write('        (%r, %r),\n' % (p, d))
            f.write('    ],\n')
        f.write('}\n')
