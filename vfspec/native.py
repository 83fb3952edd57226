"""Concrete side of the specifications: builds real values from recipes, draws random values from
domains, and runs a specification function on the real code (under /repo's interpreter)."""
import contextlib
import importlib
import io
import math
import struct
import sys
import traceback

from . import api
from .domains import TABLE, APPEND
from .constraints import CONSTRAINTS


class OutOfDomain(Exception):
    """The arguments violate the precondition of the class (see constraints.py)."""


def mods():
    import autosar.xml.element as el
    import autosar.xml.enumeration as en
    import autosar.xml.reference as rf
    return el, rf, en


def find_class(name):
    el, rf, _ = mods()
    if hasattr(rf, name) or hasattr(el, name):
        return getattr(rf, name, None) or getattr(el, name)
    import autosar.xml
    return getattr(autosar.xml, name)


def build(r, alt=''):
    """Value of a recipe. alt: suffix for all texts (to build a second, different element)."""
    if r is None or isinstance(r, (bool, int)):
        return r
    if isinstance(r, str):
        return r + alt if r else r
    if 'enum' in r:
        return getattr(getattr(mods()[2], r['enum']), r['m'])
    if 'float' in r:
        return float(r['float'])
    if 'tuple' in r:
        return tuple(build(x, alt) for x in r['tuple'])
    if 'list' in r:
        out = [build(x, alt) for x in r['list']]
        rep = r.get('rep', 1)
        for i in range(1, rep):
            for x in r['list']:
                out.append(build(x, '%s_%d' % (alt, i)))
        if r.get('dup'):
            out.insert(1, out[0])       # the same object twice
        return out
    if 'package' in r:
        o = mods()[0].Package(build(r['package'], alt))
        for x in r['items']:
            o.append(build(x, alt))
        if r.get('rooted'):
            find_class('Document')().append(o)
        return o
    if 'collection' in r:
        o = find_class(r['collection'])()
        for x in r['items']:
            o.append(build(x, alt))
        return o
    if 'bad' in r:
        return api.Unreadable(r['bad'])
    if 'obj' in r or 'ref' in r:
        name = r.get('obj') or r.get('ref')
        cls = find_class(name)
        if r.get('min'):
            return minimal(name, 'ref' in r, alt)
        o = cls(**{k: build(v, alt) for k, v in r['kw'].items()})
        if name in CONSTRAINTS and not CONSTRAINTS[name](o):
            raise OutOfDomain(name)
        if r.get('items') is not None:
            for l in r['items'].get('lists', [r['items']]):
                for x in build(l, alt):
                    o.append(x)
        return o
    raise ValueError('recipe %r' % (r,))


def ref_params(cls):
    import inspect
    return list(inspect.signature(cls.__init__).parameters)[1:]


_dests = {}


def ref_dests(cls):
    if cls not in _dests:
        ok = []
        for m in mods()[2].IdentifiableSubTypes:
            try:
                if cls('/a', m).dest is m:
                    ok.append(m)
            except TypeError as ex:
                if 'positional argument' in str(ex):
                    ok = None
                    break
            except Exception:
                pass
        _dests[cls] = ok
    return _dests[cls]


def minimal(name, is_ref, alt=''):
    class Rng:
        """Deterministic 'smallest' choices."""
        def random(self):
            return 0.99

        def choice(self, s):
            return s[0]

        def randint(self, a, b):
            return a

        def getrandbits(self, n):
            return 1
    return build(sample(('ref' if is_ref else 'obj', name), Rng(), 99), alt)


WORDS = ['a', 'b', 'Name', 'x_1', 'Speed', 'längd', '漢字', 'Two Words', 'T', 'k9', '/Pkg/Elem', '\u00b5', '12', '0x10',
         'a<b', 'R&D', 'x>y', 'say "hi"', "it's", 'None', 'a;b', 'tab\there', 'NAME-A', '1.5', 'true', ' lead', 'trail ', 'a  b', 'line\nbreak',
         ' ', '\n  ', '  ', '&amp;', 'a.b', 'Name_0']
EXTRA = {'str': [], 'int': [], 'float': []}     # constants of the code under test (when a witness is searched for)
SIZES = {'list': [], 'text': []}                # sizes of lists and texts (likewise)
NAMES = ['A', 'A_0', 'A_1', 'A_10', 'A_x', 'AA_0', 'B', 'a', 'A_1x', 'Ab']
INTS = [0, 1, -1, 2, 7, 255, -128, 65535, 2 ** 31, 2 ** 53 - 1, -2 ** 40, 10, 100000]
FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 0.1, 1e-7, 1e30, -3.14159265358979, 123456.789, 1e16, 2.0 ** 53, 5e-324, float('inf'), float('-inf')]


def any_float(rng):
    if rng.random() < 0.5:
        return rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 60)) / 10 ** rng.randint(0, 12)
    f = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
    return f if math.isfinite(f) else 0.25


def sample(d, rng, depth=0):
    """Random recipe of domain d."""
    if isinstance(d, str) and EXTRA.get(d if d != 'str0' else 'str') and rng.random() < 0.5:
        return rng.choice(EXTRA[d if d != 'str0' else 'str'])
    if d in ('str', 'str0') and SIZES['text'] and rng.random() < 0.15:
        n, w = rng.choice(SIZES['text']), rng.choice(WORDS)
        return (w * n)[:n] + rng.choice(['', ' ', '\n', 'z'])
    if d == 'str':
        return rng.choice(WORDS)
    if d == 'word':
        return rng.choice(['a', 'Name', 'x_1', 'STD', 'a<b', 'längd'])
    if d == 'plain':
        return rng.choice(['a', 'Name', 'x_1', '/Pkg/Elem', 'Längd', 'None', 'NAME-A'])
    if d == 'str0':
        return rng.choice(WORDS + ['', ''])
    if d in ('path', 'cpath'):
        return '/'.join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3])))
    if d in ('name', 'ident'):
        return rng.choice(NAMES)
    if d == 'int':
        return rng.choice(INTS) if rng.random() < 0.7 else rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 53))
    if d == 'nat':
        return abs(sample('int', rng))
    if d == 'float':
        return {'float': repr(rng.choice(FLOATS) if rng.random() < 0.7 else any_float(rng))}
    if d == 'bool':
        return rng.random() < 0.5
    k = d[0]
    if k == 'bad':
        return {'bad': rng.randrange(len(api.UNREADABLE))}
    if k == 'const':
        return d[1]
    if k == 'given':
        return sample(d[1], rng, depth)
    if k == 'given-name':
        return sample('name', rng, depth)
    if k in ('package', 'collection'):
        names = rng.sample(NAMES, rng.randint(0, 4) if depth < 3 else 0)
        items = []
        for n in names:
            r = rng.random()
            if r < 0.5 or k == 'collection':
                items.append(dict(sample(('package',), rng, depth + 1), package=n))
            else:
                items.append({'obj': 'Unit' if r < 0.75 else 'ImplementationDataType', 'kw': {'name': n}})
        return {'package': rng.choice(NAMES), 'items': items, 'rooted': not depth and rng.random() < 0.5} if k == 'package' else {'collection': d[1], 'items': items}
    if k == 'enum':
        if isinstance(d[1], str):
            m = rng.choice(list(getattr(mods()[2], d[1])))
        else:
            m = rng.choice(list(d[1]))
        return {'enum': type(m).__name__, 'm': m.name}
    p = 0.6 if depth < 2 else (0.4 if depth < 4 else 0.12 if depth < 7 else 0.0)
    if k == 'opt':
        return sample(d[1], rng, depth) if rng.random() < p else None
    if k == 'or':
        if depth > 6:
            return sample(min(d[1:], key=weight), rng, depth)
        return sample(rng.choice(list(d[1:])), rng, depth)
    if k in ('list', 'list1', 'found'):
        n = 1 if k == 'list1' else 0
        r = rng.random()
        if r < p:
            n += 1
        if r < p / 2:
            n += 1
        if r < p / 5:
            n += 1
        if SIZES['list'] and depth <= 2 and rng.random() < 0.3:
            # many small ones
            n, depth = rng.choice(SIZES['list']), 7
        out = {'list': distinct([sample(d[1], rng, depth + 1) for _ in range(n)])}
        if n and isinstance(out['list'][0], dict) and 'obj' in out['list'][0] and 'name' not in out['list'][0]['kw'] and rng.random() < 0.15:
            out['dup'] = 1
        return out
    if k == 'called':
        r = sample(('obj', d[1]), rng, depth)
        r['kw']['name'] = rng.choice(NAMES)
        return r
    if k == 'named':
        return {'obj': d[1], 'kw': {'name': rng.choice(NAMES)}}
    if k == 'many':
        return {'list': [sample(d[1], rng, depth + 1) for _ in range(rng.randint(0, d[2]))]}
    if k == 'tuple':
        return {'tuple': [sample(x, rng, depth) for x in d[1:]]}
    if k == 'mixed':
        out = []
        if rng.random() < 0.7 or depth > 6:
            out.append(rng.choice(WORDS))
        while depth <= 6 and rng.random() < 0.45 and len(out) < 7:
            out.append(sample(rng.choice(list(d[1:])), rng, depth + 1))
            if rng.random() < 0.6:
                out.append(rng.choice(WORDS))
        return {'list': out}
    if k == 'ref':
        cls = find_class(d[1])
        ps = ref_params(cls)
        kw = {ps[0]: rng.choice(['/A/B', '/Pkg/Sub/Elem', 'x', '/É/&'])}
        dests = ref_dests(cls)
        if len(ps) > 1 and dests is not None:
            m = rng.choice(dests)
            kw[ps[1]] = {'enum': 'IdentifiableSubTypes', 'm': m.name}
        return {'ref': d[1], 'kw': kw}
    if k == 'obj':
        name = d[1]
        if name in APPEND:
            ps, item = APPEND[name]
            items = [sample(('list', x), rng, depth + 1) for x in (item if isinstance(item, list) else [item])]
            distinct([x for l in items for x in l['list']])
            return {'obj': name, 'kw': {p: sample(x, rng, depth + 1) for p, x in ps},
                    'items': items[0] if len(items) == 1 else {'lists': items}}
        for _ in range(40):
            r = {'obj': name, 'kw': {p: sample(x, rng, depth + 1) for p, x in TABLE[name]}}
            if name not in CONSTRAINTS:
                return r
            try:
                build(r)
                return r
            except Exception:
                pass
        return r
    raise ValueError('domain %r' % (d,))


def distinct(items):
    """Members of one list have different names (precondition)."""
    seen = set()
    for i, x in enumerate(items):
        kw = x.get('kw') if isinstance(x, dict) else None
        if kw and isinstance(kw.get('name'), str):
            while kw['name'] in seen:
                kw['name'] += str(i)
            seen.add(kw['name'])
    return items


def weight(d):
    return 0 if isinstance(d, str) else {'const': 0, 'enum': 1, 'opt': 1, 'list': 1, 'ref': 2, 'tuple': 2, 'mixed': 1}.get(d[0], 5)


def use_constants(consts):
    strs = [c for c in consts if isinstance(c, str) and c and all(ord(x) >= 32 or x in '\t\n\r' for x in c)]
    sizes = [c for c in consts if isinstance(c, int)]
    for k, most in (('list', 1200), ('text', 70000)):
        SIZES[k] = sorted({x for c in sizes if 4 <= c <= most for x in (c - 1, c, c + 1, c + 2)} | {4, 5, 9, 17}) if consts else []
    EXTRA['str'] = strs + [c + 'a' for c in strs] + ['a' + c for c in strs] + ['a' + c + 'b' for c in strs] + [c + c for c in strs]
    ints = [c for c in consts if isinstance(c, int) and abs(c) <= 2 ** 70]
    EXTRA['int'] = sorted({x for c in ints for x in (c, c + 1, c - 1, -c, 2 * c, c // 2)})
    fl = [c for c in consts if isinstance(c, float)] + [float(c) for c in ints]
    EXTRA['float'] = [{'float': repr(x)} for c in fl for x in (c, -c, c * 2, c / 2, c + 0.5, c + 1e-9)]


class Outcome:
    def __init__(self, status, detail='', trace=None):
        self.status, self.detail, self.trace = status, detail, trace or []


def scrub(tb):
    return [x for x in tb]


def run_spec(spec, recipes):
    """One execution of a specification on the real code.
    status: ok | fail (postcondition) | error (exception) | skip (precondition)."""
    buf = io.StringIO()
    api.captured = buf
    api.trace = []
    try:
        args = [build(r) for r in recipes]
    except Exception as ex:
        return Outcome('skip', 'constructor: %s: %s' % (type(ex).__name__, ex))
    try:
        with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
            spec.fn(*args)
    except api.AssumeFailed:
        return Outcome('skip', 'assume')
    except api.CheckFailed as ex:
        return Outcome('fail', str(ex), [str(x) for x in api.trace] + buf.getvalue().splitlines()[:5])
    except RecursionError:
        return Outcome('skip', 'recursion')
    except Exception as ex:
        fr = traceback.extract_tb(ex.__traceback__)
        loc = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in fr][-4:]
        return Outcome('error', '%s: %s' % (type(ex).__name__, ex), loc)
    finally:
        api.captured = None
    return Outcome('ok')


def variants(r):
    """Recipes to try for a symbolic model: as given, then with repeated list elements."""
    yield r

    def setrep(x, n):
        if isinstance(x, dict):
            y = {k: setrep(v, n) for k, v in x.items()}
            if 'list' in x and x['list'] and 'rep' in x:
                y['rep'] = n
            return y
        if isinstance(x, list):
            return [setrep(v, n) for v in x]
        return x
    yield setrep(r, 1)
    yield setrep(r, 2)


def get_spec(prop, name):
    m = importlib.import_module('vfspec.' + prop.lower())
    for s in m.specs():
        if s.name == name:
            return s
    raise KeyError(name)
