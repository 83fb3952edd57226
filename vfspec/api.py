"""Specification primitives (given their symbolic meaning by vf.spec; native meaning here)."""


class CheckFailed(Exception):
    """A postcondition does not hold."""


class AssumeFailed(Exception):
    """A precondition does not hold: the input is outside the domain."""


captured = None      # what the code printed (native runs)
trace = []


def check(cond, label):
    """Obligation: cond must hold."""
    if not cond:
        raise CheckFailed(label)


def assume(cond):
    """Precondition."""
    if not cond:
        raise AssumeFailed()


def raises(exc, fn, *args, **kwargs):
    """True if fn(*args) raises exc (exactly this class or a subclass)."""
    try:
        fn(*args, **kwargs)
    except exc:
        return True
    return False


def note(label, value):
    """Diagnostics for a replay file; no logical content."""


def is_set(v):
    return v is not None


def silent():
    """True if the code under test has printed nothing so far."""
    return captured is None or captured.getvalue() == ''


def equal(a, b):
    """same(a, b), keeping the differing paths for the replay file."""
    return same(a, b, '', trace)


def identical(a, b):
    """The same objects, in the same order."""
    return len(a) == len(b) and all([x is y for x, y in zip(a, b)])


IGNORED = ('parent', 'default_pattern_format')


def num_eq(a, b):
    """Equal numbers; an int equals a float if it is converted to it (the text of a float above
    2**53 without fraction denotes an int that is not exactly the float)."""
    if isinstance(a, float) != isinstance(b, float):
        return a == b or float(a) == float(b)
    return a == b


def number(v):
    """The number a NumericalValue wraps: its notation (decimal, hexadecimal, ...) is not part of its value."""
    return v.value if type(v).__name__ in ('NumericalValue', 'PositiveIntegerValue') else v


def same(a, b, path='', trace=None):
    """Deep equality of two elements: same class, same attributes (parent links and
    private caches excluded), same values; '' and None are the same (absent) text."""
    import enum
    if a is b:
        return True
    if a in ('', None) and b in ('', None) and not isinstance(a, (int, float)) and not isinstance(b, (int, float)):
        return True
    r = True
    a, b = number(a), number(b)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        r = type(a) is type(b) and a == b
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        r = num_eq(a, b) or (a != a and b != b)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            r = False
        else:
            return all([same(x, y, '%s[%d]' % (path, i), trace) for i, (x, y) in enumerate(zip(a, b))])
    elif isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            r = False
        else:
            return all([same(a[k], b[k], '%s[%r]' % (path, k), trace) for k in a])
    elif type(a) is not type(b):
        r = False
    elif type(a).__module__.startswith('autosar'):
        names = public_names(type(a), attrs(a) + attrs(b), IGNORED)
        ok = True
        for n in names:
            if not same(getattr(a, n, None), getattr(b, n, None), path + '.' + n, trace):
                ok = False
        return ok
    else:
        r = a == b
    if not r and trace is not None:
        trace.append('%s: %r -> %r' % (path, short(a), short(b)))
    return r


def public_names(cls, names, ignored):
    """The public names among the fields; of a private field the property it is read by."""
    out = []
    for n in names:
        if n.startswith('_'):
            n = n[1:]
            if not isinstance(getattr(cls, n, None), property):
                continue
        if n not in ignored and n not in out:
            out.append(n)
    return out


def attrs(o):
    d = getattr(o, '__dict__', None)
    if d is not None:
        return list(d)
    return [n for c in type(o).__mro__ for n in getattr(c, '__slots__', ()) if n != '__dict__']


def short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + '...'


def parsed(text, mixed=False):
    """The element the text consists of, as (tag, attributes, items); unless mixed, without the
    white space between the children of an element."""
    import lxml.etree
    import xml.parsers.expat
    if isinstance(text, str):
        text = text.encode('utf-8')
    lxml.etree.fromstring(text)
    top = []
    stack = [(None, (), top)]
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    p.ordered_attributes = True

    def start(tag, attr):
        stack.append((tag, tuple(zip(attr[::2], attr[1::2])), []))

    def end(tag):
        t, attr, items = stack.pop()
        stack[-1][2].append((t, attr, tuple(items)))
    p.StartElementHandler = start
    p.EndElementHandler = end

    def chars(t):
        items = stack[-1][2]
        if items and isinstance(items[-1], str):
            items[-1] += t      # the parser gives long texts in pieces
        else:
            items.append(t)
    p.CharacterDataHandler = chars
    p.Parse(text, True)

    def strip(n):
        items = n[2]
        if any(isinstance(x, tuple) for x in items):
            items = tuple(x for x in items if not (isinstance(x, str) and x.strip() == ''))
        return (n[0], n[1], tuple(strip(x) if isinstance(x, tuple) else x for x in items))
    return top[0] if mixed else strip(top[0])


def written(write, name=None):
    """The text that write(path) puts into the file it is given, or into the file of that name in the directory it is given."""
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='vf')
    try:
        path = os.path.join(d, name or 'f.arxml')
        write(d if name else path)
        if os.listdir(d) != [os.path.basename(path)]:
            raise OSError('the file is not there, or more than that')
        with open(path, 'rb') as f:
            return f.read().decode('utf-8')
    finally:
        shutil.rmtree(d)


def shaped(node, spec):
    """The element has only the attributes and children that spec lists, in that order.
    spec: (attributes, None: not looked into | (any order allowed, ((tag, spec, may be repeated), ...)))"""
    attrs, kids = spec[0], spec[1]
    if any(k not in attrs for k in node.attrib):
        return False
    if kids is None:
        return True
    mixed, tags = kids
    order, table, many = [t[0] for t in tags], {t[0]: t[1] for t in tags}, [t[0] for t in tags if t[2]]
    done = []
    last = -1
    for c in node:
        if c.tag not in table:
            return False
        sub = table[c.tag]
        if sub is not None and not shaped(c, sub):
            return False
        if c.tag in done and c.tag not in many:
            return False
        done.append(c.tag)
        i = order.index(c.tag)
        if not mixed and i < last:
            return False
        last = i
    return True


def occurs(node, path):
    return node.find('./' + path) is not None


def has_attribute(node, name):
    return name in node.attrib


# ---------------------------------------------------------------- documents with faulty elements
UNREADABLE = ['<UNIT><LONG-NAME/></UNIT>',
              '<SW-BASE-TYPE><SHORT-NAME>X</SHORT-NAME><BYTE-ORDER>x</BYTE-ORDER></SW-BASE-TYPE>',
              '<UNIT><SHORT-NAME>X</SHORT-NAME><FACTOR-SI-TO-UNIT>abc</FACTOR-SI-TO-UNIT></UNIT>',
              '<UNIT><SHORT-NAME>X</SHORT-NAME><FACTOR-SI-TO-UNIT/></UNIT>',
              '<DATA-FILTER/>']


class Unreadable:
    """An element the reader cannot make sense of. kind: what its read method raises (0 ParseError,
    1 KeyError, 2 ValueError, 3 TypeError, 4 something that is no element)."""

    def __init__(self, kind):
        self.kind = kind


def document_of(items):
    """Text of a document with one package holding the elements items, in their order."""
    import autosar.xml
    out = [UNREADABLE[x.kind] if isinstance(x, Unreadable) else autosar.xml.Writer().write_str_elem(x) for x in items]
    return '<AUTOSAR><AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P</SHORT-NAME><ELEMENTS>%s</ELEMENTS></AR-PACKAGE></AR-PACKAGES></AUTOSAR>' % ''.join(out)


def reread(write, read):
    """read(path) after write(path), for a scratch file."""
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix='vf')
    p = os.path.join(d, 'f.arxml')
    try:
        write(p)
        return read(p)
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


def in_directory(fn):
    """fn(path of an empty scratch directory); relative paths lead into another one."""
    import os
    import shutil
    import tempfile
    base = tempfile.mkdtemp(prefix='vf')
    cwd = os.getcwd()
    try:
        for x in 'dc':
            os.mkdir(os.path.join(base, x))
        os.chdir(os.path.join(base, 'c'))
        return fn(os.path.join(base, 'd'))
    finally:
        os.chdir(cwd)
        assert os.path.dirname(base) == tempfile.gettempdir() and os.path.basename(base).startswith('vf')
        shutil.rmtree(base)


def files_in(d):
    """The names of the files in the directory, sorted."""
    import os
    return sorted(os.listdir(d))


def count_files(d):
    return len(files_in(d))


def is_file(path):
    import os
    return os.path.isfile(path)


def configured(config, fn):
    """fn(path of a TOML file with the contents config)."""
    import os

    def run(d):
        p = os.path.join(d, 'config.toml')
        with open(p, 'w', encoding='utf-8') as f:
            f.write(toml(config, ()))
        return fn(p)
    return in_directory(run)


def toml(table, path):
    import json

    def text(x):
        if isinstance(x, (list, tuple)):
            return '[' + ', '.join(text(y) for y in x) + ']'
        return json.dumps(x, ensure_ascii=False).replace(chr(127), '\\u007f')
    out = [text(k) + ' = ' + text(v) for k, v in table.items() if not isinstance(v, dict)]
    for k, v in table.items():
        if isinstance(v, dict):
            here = path + (text(k),)
            out += ['[' + '.'.join(here) + ']', toml(v, here)]
    return '\n'.join(out) + '\n'
