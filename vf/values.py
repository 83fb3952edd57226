"""Symbolic values of the verifier."""
import z3
from .bdd import FALSE, TRUE


class Unsupported(Exception):
    """The construct is outside the verifier's fragment (never a verdict)."""


class TimeLimit(Exception):
    """The time allowed for one specification is used up."""


class Dead(Exception):
    """The current path condition became empty."""


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Poison:
    """A variable assigned by a generic loop body: reading it would be loop-carried state."""
    def __init__(self, name):
        self.name = name


class U:
    """Guarded union: disjoint alternatives (guard, value)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'U' + repr([(g, v) for g, v in self.alts][:6])


class SInt:
    __slots__ = ('z', 'origin', 'name', 'some', 'count_of')

    def __init__(self, z, origin=None, name=None):
        self.z = z
        self.some = None        # of the length of a list: the guard under which it is not zero
        self.origin = origin    # SFloat this int is the exact integer value of
        self.name = name

    def __repr__(self):
        return 'SInt(%s)' % self.z


class SFloat:
    """An arbitrary float.  kinds: variable; or the conversion of an int."""
    __slots__ = ('name', 'z', 'of_int', '_preds')

    def __init__(self, name, z, of_int=None):
        self.name = name
        self.z = z
        self.of_int = of_int
        self._preds = {}

    def __repr__(self):
        return 'SFloat(%s)' % self.name


class StrVar:
    __slots__ = ('name', 'z', 'nonempty', 'idx', 'ident', 'plain', 'clean', 'word')

    def __init__(self, name, nonempty=False):
        self.name = name
        self.z = z3.String(name)
        self.ident = False     # contains no '/'
        self.clean = False     # names separated by '/', none of them '.' or '..'
        self.word = False      # letters, digits and underscores
        self.plain = False     # no character that is special to XML
        self.nonempty = nonempty

    def __repr__(self):
        return '<%s>' % self.name


class IntText:
    """The text Python produces for an int under a format code ('d', 'x', 'b', ...)."""
    __slots__ = ('i', 'fmt')

    def __init__(self, i, fmt):
        self.i = i
        self.fmt = fmt

    def __eq__(self, o):
        return isinstance(o, IntText) and o.fmt == self.fmt and o.i.z.eq(self.i.z)

    def __hash__(self):
        return hash(('IntText', self.fmt, self.i.z.hash()))

    def __repr__(self):
        return '<int:%s:%s>' % (self.i.z, self.fmt)


class FloatText:
    """The text produced for a float by repr() ('r') or by a contracted formatter."""
    __slots__ = ('f', 'fmt')

    def __init__(self, f, fmt):
        self.f = f
        self.fmt = fmt

    def __eq__(self, o):
        return isinstance(o, FloatText) and o.fmt == self.fmt and o.f is self.f

    def __hash__(self):
        return hash(('FloatText', self.fmt, id(self.f)))

    def __repr__(self):
        return '<float:%s:%s>' % (self.f.name, self.fmt)


class Fn:
    """Uninterpreted (or axiomatised) text function applied to a value."""
    __slots__ = ('fn', 'arg')

    def __init__(self, fn, arg):
        self.fn = fn
        self.arg = arg

    def __eq__(self, o):
        return isinstance(o, Fn) and o.fn == self.fn and o.arg == self.arg

    def __hash__(self):
        return hash((self.fn, self.arg))

    def __repr__(self):
        return '%s(%r)' % (self.fn, self.arg)


class SStr:
    """A symbolic string: concatenation of literals and atoms."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


class SObj:
    """A heap object: an instance of a real class, with symbolic fields."""

    def __init__(self, cls, oid, birth, name=None):
        self.cls = cls
        self.oid = oid
        self.birth = birth
        self.name = name
        self.fields = {}
        self.lazy = None       # (domain) to materialise on first access
        self.early = None      # gives the name without materialising
        self.copy_of = None    # decoded copy of a payload (field reads fall through)
        self.owner = None
        self.recipe = None     # constructor arguments it was built from
        self.args = None       # opaque exception args
        self.ghost = {}

    def __repr__(self):
        return 'SObj(%s#%d)' % (self.cls.__name__, self.oid)


class Seq:
    """An arbitrary finite sequence, represented by its generic element."""

    def __init__(self, name, elem, length, nonempty, group=None):
        self.name = name
        self.group = group        # the list of which this sequence is a part
        self.elem = elem
        self.length = length      # SInt
        self.nonempty = nonempty  # guard

    def __repr__(self):
        return 'Seq(%s)' % self.name


class Group:
    """An arbitrary list with designated elements between arbitrary sequences: whatever searches of the list
    find are the designated elements, as long as there are no more searches than designated elements."""

    def __init__(self, name, slots):
        self.name, self.slots, self.found, self.search = name, slots, 0, None


class Seg:
    """Segment of a list: for every element of src in order, the listed guarded entries."""
    __slots__ = ('src', 'entries')

    def __init__(self, src, entries):
        self.src = src
        self.entries = entries   # list of (guard, value) or Seg

    def __repr__(self):
        return 'Seg(%s,%r)' % (self.src, self.entries)


class FirstOf:
    """First element of an arbitrary sequence of XML elements: only its tag is known."""
    def __init__(self, tag):
        self.tag = tag


class SList:
    def __init__(self, oid, birth, entries=None):
        self.oid = oid
        self.birth = birth
        self.entries = entries if entries is not None else []
        self.kind = list
        self.recipe = None
        self.name = None

    def __repr__(self):
        return 'SList#%d(%r)' % (self.oid, self.entries)


class SDict:
    def __init__(self, oid, birth, kind=dict):
        self.oid = oid
        self.birth = birth
        self.entries = []      # [key, guard, value]
        self.kind = kind
        self.readonly = False
        self.tail = None       # list of the values stored by generic loops under distinct unknown keys
        self.lazy = None       # older content, filled in when looked at: [(key, present, value)]
        self.make = None

    def __repr__(self):
        return 'SDict#%d(%r)' % (self.oid, self.entries)


class SSet:
    def __init__(self, oid, birth):
        self.oid = oid
        self.birth = birth
        self.entries = []      # [key, guard]
        self.kind = set


class Closure:
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node = node
        self.frame = frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.__name__ = name


class BMethod:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return 'BMethod(%s)' % getattr(self.func, '__name__', self.func)


class NMethod:
    """Method of a modelled builtin (list, dict, str, node)."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Opaque:
    """A value about which nothing is known (only allowed where it is not inspected)."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why
