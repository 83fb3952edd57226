"""The verifier's symbolic interpreter.

It executes the real ASTs of /repo/src (obtained from the imported functions' code objects) over
guarded symbolic values.  Control flow is merged: a path condition is a BDD guard, every write is
guarded, so one pass over a function covers all its paths.  Loops over arbitrary sequences are
handled by the map-loop rule (see exec_generic): the inferred invariant is that every list appended
to equals its value before the loop followed by the concatenation, over the elements visited so far,
of what the body appends for one element, and that everything else is unchanged.
"""
import ast
import builtins
import dataclasses
import enum
import inspect
import math
import operator
import re
import time
import types
import collections
import z3

from .bdd import BDD, FALSE, TRUE
from .values import *
from . import loopinv

IMMUT = (type(None), bool, int, str, float, bytes, complex)
MISSING = object()


class LoopCtx:
    def __init__(self, start_oid, seq):
        self.start_oid = start_oid
        self.seq = seq
        self.appends = {}
        self.reads = set()
        self.writes = {}


class Frame:
    def __init__(self, engine, fn, globs, closure_frame=None, name='?'):
        self.fn = fn
        self.globals = globs
        self.closure_frame = closure_frame
        self.locals = {}
        self.entry = engine.pc
        self.returns = []
        self.loops = []
        self.name = name
        self.yields = None
        self.node = None
        self.globalnames = set()
        self.nonlocals = set()
        self.cells = {}
        self.localnames = set()


class Loop:
    def __init__(self, generic):
        self.brk = FALSE
        self.cont = FALSE
        self.generic = generic
        self.exits = None       # search loop: where it is left


class SameList(ast.expr):
    """In the body of an index loop: its sequence is still the one it started with."""
    _fields = ('seq',)


def leaves(body):
    """The body of a loop contains a statement that leaves the loop."""
    def walk(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, ast.Return) or isinstance(n, ast.Break) and not inner:
            return True
        inner = inner or isinstance(n, (ast.For, ast.While))
        return any(walk(x, inner) for x in ast.iter_child_nodes(n))
    return any(walk(x, False) for x in body)


def mangle(name, fr):
    """Private-name mangling of class bodies (__x -> _Class__x)."""
    if not name.startswith('__') or name.endswith('__'):
        return name
    f = fr
    while f is not None:
        q = getattr(f.fn, '__qualname__', '').split('.')
        if len(q) > 1 and q[-2] != '<locals>':
            return '_%s%s' % (q[-2].lstrip('_'), name)
        f = f.closure_frame
    return name


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
    return out


def member_name(key, seq):
    """key is the name of the arbitrary element of an input list."""
    return isinstance(key, SStr) and len(key.parts) == 1 and isinstance(key.parts[0], StrVar) and \
        key.parts[0].name.startswith(seq.name + '[]')


class Engine:
    MAX_STEPS = 6_000_000
    MAX_DEPTH = 80
    MAX_WHILE = 60

    def __init__(self, prefixes=('/repo/src/',), bound=None):
        self.prefixes = tuple(prefixes)
        self.b = BDD()
        self.pc = TRUE
        self.handlers = [[]]
        self.prints = []
        self.cut = FALSE
        self.loops = []
        self._oid = 0
        self.steps = 0
        self.rewritten = {}
        self.depth = 0
        self.trees = {}
        self.fn_ast = {}
        self.contracts = {}        # function object -> handler(engine, args, kwargs)
        self.fill_failures = []
        self.streq_hook = None
        self.distinct_keys = False     # precondition: generic loops store under distinct keys
        self.native = {}           # callable -> handler
        self.contract_uses = collections.Counter()
        self.inlined = collections.Counter()
        self.bound = bound         # None: arbitrary sequences; k: at most k elements
        self.atom_cache = {}
        self.int_vars = []
        self.str_vars = []
        self.float_vars = []
        self.materialise = None    # set by domains
        self.attr_models = {}      # type -> handler for special values
        self.call_stack = []
        self.globals_written = {}
        self._ne_side = set()
        self.deadline = None

    # ------------------------------------------------------------ guards
    def AND(self, *g):
        return self.b.AND(*g)

    def new_oid(self):
        self._oid += 1
        return self._oid

    def atom(self, key, name, expr=None):
        v = self.atom_cache.get(key)
        if v is None:
            v = self.b.new_var(name, expr)
            self.atom_cache[key] = v
        return v

    def zatom(self, expr):
        """Guard for a z3 boolean expression."""
        e = z3.simplify(expr)
        if z3.is_true(e):
            return TRUE
        if z3.is_false(e):
            return FALSE
        if z3.is_not(e):
            return self.b.NOT(self.zatom(e.arg(0)))
        return self.atom(('z', e.get_id(), e.sexpr()), e.sexpr()[:60], e)

    def live(self, g):
        """g restricted to the path condition, FALSE if infeasible."""
        r = self.b.AND(self.pc, g)
        if r == FALSE:
            return FALSE
        if r != self.pc and self.b.has_theory(r) and not self.b.feasible(r):
            return FALSE
        return r

    def choice(self, n, name):
        """n disjoint covering guards."""
        if n == 1:
            return [TRUE]
        bits = max(1, (n - 1).bit_length())
        vs = [self.b.new_var('%s?%d' % (name, i)) for i in range(bits)]
        out = [FALSE] * n
        for code in range(1 << bits):
            g = TRUE
            for i in range(bits):
                g = self.b.AND(g, vs[i] if code >> i & 1 else self.b.NOT(vs[i]))
            k = code if code < n else code - (1 << (bits - 1))
            out[k] = self.b.OR(out[k], g)
        return out

    # ------------------------------------------------------------ unions
    def vkey(self, v):
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, (int, str, float, bytes)) or v is None:
            if isinstance(v, enum.Enum):
                return ('e', id(v))
            if isinstance(v, float) and v != v:
                return ('nan',)
            return (type(v).__name__, v)
        if isinstance(v, SStr):
            return ('ss', v.parts)
        if isinstance(v, SInt):
            return ('si', v.z.get_id(), v.z.sexpr() if False else None)
        if isinstance(v, tuple) and type(v) is tuple:
            return ('t',) + tuple(self.vkey(x) for x in v)
        if isinstance(v, BMethod):
            return ('bm', id(v.func), id(v.self))
        return ('id', id(v))

    def mkU(self, alts):
        flat = []
        for g, v in alts:
            if g == FALSE:
                continue
            if isinstance(v, U):
                for g2, v2 in v.alts:
                    g3 = self.b.AND(g, g2)
                    if g3 != FALSE:
                        flat.append((g3, v2))
            else:
                flat.append((g, v))
        if not flat:
            raise Dead()
        if len(flat) == 1:
            return flat[0][1]
        order, by = [], {}
        for g, v in flat:
            k = self.vkey(v)
            if k in by:
                by[k][0] = self.b.OR(by[k][0], g)
            else:
                by[k] = [g, v]
                order.append(k)
        if len(order) == 1:
            return by[order[0]][1]
        return U([(by[k][0], by[k][1]) for k in order])

    def split(self, v):
        """Feasible alternatives of v under the path condition: [(guard incl. pc, value)]."""
        if not isinstance(v, U):
            return [(self.pc, v)]
        out = []
        for g, x in v.alts:
            l = self.live(g)
            if l != FALSE:
                out.append((l, x))
        if not out:
            raise Dead()
        return out

    def simp(self, v):
        if not isinstance(v, U):
            return v
        s = self.split(v)
        if len(s) == 1:
            return s[0][1]
        return v if len(s) == len(v.alts) else U(s)

    def over(self, v, fn):
        """Apply fn to every alternative of v, merging results."""
        alts = self.split(v)
        if len(alts) == 1:
            return fn(alts[0][1])
        out = FALSE
        res = []
        for g, x in alts:
            self.pc = g
            try:
                r = fn(x)
            except Dead:
                continue
            if self.pc == FALSE:
                continue
            res.append((self.pc, r))
            out = self.b.OR(out, self.pc)
        self.pc = out
        if out == FALSE:
            raise Dead()
        return self.mkU(res)

    def over2(self, a, b, fn):
        return self.over(a, lambda x: self.over(b, lambda y: fn(x, y)))

    def from_guard(self, g):
        if g == TRUE:
            return True
        if g == FALSE:
            return False
        if self.b.implies(self.pc, g):
            return True
        if self.b.AND(self.pc, g) == FALSE:
            return False
        return U([(g, True), (self.b.NOT(g), False)])

    def merge(self, g, new, old, scope):
        """Value that is `new` under g and `old` elsewhere, within scope."""
        if self.b.implies(scope, g):
            return new
        alts = []
        for h, v in (new.alts if isinstance(new, U) else [(TRUE, new)]):
            alts.append((self.b.AND(g, h), v))
        ng = self.b.DIFF(scope, g)
        for h, v in (old.alts if isinstance(old, U) else [(TRUE, old)]):
            alts.append((self.b.AND(ng, h), v))
        return self.mkU([a for a in alts if a[0] != FALSE])

    def rel(self, g, birth):
        return TRUE if self.b.implies(birth, g) else g

    # ------------------------------------------------------------ raising
    def throw(self, cls, *args, obj=None):
        if obj is None:
            obj = self.new_obj(cls)
            obj.args = args
        self.handlers[-1].append((self.pc, obj, self.where()))
        self.pc = FALSE
        raise Dead()

    def throw_if(self, g, cls, *args):
        """Raise under guard g, continue elsewhere."""
        l = self.live(g)
        if l == FALSE:
            return
        obj = self.new_obj(cls)
        obj.args = args
        self.handlers[-1].append((l, obj, self.where()))
        self.pc = self.b.DIFF(self.pc, l)
        if self.pc == FALSE:
            raise Dead()

    def where(self):
        return ' < '.join('%s:%s' % (f.name, getattr(f, 'line', '?')) for f in reversed(self.call_stack[-4:]))

    # ------------------------------------------------------------ heap
    def new_obj(self, cls, name=None):
        o = SObj(cls, self.new_oid(), self.pc, name)
        if self.loops:
            o.owner = self.loops[-1].seq       # created for one element of the sequence
        return o

    def new_list(self, values=(), kind=list):
        l = SList(self.new_oid(), self.pc, [(TRUE, v) for v in values])
        l.kind = kind
        if self.loops:
            l.owner = self.loops[-1].seq
        return l

    def new_dict(self, items=()):
        d = SDict(self.new_oid(), self.pc)
        for k, v in items:
            d.entries.append([k, TRUE, v])
        return d

    def loop_outer(self, o):
        """The innermost active generic loop for which o is an outer object, or None."""
        for ctx in reversed(self.loops):
            if o.oid < ctx.start_oid:
                owner = getattr(o, 'owner', None)
                while owner is not None:
                    if owner is ctx.seq:
                        return None
                    owner = getattr(owner, 'parent_owner', None)
                return ctx
        return None

    def set_field(self, o, name, v):
        if o.lazy is not None and name == 'parent':
            # a back link to the container: does not inspect the object
            o.fields[name] = self.merge(self.pc, v, o.fields.get(name), o.birth)
            return
        self.materialise_obj(o)
        if name != 'parent':
            o.virgin = False
        if self.loops:
            for ctx in self.loops:
                if o.oid < ctx.start_oid:
                    owner = getattr(o, 'owner', None)
                    if owner is not None and any(owner is c.seq for c in self.loops):
                        break
                    ctx.writes.setdefault((o.oid, name), (o, o.fields.get(name, UNDEF)))
        old = o.fields.get(name, UNDEF)
        if old is UNDEF and o.copy_of is not None:
            old = self.read_field_raw(o, name)
        o.fields[name] = self.merge(self.pc, v, old, o.birth)

    def read_field_raw(self, o, name):
        """Field value or UNDEF (class attributes not consulted)."""
        if name == 'parent' and name in o.fields:
            return o.fields[name]
        if name == 'name':
            src = o
            while src.copy_of is not None and src.lazy is None and name not in src.fields:
                src = src.copy_of
            if src.lazy is not None and src.early is not None:
                v = src.early(src)
                if v is not None:
                    return v
        self.materialise_obj(o)
        v = o.fields.get(name, UNDEF)
        if v is UNDEF and o.copy_of is not None:
            return self.read_field_raw(o.copy_of, name)
        return v

    def materialise_obj(self, o):
        if o.lazy is not None:
            lazy = o.lazy
            o.lazy = None
            lazy(o)
        elif o.copy_of is not None:
            self.materialise_obj(o.copy_of)

    def field_names(self, o):
        self.materialise_obj(o)
        names = []
        if o.copy_of is not None:
            names = list(self.field_names(o.copy_of))
        for n in o.fields:
            if n not in names:
                names.append(n)
        return names

    # lists
    def list_append(self, l, v):
        g = self.pc
        for ctx in self.loops:
            if l.oid < ctx.start_oid:
                owner = getattr(l, 'owner', None)
                if owner is not None and any(owner is c.seq for c in self.loops):
                    break
                # innermost loops nest: the outermost loop l is outside of records at its own end
                inner = [c for c in self.loops if l.oid < c.start_oid][-1]
                ent = inner.appends.setdefault(l.oid, (l, []))
                ent[1].append((g, v))
                return
        l.entries.append((self.rel(g, l.birth), v))

    def note_read(self, l):
        for ctx in self.loops:
            if l.oid < ctx.start_oid:
                ctx.reads.add(l.oid)
                if l.oid in ctx.appends:
                    raise Unsupported('list read while appended to in a generic loop')

    def list_entries(self, l):
        """Entries [(guard, value) | Seg] of a list-like value (snapshot)."""
        if isinstance(l, SList):
            self.note_read(l)
            return list(l.entries)
        if isinstance(l, (list, tuple, set, frozenset, range, collections.deque)):
            return [(TRUE, x) for x in l]
        if isinstance(l, dict):
            return [(TRUE, x) for x in list(l)]
        if isinstance(l, (types.GeneratorType, type({}.keys()), type({}.values()), type({}.items()), zip, enumerate, map, filter, reversed)):
            return [(TRUE, x) for x in l]
        if isinstance(l, str):
            return [(TRUE, x) for x in l]
        if isinstance(l, SDict):
            if l.tail is not None or l.lazy is not None:
                raise Unsupported('keys of a dict of unknown content')
            return [(g, k) for k, g, _ in l.entries]
        if isinstance(l, SSet):
            return [(g, k) for k, g in l.entries]
        if isinstance(l, type) and issubclass(l, enum.Enum):
            return [(TRUE, x) for x in l]
        if isinstance(l, SObj):
            m = self.class_attr(l.cls, '__iter__')
            if m is not MISSING:
                r = self.call(BMethod(m, l), [], [])
                if isinstance(r, U):
                    raise Unsupported('union iterator')
                return self.list_entries(r)
            if self.class_attr(l.cls, '__getitem__') is MISSING:
                self.throw(TypeError, '%s object is not iterable' % l.cls.__name__)
                return []
        h = self.attr_models.get(type(l))
        if h is not None and hasattr(h, 'iterate'):
            return h.iterate(self, l)
        raise Unsupported('iteration over %s' % type(l).__name__)

    # ------------------------------------------------------------ truth / equality
    def seq_nonempty(self, entries):
        if any(isinstance(x, Seg) and x.src.group is not None and not isinstance(y, Seg) and
               not self.b.implies(self.b.AND(self.pc, x.src.nonempty), y[0]) for x in entries if isinstance(x, Seg) for y in x.entries):
            if self.loops:
                raise Unsupported('search inside a generic loop')
            return self.found(entries, lambda g, y: g)
        g = FALSE
        for e in entries:
            if isinstance(e, Seg):
                inner = FALSE
                for x in e.entries:
                    if isinstance(x, Seg):
                        inner = self.b.OR(inner, self.seq_nonempty([x]))
                    else:
                        inner = self.b.OR(inner, x[0])
                if self.b.implies(self.b.AND(self.pc, e.src.nonempty), inner):
                    g = self.b.OR(g, e.src.nonempty)
                else:
                    from .builtin_models import uniform
                    some = self.b.AND(e.src.nonempty, inner)
                    if not uniform(self, inner, e.src):
                        # some element satisfies the filter: true if the arbitrary element does
                        other = self.atom(('some', e.src.name, inner), 'some(%s,%d)' % (e.src.name, inner))
                        some = self.b.OR(some, self.b.AND(e.src.nonempty, other))
                    g = self.b.OR(g, some)
            else:
                g = self.b.OR(g, e[0])
        return g

    def truth1(self, v):
        if isinstance(v, IMMUT) or isinstance(v, (tuple, list, dict, set, frozenset)):
            return TRUE if v else FALSE
        if isinstance(v, SStr):
            g = FALSE
            for p in v.parts:
                if isinstance(p, StrVar) and not p.nonempty:
                    g = self.b.OR(g, self.nonempty_atom(p))
                elif isinstance(p, Fn):
                    g = self.b.OR(g, self.truth1(p.arg))
                else:
                    return TRUE
            return g
        if isinstance(v, SInt):
            return self.zatom(v.z != 0) if v.some is None else v.some
        if isinstance(v, SFloat):
            return self.zatom(v.z != 0)
        if isinstance(v, SList):
            return self.seq_nonempty(self.list_entries(v))
        if isinstance(v, SDict) and v.lazy is not None:
            raise Unsupported('size of a dict of unknown content')
        if isinstance(v, SDict) and v.tail is not None:
            return self.b.OR(*[e[1] for e in v.entries], self.seq_nonempty(self.list_entries(v.tail)))
        if isinstance(v, SDict):
            return self.b.OR(*[e[1] for e in v.entries]) if v.entries else FALSE
        if isinstance(v, SSet):
            return self.b.OR(*[e[1] for e in v.entries]) if v.entries else FALSE
        if isinstance(v, SObj):
            m = self.class_attr(v.cls, '__bool__')
            if m is not MISSING:
                return self.truth(self.call(BMethod(m, v), [], []))
            m = self.class_attr(v.cls, '__len__')
            if m is not MISSING:
                return self.truth(self.call(BMethod(m, v), [], []))
            return TRUE
        if isinstance(v, Opaque):
            raise Unsupported('truth of opaque value (%s)' % v.why)
        h = self.attr_models.get(type(v))
        if h is not None and hasattr(h, 'truth'):
            return h.truth(self, v)
        if isinstance(v, Poison):
            raise Unsupported('loop-carried variable %s' % v.name)
        return TRUE

    def nonempty_atom(self, p):
        return self.atom(('ne', p.name), 'nonempty(%s)' % p.name, p.z != z3.StringVal(''))

    def truth(self, v):
        if not isinstance(v, U):
            return self.truth1(v)
        g = FALSE
        pc0 = self.pc
        out = FALSE
        for h, x in self.split(v):
            self.pc = h
            try:
                t = self.truth1(x)
            except Dead:
                continue
            g = self.b.OR(g, self.b.AND(self.pc, t))
            out = self.b.OR(out, self.pc)
        self.pc = out
        if out == FALSE:
            raise Dead()
        # express relative to pc0 so that the guard stays small
        return g

    def z_str(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SStr):
            ps = []
            for p in v.parts:
                if isinstance(p, str):
                    ps.append(z3.StringVal(p))
                elif isinstance(p, StrVar):
                    if p.nonempty and p.name not in self._ne_side:
                        self._ne_side.add(p.name)
                        self.b.side.append(z3.Length(p.z) > 0)
                    ps.append(p.z)
                elif isinstance(p, IntText) and p.fmt == 'd':
                    i = p.i.z
                    ps.append(z3.If(i < 0, z3.Concat(z3.StringVal('-'), z3.IntToStr(-i)), z3.IntToStr(i)))
                else:
                    return None
            return ps[0] if len(ps) == 1 else z3.Concat(*ps)
        return None

    def eq(self, a, b):
        """Guard under which a == b (Python equality)."""
        if isinstance(a, U):
            g = FALSE
            pc0 = self.pc
            for h, x in self.split(a):
                self.pc = h
                try:
                    g = self.b.OR(g, self.b.AND(h, self.eq(x, b)))
                finally:
                    self.pc = pc0
            return g
        if isinstance(b, U):
            g = FALSE
            pc0 = self.pc
            for h, x in self.split(b):
                self.pc = h
                try:
                    g = self.b.OR(g, self.b.AND(h, self.eq(a, x)))
                finally:
                    self.pc = pc0
            return g
        if a is b:
            return TRUE
        sa, sb = isinstance(a, SStr), isinstance(b, SStr)
        if sa or sb:
            if not ((sa or isinstance(a, str)) and (sb or isinstance(b, str))):
                return FALSE
            if sa and sb and a.parts == b.parts:
                return TRUE
            return self.str_eq(a, b)
        num = (int, float, SInt, SFloat)
        if isinstance(a, (SInt, SFloat)) or isinstance(b, (SInt, SFloat)):
            if not (isinstance(a, num) and isinstance(b, num)):
                return FALSE
            return self.num_cmp('==', a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return self.b.AND(*[self.eq(x, y) for x, y in zip(a, b)]) if a else TRUE
        if isinstance(a, SObj) and isinstance(b, SObj):
            if dataclasses.is_dataclass(a.cls) and a.cls is b.cls and a.cls.__eq__ is not object.__eq__:
                g = TRUE
                for f in dataclasses.fields(a.cls):
                    g = self.b.AND(g, self.eq(self.getattr1(a, f.name), self.getattr1(b, f.name)))
                return g
            m = self.class_attr(a.cls, '__eq__')
            if isinstance(m, types.FunctionType):
                return self.truth(self.call(BMethod(m, a), [b], []))
            return FALSE
        if isinstance(a, SList) or isinstance(b, SList):
            if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
                ea, eb = self.list_entries(a), self.list_entries(b)
                if not any(isinstance(e, Seg) or e[0] != TRUE for e in ea + eb):
                    if len(ea) != len(eb):
                        return FALSE
                    return self.b.AND(*[self.eq(x[1], y[1]) for x, y in zip(ea, eb)]) if ea else TRUE
                if not eb:
                    return self.b.NOT(self.seq_nonempty(ea))
                if not ea:
                    return self.b.NOT(self.seq_nonempty(eb))
                raise Unsupported('list equality')
            return FALSE
        if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
            raise Unsupported('equality of opaque value')
        for x in (a, b):
            if isinstance(x, (SObj, SDict, SSet, Closure, BMethod, NMethod)):
                if isinstance(x, BMethod) and isinstance(a, BMethod) and isinstance(b, BMethod):
                    return TRUE if a.func is b.func and a.self is b.self else FALSE
                if isinstance(a, (SDict, SSet)) and isinstance(b, (SDict, SSet, dict, set)):
                    raise Unsupported('dict/set equality')
                return FALSE
        h = self.attr_models.get(type(a)) or self.attr_models.get(type(b))
        if h is not None:
            if hasattr(h, 'eq'):
                return h.eq(self, a, b)
            return FALSE
        try:
            return TRUE if a == b else FALSE
        except Exception as e:
            raise Unsupported('native equality: %s' % e)

    def trim_prefix(self, a, b):
        """Both texts without their common prefix (parts only)."""
        pa = list(a.parts) if isinstance(a, SStr) else [a] if a else []
        pb = list(b.parts) if isinstance(b, SStr) else [b] if b else []
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < min(len(x), len(y)) and x[n] == y[n]:
                    n += 1
                if not n:
                    break
                pa[0:1] = [x[n:]] if len(x) > n else []
                pb[0:1] = [y[n:]] if len(y) > n else []
            elif not isinstance(x, str) and not isinstance(y, str) and x == y:
                pa.pop(0)
                pb.pop(0)
            else:
                break
        return mkstr(pa), mkstr(pb)

    def str_eq(self, a, b):
        if self.streq_hook is not None:
            r = self.streq_hook(self, a, b)
            if r is not None:
                return r
        pa = a.parts if isinstance(a, SStr) else ((a,) if a else ())
        pb = b.parts if isinstance(b, SStr) else ((b,) if b else ())
        # trim common literal prefix/suffix
        pa, pb = list(pa), list(pb)
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return FALSE
                pa[0:1] = [x[n:]] if len(x) > n else []
                pb[0:1] = [y[n:]] if len(y) > n else []
            elif not isinstance(x, str) and not isinstance(y, str) and x == y:
                pa.pop(0)
                pb.pop(0)
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return FALSE
                pa[-1:] = [x[:-n]] if len(x) > n else []
                pb[-1:] = [y[:-n]] if len(y) > n else []
            elif not isinstance(x, str) and not isinstance(y, str) and x == y:
                pa.pop()
                pb.pop()
            else:
                break
        if not pa and not pb:
            return TRUE
        if not pa or not pb:
            rest = pa or pb
            return self.b.NOT(self.truth1(mkstr(rest))) if not isinstance(mkstr(rest), str) else FALSE
        sa, sb = mkstr(pa), mkstr(pb)
        if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], IntText) and isinstance(pb[0], IntText) and pa[0].fmt == pb[0].fmt:
            return self.num_cmp('==', pa[0].i, pb[0].i)
        for p, q in ((pa, pb), (pb, pa)):
            if len(p) == 1 and isinstance(p[0], IntText) and p[0].fmt == 'd' and all(isinstance(x, str) for x in q):
                t = ''.join(q)
                if not re.fullmatch(r'0|-?[1-9][0-9]*', t):
                    return FALSE
                return self.num_cmp('==', p[0].i, int(t))
            if len(p) == 1 and isinstance(p[0], FloatText) and all(isinstance(x, str) for x in q):
                t = ''.join(q)
                if not re.match(r'[-+0-9.InN]', t):
                    return FALSE
        za, zb = self.z_str(sa), self.z_str(sb)
        if za is not None and zb is not None:
            return self.zatom(za == zb)
        ka, kb = sorted([repr(sa), repr(sb)])
        return self.atom(('streq', ka, kb), 'eq(%s,%s)' % (ka[:20], kb[:20]))

    def zn(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.z
        if isinstance(v, SFloat):
            return v.z
        if isinstance(v, float):
            if math.isnan(v):
                raise Unsupported('NaN compared with symbolic number')
            if math.isinf(v):
                return z3.RealVal(2 ** 1024 if v > 0 else -2 ** 1024)
            return z3.RealVal(repr(v)) if 'e' not in repr(v) else z3.RealVal(str(__import__('fractions').Fraction(v)))
        raise Unsupported('number %r' % (v,))

    def finite(self, f):
        """Guard that the float f is finite; infinities are the reals +-2**1024."""
        k = ('finite', f.name)
        g = self.atom_cache.get(k)
        if g is None:
            inf = z3.RealVal(2 ** 1024)
            g = self.atom(k, 'finite(%s)' % f.name, z3.And(f.z < inf, f.z > -inf))
            self.b.side.append(z3.And(f.z <= inf, f.z >= -inf))
        return g

    def num_cmp(self, op, a, b):
        if isinstance(a, SFloat) and isinstance(b, SFloat) and a is b:
            return TRUE if op in ('==', '<=', '>=') else FALSE
        if isinstance(a, SInt) and a.origin is not None and a.origin is b:
            return TRUE if op in ('==', '<=', '>=') else FALSE
        if isinstance(b, SInt) and b.origin is not None and b.origin is a:
            return TRUE if op in ('==', '<=', '>=') else FALSE
        if isinstance(b, SInt) and b.some is not None and isinstance(a, int):
            return self.num_cmp({'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op), b, a)
        if isinstance(a, SInt) and a.some is not None and isinstance(b, int):
            some = self.length_test(op, b, a.some)
            if some is not None:
                return some
        for v in (a, b):
            if isinstance(v, SFloat) and v.of_int is None:
                self.finite(v)
        x, y = self.zn(a), self.zn(b)
        if x.sort() != y.sort():
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            if y.sort() == z3.IntSort():
                y = z3.ToReal(y)
        f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
             '>': operator.gt, '>=': operator.ge}[op]
        if op == '!=':
            return self.b.NOT(self.zatom(x == y))
        # canonicalise so that related comparisons share atoms
        if op == '>=':
            return self.b.NOT(self.zatom(x < y))
        if op == '>':
            return self.b.NOT(self.zatom(x <= y))
        return self.zatom(f(x, y))

    def length_test(self, op, n, some):
        """A length compared with n, where that only asks if the list is empty."""
        if op == '>=' or op == '<':
            n, op = n - 1, '>' if op == '>=' else '<='
        if n < 0:
            return FALSE if op in ('==', '<=') else TRUE
        if n == 0:
            return self.b.NOT(some) if op in ('==', '<=') else some
        return None

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if c is object:
                continue
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def getattr_(self, v, name):
        return self.over(v, lambda x: self.getattr1(x, name))

    def getattr1(self, o, name, default=MISSING):
        if isinstance(o, SObj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                return self.call(BMethod(ca.fget, o), [], [])
            if name.startswith('__') and name.endswith('__') and name != '__dict__' or \
                    o.lazy is not None and isinstance(ca, types.FunctionType):
                return self.class_value(o, ca, name, default)
            fv = self.read_field_raw(o, name)
            if fv is not UNDEF:
                if isinstance(fv, U) and any(x is UNDEF for _, x in fv.alts):
                    def f(x):
                        if x is UNDEF:
                            return self.class_value(o, ca, name, default)
                        return x
                    return self.over(fv, f)
                return self.simp(fv)
            return self.class_value(o, ca, name, default)
        if isinstance(o, SuperV):
            mro = o.obj.cls.__mro__ if isinstance(o.obj, SObj) else o.obj.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    ca = c.__dict__[name]
                    if isinstance(ca, types.FunctionType):
                        return BMethod(ca, o.obj)
                    if isinstance(ca, classmethod):
                        return BMethod(ca.__func__, o.obj.cls if isinstance(o.obj, SObj) else o.obj)
                    if isinstance(ca, staticmethod):
                        return ca.__func__
                    if isinstance(ca, property):
                        return self.call(BMethod(ca.fget, o.obj), [], [])
                    if c is object:
                        return NMethod(o.obj, 'object.' + name)
                    return ca
            raise Unsupported('super().%s' % name)
        if isinstance(o, type) and o.__module__.split('.')[0] in self.repo_modules():
            for c in o.__mro__:
                if name in c.__dict__ and c is not object:
                    ca = c.__dict__[name]
                    if isinstance(ca, classmethod):
                        return BMethod(ca.__func__, o)
                    if isinstance(ca, staticmethod):
                        return ca.__func__
                    break
            if hasattr(o, name):
                return getattr(o, name)
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(o, (SList, SDict, SSet, SStr)):
            kind = o.kind if not isinstance(o, SStr) else str
            if hasattr(kind, name):
                return NMethod(o, name)
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(o, (list, dict, set)):
            return NMethod(o, name)
        if isinstance(o, str):
            if hasattr(o, name):
                return NMethod(o, name)
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(o, (SInt, SFloat)):
            k = int if isinstance(o, SInt) else float
            if hasattr(k, name):
                return NMethod(o, name)
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        h = self.attr_models.get(type(o))
        if h is not None:
            r = h.getattr(self, o, name)
            if r is not MISSING:
                return r
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(o, (Opaque, Poison)):
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, (BMethod, Closure)):
            if name == '__name__':
                return getattr(o.func if isinstance(o, BMethod) else o, '__name__')
            if name == '__self__' and isinstance(o, BMethod):
                return o.self
            if name == '__func__' and isinstance(o, BMethod):
                return o.func
            if name == '__doc__':
                return None
            raise Unsupported('attribute %s of function' % name)
        try:
            return getattr(o, name)
        except AttributeError:
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)

    def class_value(self, o, ca, name, default=MISSING):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            return self.vars_of(o)
        if ca is MISSING:
            if o.args is not None and name == 'args':
                return tuple(o.args)
            if issubclass(o.cls, BaseException) and name in ('__cause__', '__context__', 'args', 'with_traceback', 'add_note'):
                return Opaque('exception attribute')
            if default is not MISSING:
                return default
            ga = self.class_attr(o.cls, '__getattr__')
            if ga is not MISSING:
                return self.call(BMethod(ga, o), [name], [])
            if hasattr(object, name):
                return NMethod(o, 'object.' + name)
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.__name__, name))
        if isinstance(ca, types.FunctionType):
            return BMethod(ca, o)
        if isinstance(ca, classmethod):
            return BMethod(ca.__func__, o.cls)
        if isinstance(ca, staticmethod):
            return ca.__func__
        if isinstance(ca, types.MemberDescriptorType):
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        return ca

    _repo_mods = None

    def repo_modules(self):
        return ('autosar', 'vfspec', 'cfile')

    def vars_of(self, o):
        d = SDict(self.new_oid(), self.pc)
        d.readonly = True
        for n in self.field_names(o):
            v = self.read_field_raw(o, n)
            g = TRUE
            if isinstance(v, U):
                live = [(h, x) for h, x in v.alts if x is not UNDEF]
                if len(live) != len(v.alts):
                    g = self.b.OR(*[h for h, _ in live])
                    v = self.mkU(live)
            d.entries.append([n, g, v])
        return d

    def setattr_(self, v, name, val):
        def f(o):
            if isinstance(o, SObj):
                ca = self.class_attr(o.cls, name)
                if isinstance(ca, property):
                    if ca.fset is None:
                        self.throw(AttributeError, name)
                    self.call(BMethod(ca.fset, o), [val], [])
                    return None
                sa = self.class_attr(o.cls, '__setattr__')
                if isinstance(sa, types.FunctionType):
                    self.call(BMethod(sa, o), [name, val], [])
                    return None
                self.set_field(o, name, val)
                return None
            h = self.attr_models.get(type(o))
            if h is not None and hasattr(h, 'setattr'):
                h.setattr(self, o, name, val)
                return None
            if o is None or isinstance(o, (str, int, float, SStr, SInt)):
                self.throw(AttributeError, name)
            raise Unsupported('attribute write on %s' % type(o).__name__)
        self.over(v, f)

    # ------------------------------------------------------------ dicts / sets
    def dict_get(self, d, key):
        """Value with MISSING alternatives."""
        if isinstance(key, U):
            return self.over(key, lambda k: self.dict_get(d, k))
        if isinstance(d, dict) or isinstance(d, types.MappingProxyType):
            if isinstance(key, (SStr, SInt)):
                alts, rest = [], TRUE
                for k, v in d.items():
                    g = self.b.AND(rest, self.eq(key, k))
                    if g != FALSE:
                        alts.append((g, v))
                        rest = self.b.DIFF(rest, g)
                alts.append((rest, MISSING))
                return self.mkU(alts)
            try:
                return d.get(key, MISSING)
            except TypeError:
                self.throw(TypeError, 'unhashable')
        if self.loops:
            self.note_dict_read(d)
        if d.tail is not None:
            # the arbitrary element's key: other elements have other keys (distinct_keys), and the
            # element itself stored nothing under the present guard
            seq = self.loops[-1].seq if self.loops else None
            if self.distinct_keys and seq is not None and not d.entries and member_name(key, seq) and \
                    all((s is seq or s.name[:-1] == seq.name[:-1] and s.name.endswith('.items0')) and member_name(k, s) and (s is not seq or not self.b.feasible(self.b.AND(self.pc, g))) for g, k, s in d.tail_keys):
                return MISSING
            raise Unsupported('lookup in a dict filled in a generic loop')
        alts, rest = [], TRUE
        for k, g, v in reversed(d.entries):
            m = self.b.AND(rest, g, self.eq(key, k))
            if m != FALSE:
                alts.append((m, v))
                rest = self.b.DIFF(rest, m)
                if rest == FALSE:
                    break
        if rest != FALSE and d.lazy is not None:
            for k, g, v in d.lazy:
                m = self.b.AND(rest, self.eq(key, k))
                if m != FALSE:
                    alts.append((self.b.AND(m, g), v))
                    alts.append((self.b.DIFF(m, g), MISSING))
                    rest = self.b.DIFF(rest, m)
            if rest != FALSE and self.b.feasible(rest):
                if not isinstance(key, (str, SStr)):
                    raise Unsupported('lookup of %s' % type(key).__name__)
                g, v = d.make(d, key)
                alts.append((self.b.AND(rest, g), v))
                rest = self.b.DIFF(rest, g)
        if rest != FALSE:
            alts.append((rest, MISSING))
        return self.mkU([(g, v) for g, v in alts if g != FALSE])

    def note_dict_read(self, d):
        for ctx in self.loops:
            if getattr(d, 'oid', 1 << 60) < ctx.start_oid and getattr(d, 'gwritten', None) is ctx:
                raise Unsupported('dict read while written in a generic loop')

    def dict_set(self, d, key, val):
        if isinstance(key, U):
            self.over(key, lambda k: self.dict_set(d, k, val))
            return
        if isinstance(d, dict):
            raise Unsupported('write to a module-level dict')
        if getattr(d, 'readonly', False):
            raise Unsupported('write to __dict__')
        for ctx in self.loops:
            if d.oid < ctx.start_oid and self.distinct_keys and not d.entries:
                if d.tail is None:
                    d.tail = SList(d.oid, d.birth, [])
                    d.tail_keys = []
                d.tail_keys.append((self.pc, key, ctx.seq))
                self.list_append(d.tail, val)
                return
            if d.oid < ctx.start_oid:
                raise Unsupported('dict written in a generic loop')
        if d.tail is not None:
            raise Unsupported('store in a dict filled in a generic loop')
        pc = self.pc
        covered = FALSE
        for e in d.entries:
            m = self.b.AND(pc, e[1], self.eq(key, e[0]))
            if m != FALSE:
                e[2] = self.merge(m, val, e[2], self.b.AND(d.birth, e[1])) if not self.b.implies(self.b.AND(d.birth, e[1]), m) else val
                covered = self.b.OR(covered, m)
        rest = self.b.DIFF(pc, covered)
        if rest != FALSE and self.b.feasible(rest):
            # reuse an entry with the same concrete key that is absent under rest
            for e in d.entries:
                if not isinstance(key, (SStr, SInt)) and self.eq(key, e[0]) == TRUE and not isinstance(e[0], (SStr, SInt)) \
                        and e is d.entries[-1]:
                    old = e[1]
                    e[2] = self.mkU([(self.b.AND(old, TRUE), e[2]), (rest, val)]) if self.b.AND(old, rest) == FALSE else e[2]
                    e[1] = self.rel(self.b.OR(old, rest), d.birth)
                    return
            d.entries.append([key, self.rel(rest, d.birth), val])

    def dict_del(self, d, key, must=True):
        if isinstance(key, U):
            self.over(key, lambda k: self.dict_del(d, k, must))
            return
        covered = FALSE
        if d.lazy is not None:
            raise Unsupported('deletion from a dict of unknown content')
        for ctx in self.loops:
            if d.oid < ctx.start_oid:
                raise Unsupported('dict written in a generic loop')
        for e in list(d.entries):
            m = self.b.AND(self.pc, e[1], self.eq(key, e[0]))
            if m != FALSE:
                covered = self.b.OR(covered, m)
        if must:
            self.throw_if(self.b.NOT(covered), KeyError, key)
        for e in list(d.entries):
            m = self.b.AND(self.pc, e[1], self.eq(key, e[0]))
            if m != FALSE:
                e[1] = self.b.DIFF(self.b.AND(d.birth, e[1]) if e[1] == TRUE else e[1], m)
                if e[1] == FALSE:
                    d.entries.remove(e)

    def contains(self, c, x):
        """Guard of `x in c`."""
        if isinstance(c, U):
            g = FALSE
            out = FALSE
            for h, y in self.split(c):
                self.pc = h
                try:
                    r = self.contains(y, x)
                except Dead:
                    continue
                g = self.b.OR(g, self.b.AND(self.pc, r))
                out = self.b.OR(out, self.pc)
            self.pc = out
            if out == FALSE:
                raise Dead()
            return g
        if isinstance(x, U):
            g = FALSE
            for h, y in self.split(x):
                g = self.b.OR(g, self.b.AND(h, self.contains(c, y)))
            return g
        sym = isinstance(x, (SStr, SInt, SFloat, SObj, SList, SDict, tuple))
        if isinstance(c, str):
            if isinstance(x, str):
                return TRUE if x in c else FALSE
            if isinstance(x, SStr):
                return self.str_contains(c, x)
            self.throw(TypeError, 'in <string>')
        if isinstance(c, SStr):
            return self.str_contains(c, x)
        if isinstance(c, (dict, types.MappingProxyType)):
            return self.b.NOT(self._missing(self.dict_get(c, x)))
        if isinstance(c, SDict):
            return self.b.NOT(self._missing(self.dict_get(c, x)))
        if isinstance(c, SSet):
            g = FALSE
            for k, h in c.entries:
                g = self.b.OR(g, self.b.AND(h, self.eq(x, k)))
            return g
        if isinstance(c, (list, tuple, set, frozenset, range)) or isinstance(c, SList):
            if isinstance(c, (set, frozenset)) and not sym:
                return TRUE if x in c else FALSE
            es = self.list_entries(c)
            if any(isinstance(y, Seg) and (y.src.group is None or self.loops) for y in es):
                raise Unsupported('membership in an arbitrary sequence')
            return self.found(es, lambda g, y: self.b.AND(g, self.eq(x, y)))
        if isinstance(c, type) and issubclass(c, enum.Enum):
            return TRUE if isinstance(x, c) else FALSE
        if isinstance(c, SObj):
            m = self.class_attr(c.cls, '__contains__')
            if m is not MISSING:
                return self.truth(self.call(BMethod(m, c), [x], []))
        h = self.attr_models.get(type(c))
        if h is not None and hasattr(h, 'contains'):
            return h.contains(self, c, x)
        if c is None or isinstance(c, (int, SInt)):
            self.throw(TypeError, 'not iterable')
        raise Unsupported('membership in %s' % type(c).__name__)

    def _missing(self, v):
        if v is MISSING:
            return TRUE
        if isinstance(v, U):
            return self.b.OR(*[g for g, x in v.alts if x is MISSING]) if any(x is MISSING for _, x in v.alts) else FALSE
        return FALSE

    def str_contains(self, c, x):
        zc, zx = self.z_str(c), self.z_str(x)
        if isinstance(x, str) and isinstance(c, SStr):
            for p in c.parts:
                if isinstance(p, str) and x in p:
                    return TRUE
            if x == '/' and all(isinstance(p, (str, IntText)) or getattr(p, 'ident', False) for p in c.parts):
                return FALSE
        if zc is not None and zx is not None:
            return self.zatom(z3.Contains(zc, zx))
        return self.atom(('contains', repr(c), repr(x)), 'contains')

    # ------------------------------------------------------------ functions
    def function_node(self, fn):
        code = fn.__code__
        r = self.fn_ast.get(code)
        if r is not None:
            return r
        fname = code.co_filename
        if not fname.startswith(self.prefixes):
            return None
        idx = self.trees.get(fname)
        if idx is None:
            tree = ast.parse(open(fname, encoding='utf-8').read())
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                    idx.setdefault((line, n.name), n)
                elif isinstance(n, ast.Lambda):
                    idx.setdefault((n.lineno, '<lambda>'), []).append(n)
            self.trees[fname] = idx
        n = idx.get((code.co_firstlineno, code.co_name))
        if isinstance(n, list):
            if len(n) != 1:
                n = self.pick_lambda(n, code)
            else:
                n = n[0]
        if n is None:
            return None
        self.fn_ast[code] = n
        return n

    def pick_lambda(self, nodes, code):
        for (l, el, c, ec) in code.co_positions():
            if c is not None and c > 0:
                for n in nodes:
                    if n.body.lineno == l and n.body.col_offset == c:
                        return n
        cands = [n for n in nodes if [a.arg for a in n.args.args] == list(code.co_varnames[:code.co_argcount])]
        pos = [p for p in code.co_positions() if p[0] is not None and p[2]]
        for n in cands:
            if all(p[2] >= n.col_offset and p[3] <= n.end_col_offset for p in pos if p[0] == n.lineno):
                return n
        raise Unsupported('ambiguous lambda')

    def call(self, f, args, kwargs):
        """kwargs: list of (name, guard, value)."""
        if isinstance(f, U):
            return self.over(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, BMethod):
            if f.func in self.contracts if isinstance(f.func, types.FunctionType) else False:
                r = self.contracts[f.func](self, [f.self] + list(args), kwargs)
                if r is not NotImplemented:
                    self.contract_uses[f.func.__qualname__] += 1
                    return r
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, NMethod):
            from . import builtin_models
            return builtin_models.call_method(self, f.obj, f.name, list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            h = self.contracts.get(f)
            if h is not None:
                r = h(self, list(args), kwargs)
                if r is not NotImplemented:
                    self.contract_uses[f.__qualname__] += 1
                    return r
            h = self.native.get(f)
            if h is not None:
                return h(self, list(args), kwargs)
            node = self.function_node(f)
            if node is not None:
                return self.call_python(f, node, list(args), kwargs)
            if isinstance(getattr(f, '__wrapped__', None), types.FunctionType) and self.function_node(f.__wrapped__) is not None:
                # functools.lru_cache / cache / wraps around repository code
                return self.call(f.__wrapped__, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, types.MethodType):
            return self.call(BMethod(f.__func__, f.__self__), args, kwargs)
        try:
            h = self.native.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, list(args), kwargs)
        if hasattr(f, '__wrapped__') and isinstance(f.__wrapped__, types.FunctionType) and self.function_node(f.__wrapped__) is not None:
            return self.call(f.__wrapped__, args, kwargs)
        if isinstance(f, SObj):
            m = self.class_attr(f.cls, '__call__')
            if m is not MISSING:
                return self.call(BMethod(m, f), args, kwargs)
            self.throw(TypeError, 'not callable')
        if f is None or isinstance(f, IMMUT):
            self.throw(TypeError, 'not callable: %r' % (f,))
        from . import builtin_models
        return builtin_models.call_native(self, f, list(args), kwargs)

    def instantiate(self, cls, args, kwargs):
        from . import builtin_models
        h = self.native.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        if cls.__module__.split('.')[0] in self.repo_modules() or issubclass(cls, BaseException):
            if issubclass(cls, enum.Enum):
                return builtin_models.call_native(self, cls, args, kwargs)
            ab = getattr(cls, '__abstractmethods__', None)
            if ab:
                self.throw(TypeError, 'abstract class ' + cls.__name__)
            o = self.new_obj(cls)
            init = self.class_attr(cls, '__init__')
            if issubclass(cls, BaseException) and not isinstance(init, types.FunctionType):
                o.args = tuple(args)
                return o
            if issubclass(cls, tuple):
                raise Unsupported('namedtuple')
            if dataclasses.is_dataclass(cls) and '__init__' in cls.__dict__ and self.function_node(init) is None:
                fs = [f for f in dataclasses.fields(cls) if f.init]
                vals = list(args)
                kw = {k: (g, v) for k, g, v in kwargs}
                for i, f in enumerate(fs):
                    if i < len(vals):
                        v = vals[i]
                    elif f.name in kw:
                        v = kw[f.name][1]
                    elif f.default is not dataclasses.MISSING:
                        v = f.default
                    elif f.default_factory is not dataclasses.MISSING:
                        v = self.call(f.default_factory, [], [])
                    else:
                        self.throw(TypeError, 'missing argument')
                    if getattr(cls, '__dataclass_params__').frozen:
                        o.fields[f.name] = v
                    else:
                        self.set_field(o, f.name, v)
                pi = self.class_attr(cls, '__post_init__')
                if pi is not MISSING:
                    self.call(BMethod(pi, o), [], [])
                return o
            if isinstance(init, types.FunctionType):
                self.call(BMethod(init, o), args, kwargs)
            elif init is MISSING:
                if args or kwargs:
                    self.throw(TypeError, 'takes no arguments')
            else:
                raise Unsupported('constructor of %s' % cls.__name__)
            return o
        return builtin_models.call_native(self, cls, args, kwargs)

    def bind(self, a, name, args, kwargs, defaults, kwdefaults):
        """Bind call arguments to the ast.arguments node; returns {param: value}."""
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = {}
        for k, g, v in kwargs:
            kw.setdefault(k, []).append((g, v))
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw(TypeError, '%s() takes %d positional arguments' % (name, len(pos)))
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for p, v in zip(pos, args):
            if p in kw:
                self.throw_if(self.b.OR(*[g for g, _ in kw[p]]), TypeError, 'multiple values for ' + p)
                kw.pop(p, None)
            out[p] = v
        nd = len(defaults)
        for i, p in enumerate(pos[len(args):], len(args)):
            di = i - (len(pos) - nd)
            default = defaults[di] if di >= 0 else MISSING
            out[p] = self._bind_kw(name, p, kw, default)
        for x in a.kwonlyargs:
            out[x.arg] = self._bind_kw(name, x.arg, kw, kwdefaults.get(x.arg, MISSING))
        if a.kwarg is not None:
            d = SDict(self.new_oid(), self.pc)
            for k, gs in kw.items():
                for g, v in gs:
                    l = self.live(g)
                    if l != FALSE:
                        d.entries.append([k, self.rel(g, self.pc), v])
            out[a.kwarg.arg] = d
        else:
            for k, gs in kw.items():
                for g, _ in gs:
                    self.throw_if(g, TypeError, "%s() got an unexpected keyword argument '%s'" % (name, k))
        return out

    def _bind_kw(self, fname, p, kw, default):
        if p not in kw:
            if default is MISSING:
                self.throw(TypeError, "%s() missing required argument '%s'" % (fname, p))
            return default
        gs = kw.pop(p)
        cov = self.b.OR(*[g for g, _ in gs])
        rest = self.b.NOT(cov)
        if self.live(rest) == FALSE:
            return self.simp(self.mkU(gs))
        if default is MISSING:
            self.throw_if(rest, TypeError, "%s() missing required argument '%s'" % (fname, p))
            return self.simp(self.mkU(gs))
        return self.simp(self.mkU(gs + [(rest, default)]))

    def call_python(self, fn, node, args, kwargs):
        self.inlined[fn.__qualname__] += 1
        fr = Frame(self, fn, fn.__globals__, None, fn.__qualname__)
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    fr.cells[n] = c.cell_contents
                except ValueError:
                    pass
        defaults = list(fn.__defaults__ or ())
        kwd = dict(fn.__kwdefaults__ or {})
        return self.run_frame(fr, node, args, kwargs, defaults, kwd, fn.__name__)

    def call_closure(self, c, args, kwargs):
        fr = Frame(self, c, c.frame.globals, c.frame, c.__name__)
        return self.run_frame(fr, c.node, args, kwargs, c.defaults, c.kwdefaults, c.__name__)

    def run_frame(self, fr, node, args, kwargs, defaults, kwd, name):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            raise Unsupported('call depth')
        self.call_stack.append(fr)
        fr.line = getattr(node, 'lineno', '?')
        try:
            bound = self.bind(node.args, name, args, kwargs, defaults, kwd)
            fr.locals.update(bound)
            fr.entry = self.pc
            fr.node = node
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            ln = getattr(node, '_localnames', None)
            if ln is None:
                ln = node._localnames = assigned_names(node.body)
                node._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)
                                  if not isinstance(n, ast.Lambda))
                node._globals = set(x for n in ast.walk(node) if isinstance(n, ast.Global) for x in n.names)
                node._nonlocals = set(x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names)
            fr.localnames = ln
            fr.globalnames = node._globals
            fr.nonlocals = node._nonlocals
            if node._isgen:
                fr.yields = self.new_list()
            self.exec_block(node.body, fr)
            if fr.yields is not None:
                for g, _ in fr.returns:
                    self.pc = self.b.OR(self.pc, g)
                if self.pc == FALSE:
                    raise Dead()
                return fr.yields
            alts = list(fr.returns)
            out = self.pc
            if self.pc != FALSE:
                alts.append((self.pc, None))
            for g, _ in fr.returns:
                out = self.b.OR(out, g)
            self.pc = out
            if out == FALSE:
                raise Dead()
            return self.mkU(alts)
        finally:
            self.call_stack.pop()
            self.depth -= 1

    # ------------------------------------------------------------ names
    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals and name not in f.globalnames:
                v = f.locals[name]
                return self.read_local(name, v)
            if name in f.cells:
                return f.cells[name]
            if f is fr and name in f.localnames and name not in f.globalnames and name not in f.nonlocals:
                self.throw(UnboundLocalError, name)
            f = f.closure_frame
        if name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def read_local(self, name, v):
        if isinstance(v, Poison):
            raise Unsupported('loop-carried variable %s' % name)
        if isinstance(v, U):
            alts = self.split(v)
            for g, x in alts:
                if isinstance(x, Poison):
                    raise Unsupported('loop-carried variable %s' % name)
            if any(x is UNDEF for _, x in alts):
                g = self.b.OR(*[g for g, x in alts if x is UNDEF])
                self.throw_if(g, UnboundLocalError, name)
                return self.simp(U([(h, x) for h, x in alts if x is not UNDEF]))
            return alts[0][1] if len(alts) == 1 else U(alts) if len(alts) < len(v.alts) else v
        if v is UNDEF:
            self.throw(UnboundLocalError, name)
        return v

    def store_name(self, name, v, fr):
        if name in fr.globalnames:
            raise Unsupported('global write')
        f = fr
        if name in fr.nonlocals:
            f = fr.closure_frame
            while f is not None and name not in f.locals:
                f = f.closure_frame
            if f is None:
                raise Unsupported('nonlocal')
        old = f.locals.get(name, UNDEF)
        f.locals[name] = self.merge(self.pc, v, old, f.entry)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            if self.pc == FALSE:
                return
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.deadline is not None and self.steps % 64 == 0 and time.time() > self.deadline:
            raise TimeLimit('step %d' % self.steps)
        if self.steps > self.MAX_STEPS:
            raise Unsupported('step budget')
        fr.line = s.lineno
        try:
            getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s, fr)
        except Dead:
            self.pc = FALSE

    def s_unsupported(self, s, fr):
        raise Unsupported('statement %s' % type(s).__name__)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, fr) if s.value.value is not None else None
            self.list_append(fr.yields, v)
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value, fr)
            self.list_extend(fr.yields, v)
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split('.')[1:]:
                    m = getattr(m, p)
            self.store_name(a.asname or a.name.split('.')[0], m, fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        base = s.module or ''
        if s.level:
            pkg = fr.globals.get('__package__', '')
            base = '.'.join(pkg.split('.')[:len(pkg.split('.')) - s.level + 1] + ([base] if base else []))
        m = importlib.import_module(base)
        for a in s.names:
            self.store_name(a.asname or a.name, getattr(m, a.name), fr)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        generic = [l for l in fr.loops if l.generic]
        if generic:
            if len(generic) > 1 or generic[0].exits is None:
                raise Unsupported('return inside a generic loop')
            generic[0].exits = self.b.OR(generic[0].exits, self.pc)
            self.pc = FALSE
            return
        fr.returns.append((self.pc, v))
        self.pc = FALSE

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            old = self.getattr_(base, mangle(t.attr, fr))
        else:
            base = self.ev(t.value, fr)
            idx = self.ev(t.slice, fr)
            old = self.getitem(base, idx)
        new = self.ev(s.value, fr)
        if isinstance(s.op, ast.Add) and isinstance(old, SList):
            self.list_extend(old, new)
            r = old
        elif isinstance(s.op, ast.BitOr) and isinstance(old, (SSet, SDict)):
            from . import builtin_models
            builtin_models.call_method(self, old, 'update', [new], [])
            r = old
        else:
            r = self.binop(s.op, old, new)
        if isinstance(t, ast.Name):
            self.store_name(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(base, mangle(t.attr, fr), r)
        else:
            self.setitem(base, idx, r)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            self.setattr_(base, mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev(t.slice, fr)
            self.setitem(base, idx, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.fixed_items(v)
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = n - k - 1
                if len(items) < n - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                mid = items[k:len(items) - after]
                vals = items[:k] + [self.new_list(mid)] + (items[len(items) - after:] if after else [])
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            def f(x):
                items = self.fixed_items(x)
                if len(items) != n:
                    self.throw(ValueError, 'unpack')
                return tuple(items)
            v2 = self.over(v, f)
            if isinstance(v2, U):
                for i, e in enumerate(t.elts):
                    self.assign(e, self.over(v2, lambda x: x[i]), fr)
            else:
                for e, x in zip(t.elts, v2):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred')
        else:
            raise Unsupported('assignment target')

    def fixed_items(self, v):
        if isinstance(v, U):
            raise Unsupported('unpacking a union')
        if isinstance(v, tuple):
            return list(v)
        if v is None or isinstance(v, (int, float, SInt, SFloat)):
            self.throw(TypeError, 'cannot unpack')
        es = self.list_entries(v)
        out = []
        for e in es:
            if isinstance(e, Seg):
                raise Unsupported('unpacking an arbitrary sequence')
            l = self.live(e[0])
            if l == FALSE:
                continue
            if l != self.pc:
                raise Unsupported('unpacking a guarded list')
            out.append(e[1])
        return out

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr)
                idx = self.ev(t.slice, fr)
                if isinstance(base, SDict):
                    self.dict_del(base, idx)
                else:
                    raise Unsupported('del')
            elif isinstance(t, ast.Name):
                self.store_name(t.id, UNDEF, fr)
            else:
                raise Unsupported('del')

    def branch(self, c):
        """Split pc on guard c: (then, else) guards with infeasible sides dropped."""
        t = self.b.AND(self.pc, c)
        e = self.b.DIFF(self.pc, c)
        if t != FALSE and e != FALSE:
            if self.b.has_theory(t) and not self.b.feasible(t):
                t = FALSE
            elif self.b.has_theory(e) and not self.b.feasible(e):
                e = FALSE
        return t, e

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        t, e = self.branch(c)
        out = FALSE
        if t != FALSE:
            self.pc = t
            self.exec_block(s.body, fr)
            out = self.pc
        if e != FALSE:
            self.pc = e
            self.exec_block(s.orelse, fr)
            out = self.b.OR(out, self.pc)
        self.pc = out

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.throw_if(self.b.NOT(c), AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, 'current_exc', None)
            if cur is None:
                raise Unsupported('bare raise')
            for g, e, w in cur:
                l = self.b.AND(self.pc, g)
                if l != FALSE:
                    self.handlers[-1].append((l, e, w))
            self.pc = FALSE
            raise Dead()
        try:
            e = self.ev(s.exc, fr)
        except Unsupported:
            # the message could not be evaluated; the class decides
            x = s.exc
            if isinstance(x, ast.Call):
                e = self.ev(x.func, fr)
            else:
                raise
        for g, x in self.split(e):
            if isinstance(x, type):
                self.pc = g
                x = self.new_obj(x)
                x.args = ()
            self.handlers[-1].append((g, x, self.where()))
        self.pc = FALSE
        raise Dead()

    def s_Try(self, s, fr):
        pc0 = self.pc
        self.handlers.append([])
        try:
            self.exec_block(s.body, fr)
        finally:
            raised = self.handlers.pop()
        if s.finalbody and any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for x in s.body + s.handlers for n in ast.walk(x)):
            raise Unsupported('finally with control transfer')
        if self.pc != FALSE and s.orelse:
            self.exec_block(s.orelse, fr)
        out = self.pc
        pending = []
        if raised:
            self.handlers.append([])
            try:
                rest = list(raised)
                for h in s.handlers:
                    self.pc = pc0
                    match, nxt = [], []
                    if h.type is None:
                        match, nxt = rest, []
                    else:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        for g, e, w in rest:
                            (match if issubclass(e.cls, ts) else nxt).append((g, e, w))
                    rest = nxt
                    if not match:
                        continue
                    g = self.b.OR(*[m[0] for m in match])
                    self.pc = g
                    if h.name:
                        self.store_name(h.name, self.mkU([(m[0], m[1]) for m in match]), fr)
                    saved = getattr(fr, 'current_exc', None)
                    fr.current_exc = match
                    self.exec_block(h.body, fr)
                    fr.current_exc = saved
                    out = self.b.OR(out, self.pc)
            finally:
                pending = self.handlers.pop()
            pending = rest + pending
        if s.finalbody:
            allpc = self.b.OR(out, *[g for g, _, _ in pending]) if pending else out
            if allpc != FALSE:
                self.pc = allpc
                self.exec_block(s.finalbody, fr)
                if self.pc != allpc:
                    raise Unsupported('finally block that may raise')
        self.handlers[-1].extend(pending)
        self.pc = out

    def s_With(self, s, fr):
        import contextlib
        item = s.items[0]
        if len(s.items) == 1 and isinstance(item.context_expr, ast.Call):
            f = self.ev(item.context_expr.func, fr)
            if f is contextlib.suppress:
                types_ = tuple(self.ev(a, fr) for a in item.context_expr.args)
                self.handlers.append([])
                try:
                    self.exec_block(s.body, fr)
                finally:
                    raised = self.handlers.pop()
                for g, e, w in raised:
                    if issubclass(e.cls, types_):
                        self.pc = self.b.OR(self.pc, g)
                    else:
                        self.handlers[-1].append((g, e, w))
                return
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        if any(isinstance(n, (ast.Break, ast.Continue)) for x in body for n in ast.walk(x)) and \
                not any(isinstance(n, (ast.For, ast.While)) for x in body for n in ast.walk(x)):
            raise Unsupported('control transfer out of a with statement')
        item = items[0]
        v = self.simp(self.ev(item.context_expr, fr))
        if not isinstance(v, SObj) and type(v) not in self.attr_models:
            raise Unsupported('with statement')

        def leave(args):
            return self.call(self.getattr1(v, '__exit__'), args, [])
        r = self.call(self.getattr1(v, '__enter__'), [], [])
        if item.optional_vars is not None:
            self.assign(item.optional_vars, r, fr)
        n = len(fr.returns)
        self.handlers.append([])
        try:
            self.with_items(items[1:], body, fr)
        finally:
            raised = self.handlers.pop()
        normal = self.pc
        if normal != FALSE:
            leave([None, None, None])
            normal = self.pc
        for i in range(n, len(fr.returns)):
            g, value = fr.returns[i]
            self.pc = g
            try:
                leave([None, None, None])
            except Dead:
                self.pc = FALSE
            fr.returns[i] = (self.pc, value)
        for g, e, w in raised:
            self.pc = g
            try:
                t = self.truth(leave([e.cls, e, None]))
            except Dead:
                continue
            normal = self.b.OR(normal, self.b.AND(self.pc, t))
            l = self.b.DIFF(self.pc, t)
            if l != FALSE:
                self.handlers[-1].append((l, e, w))
        self.pc = normal

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        rest = self.pc
        out = FALSE
        for c in s.cases:
            if rest == FALSE:
                break
            self.pc = rest
            g = self.match_pattern(c.pattern, v, fr)
            t, e = self.branch(g)
            if t != FALSE:
                self.pc = t
                self.bind_pattern(c.pattern, v, fr)
                if c.guard is not None:
                    gg = self.truth(self.ev(c.guard, fr))
                    t2, e2 = self.branch(gg)
                    e = self.b.OR(e, e2)
                    self.pc = t2
                self.exec_block(c.body, fr)
                out = self.b.OR(out, self.pc)
            rest = e
        self.pc = self.b.OR(out, rest)

    def match_pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return self.b.OR(*[self.match_pattern(q, v, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.match_pattern(p.pattern, v, fr)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            cls = self.ev(p.cls, fr)
            return self.isinstance_(v, cls)
        raise Unsupported('match pattern')

    def bind_pattern(self, p, v, fr):
        if isinstance(p, ast.MatchAs):
            if p.name:
                self.store_name(p.name, v, fr)
            if p.pattern is not None:
                self.bind_pattern(p.pattern, v, fr)

    def s_Break(self, s, fr):
        l = fr.loops[-1]
        if l.generic:
            if l.exits is None:
                raise Unsupported('break in a generic loop')
            l.exits = self.b.OR(l.exits, self.pc)
            self.pc = FALSE
            return
        l.brk = self.b.OR(l.brk, self.pc)
        self.pc = FALSE

    def s_Continue(self, s, fr):
        l = fr.loops[-1]
        l.cont = self.b.OR(l.cont, self.pc)
        self.pc = FALSE

    def s_For(self, s, fr):
        if self.range_loop(s, fr):
            return
        it = self.ev(s.iter, fr)
        pcs = self.split(it)
        out = FALSE
        for g, x in pcs:
            self.pc = g
            try:
                if x is None or isinstance(x, (int, float, SInt, SFloat, bool)):
                    self.throw(TypeError, 'not iterable')
                self.for_over(s, fr, x)
            except Dead:
                self.pc = FALSE
            out = self.b.OR(out, self.pc)
        self.pc = out

    def for_over(self, s, fr, x):
        if isinstance(x, loopinv.InvList):
            if fr.globals.get('__name__', '').startswith('vfspec'):
                entries = list(zip(x.present, x.z))
            else:
                from vfspec import api
                return loopinv.loop(self, s, fr, x, api.check, assigned_names(s.body))
        else:
            entries = self.list_entries(x)
        loop = Loop(False)
        fr.loops.append(loop)
        token = object()
        try:
            for e in self.live_entries(x, entries):
                if self.pc == FALSE:
                    break
                if isinstance(e, Seg):
                    names = assigned_names(s.body) | assigned_names([ast.Expr(s.target)])
                    body = lambda v: (self.assign(s.target, v, fr), self.exec_block(s.body, fr))
                    if self.peelable(s, e):
                        # the first element, of which only the tag is known, then a rest that must not change anything
                        t, f = self.branch(self.b.AND(e.src.nonempty, e.entries[0][0]))
                        if t != FALSE:
                            self.pc = t
                            try:
                                body(FirstOf(e.entries[0][1].tag))
                            except Dead:
                                self.pc = FALSE
                            self.pc = self.b.OR(self.pc, loop.cont)
                            loop.cont = FALSE
                        self.pc = self.b.OR(self.pc, f)
                        if self.pc != FALSE:
                            self.exec_generic(e, body, fr, names, pure=True)
                        continue
                    if e.src.group is not None and leaves(s.body):
                        self.search(e, body, fr, names, token)
                        continue
                    counts = self.counters(s, fr, e)
                    for n, (v0, by, _) in counts.items():
                        fr.locals[n] = v0[0]
                    self.exec_generic(e, body, fr, names - set(counts))
                    for n, (_, _, after) in counts.items():
                        fr.locals[n] = after
                else:
                    pc0 = self.pc
                    g, v = e
                    t, f = self.branch(g)
                    if t == FALSE:
                        continue
                    self.pc = t
                    try:
                        self.assign(s.target, v, fr)
                        self.exec_block(s.body, fr)
                    except Dead:
                        self.pc = FALSE
                    self.pc = self.b.OR(self.pc, loop.cont)
                    loop.cont = FALSE
                    self.pc = self.b.OR(self.pc, f)
        finally:
            fr.loops.pop()
        if s.orelse and self.pc != FALSE:
            self.exec_block(s.orelse, fr)
        self.pc = self.b.OR(self.pc, loop.brk)

    def search(self, seg, body, fr, names, token):
        """A loop over a list that is left when something is found: not in this part of the list, in which no
        search finds anything (see Group)."""
        if self.loops or any(l.generic for l in fr.loops):
            raise Unsupported('search inside a generic loop')
        old = {n: fr.locals[n] for n in names if n in fr.locals}
        pc0 = self.pc
        self.handlers.append([])
        exits = []
        try:
            self.exec_generic(seg, body, fr, names, pure=True, exits=exits)
        finally:
            raised = self.handlers.pop()
        normal = exits.pop()
        hit = self.b.OR(*exits, *[g for g, _, _ in raised])
        for n in names:
            if n in old and self.same_value(self.searched[n], Poison(n), normal):
                fr.locals[n] = old[n]       # only changed where the loop is left
            elif n in old:
                fr.locals[n] = self.mkU([(pc0, fr.locals[n])] + [(self.b.DIFF(g, pc0), x) for g, x in (old[n].alts if isinstance(old[n], U) else [(TRUE, old[n])])
                                                                 if self.b.DIFF(g, pc0) != FALSE])
        self.not_found(seg, hit, token)

    def found(self, es, hit):
        """Guard: some of the entries is hit (see Group)."""
        g = self.b.OR(FALSE, *[hit(*y) for y in es if not isinstance(y, Seg)])
        out, before = [], FALSE
        for y in es:
            if isinstance(y, Seg):
                for z in y.entries:
                    if isinstance(z, Seg) or y.src.group is None or self.loops:
                        raise Unsupported('search in an arbitrary sequence')
                    out.append((y, self.b.DIFF(self.b.AND(self.pc, hit(self.b.AND(y.src.nonempty, z[0]), z[1])), before)))
            else:
                before = self.b.OR(before, hit(*y))
        token = object()
        if any(self.b.feasible(self.b.DIFF(h, g)) for _, h in out):
            for y, h in out:
                self.not_found(y, h, token)
        return g

    def not_found(self, seg, hit, token):
        """Nothing in this part of the list is hit by the search that takes place."""
        hit = self.live(hit)
        if hit == FALSE or not self.b.feasible(hit):
            return
        group = seg.src.group
        if group.search is not token:
            group.search = token
            group.found += 1
            if group.found > group.slots:
                raise Unsupported('more than %d searches in %s' % (group.slots, group.name))
        self.cut = self.b.OR(self.cut, hit)
        self.pc = self.b.DIFF(self.pc, hit)
        if self.pc == FALSE:
            raise Dead()

    def peelable(self, s, seg):
        """XML elements of one tag, and a body that stores something under a key."""
        if len(seg.entries) != 1 or isinstance(seg.entries[0], Seg) or not isinstance(getattr(seg.entries[0][1], 'tag', None), str):
            return False
        from . import builtin_models
        return builtin_models.uniform(self, seg.entries[0][0], seg.src) and any(
            isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Attribute) and x.attr == 'setdefault'
            for y in s.body for x in ast.walk(y))

    def counters(self, s, fr, seg):
        """Variables that every turn of a loop increases by the same number, once: name -> value at the position of
        the arbitrary element, step, value after the loop."""
        from . import builtin_models
        out = {}
        for i, st in enumerate(s.body):
            if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and \
                    isinstance(st.value, ast.Constant) and type(st.value.value) is int and st.target.id in fr.locals and \
                    not any(isinstance(x, ast.Continue) for y in s.body[:i] for x in ast.walk(y)) and \
                    sum(isinstance(x, ast.Name) and x.id == st.target.id and not isinstance(x.ctx, ast.Load)
                        for y in [s.target] + s.body for x in ast.walk(y)) == 1:
                v = fr.locals[st.target.id]
                if type(v) not in (int, SInt) or not builtin_models.single(self, seg):
                    continue
                by = st.value.value
                step = lambda n: n if by == 1 else self.binop(ast.Mult(), n, by)
                out[st.target.id] = ((self.binop(ast.Add(), v, step(builtin_models.position(self, seg.src))),), by,
                                     self.binop(ast.Add(), v, step(seg.src.length)))
        return out

    MAX_GROWTH = 200

    def live_entries(self, x, entries):
        """The entries of a container which the loop over it may change: a list may grow at its end."""
        if not isinstance(x, (SList, SDict, SSet)):
            yield from entries
            return
        i = 0
        while True:
            if isinstance(x, SList):
                now = list(x.entries)
                if len(now) < len(entries) or any(a is not b and a != b for a, b in zip(entries, now)):
                    raise Unsupported('list changed inside a loop over it')
                if len(now) > i + self.MAX_GROWTH and len(now) > len(entries):
                    raise Unsupported('list grows inside a loop over it')
                entries = now
            else:
                if len(self.list_entries(x)) != len(entries):
                    raise Unsupported('%s changed inside a loop over it' % type(x).__name__)
            if i >= len(entries):
                return
            yield entries[i]
            i += 1

    def exec_generic(self, seg, body, fr, names, pure=False, exits=None):
        """Map-loop rule for one segment (see the module docstring)."""
        pc0 = self.pc
        ne = seg.src.nonempty
        start, _ = self.branch(ne)
        ctx = LoopCtx(self.new_oid(), seg.src)
        saved = {}
        if fr is not None:
            for n in names:
                if n in fr.locals:
                    saved[n] = fr.locals[n]
                fr.locals[n] = Poison(n)
        loop = Loop(True)
        if exits is not None:
            loop.exits = FALSE
        normal = FALSE
        if fr is not None:
            fr.loops.append(loop)
        self.loops.append(ctx)
        try:
            if start != FALSE:
                self.pc = start
                for e in seg.entries:
                    if isinstance(e, Seg):
                        self.exec_generic(e, body, fr, names)
                        continue
                    g, v = e
                    t, f = self.branch(g)
                    if t == FALSE:
                        continue
                    self.pc = t
                    try:
                        body(v)
                    except Dead:
                        self.pc = FALSE
                    self.pc = self.b.OR(self.pc, loop.cont, f)
                    loop.cont = FALSE
                normal = self.pc
        finally:
            self.loops.pop()
            if fr is not None:
                fr.loops.pop()
        if exits is not None:
            exits[:] = [loop.exits, normal]
            self.searched = {n: fr.locals[n] for n in names}
        if fr is not None:
            for n in names:
                fr.locals[n] = Poison(n)
        for (oid, name), (o, old) in ctx.writes.items():
            new = o.fields.get(name, UNDEF)
            if not self.same_value(new, old, start):
                raise Unsupported('loop changes %s.%s' % (o.cls.__name__, name))
            if new is not old:
                o.fields[name] = old
        if pure and ctx.appends:
            raise Unsupported('loop appends after its first element')
        for oid, (l, entries) in ctx.appends.items():
            if oid in ctx.reads:
                raise Unsupported('list both read and appended in a generic loop')
            scope = self.b.AND(l.birth, ne)
            base = self.b.AND(pc0, ne)
            ents = []
            for x in entries:
                if isinstance(x, Seg):
                    ents.append(x)
                else:
                    g, v = x
                    ents.append((TRUE if self.b.implies(base, g) and self.b.implies(l.birth, pc0) else g, v))
            outer = [c for c in self.loops if l.oid < c.start_oid]
            seg2 = Seg(seg.src, ents)
            if outer:
                outer[-1].appends.setdefault(oid, (l, []))[1].append(seg2)
            else:
                l.entries.append(seg2)
        # exceptional exits were recorded with their guards; continue on the rest; what is assumed
        # of the arbitrary element holds for all of them
        self.pc = self.b.DIFF(pc0, self.cut)
        if self.pc == FALSE and pc0 != FALSE:
            raise Dead()

    def same_value(self, a, b, scope):
        if a is b:
            return True
        for g, x in (a.alts if isinstance(a, U) else [(TRUE, a)]):
            g = self.b.AND(g, scope)
            if g == FALSE:
                continue
            for h, y in (b.alts if isinstance(b, U) else [(TRUE, b)]):
                h = self.b.AND(g, h)
                if h == FALSE:
                    continue
                if self.vkey(x) != self.vkey(y):
                    return False
        return True

    def indexed(self, s, fr, i, bound):
        """The sequence E of a loop that counts i from 0 to bound, if that is the length of E, E[i] is read in the loop,
        and nothing there assigns to E: its expression and its value."""
        at = lambda e: isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and at(e.value)
        names = assigned_names(s.body)

        def root(e):
            return e.id if isinstance(e, ast.Name) else root(e.value)
        if isinstance(bound, ast.Call) and isinstance(bound.func, ast.Name) and bound.func.id == 'len' and \
                len(bound.args) == 1 and not bound.keywords and at(bound.args[0]):
            found = [bound.args[0]]
            n = None
        elif isinstance(bound, ast.Name) and bound.id not in names:
            n = fr.locals.get(bound.id)
            if getattr(n, 'count_of', None) is None:
                return None
            found = {ast.unparse(x.value): x.value for y in s.body for x in ast.walk(y)
                     if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == i and at(x.value)}
            found = list(found.values())
        else:
            return None
        if len(found) != 1 or root(found[0]) in names or root(found[0]) == i:
            return None
        x = self.ev(found[0], fr)
        kinds = [v for _, v in x.alts] if isinstance(x, U) else [x]
        if not all(v is None or isinstance(v, (SList, tuple, loopinv.InvList)) for v in kinds) or \
                not any(isinstance(v, loopinv.InvList) or isinstance(v, SList) and any(isinstance(z, Seg) for z in v.entries)
                        for v in kinds):
            return None
        if n is not None and not (isinstance(x, SList) and len(x.entries) == 1 and x.entries[0] is n.count_of):
            return None
        return found[0], x

    def over_elements(self, body, i, seq, value, fr, upto):
        """The body of an index loop as that of a loop over the elements: E[i] in its first statements becomes the
        element; (target, body, whether i is read otherwise), or None if E[i] is used otherwise."""
        key = ('over', id(body), id(seq))
        made = self.rewritten.get(key)
        if made is None:
            name = '%%e%d' % len(self.rewritten)
            same = SameList(seq=seq, name='%%s%d' % len(self.rewritten))
            text = ast.dump(seq)

            class Reads(ast.NodeTransformer):
                bad = False

                def visit_Subscript(self, n):
                    if isinstance(n.slice, ast.Name) and n.slice.id == i and ast.dump(n.value) == text:
                        if not isinstance(n.ctx, ast.Load):
                            self.bad = True
                        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), n)
                    return self.generic_visit(n)
            r = Reads()
            import copy
            new = [r.visit(copy.deepcopy(x)) for x in body[:upto]] + list(body[upto:])
            count = lambda x: sum(isinstance(y, ast.Name) and y.id == i for y in ast.walk(x))
            other = sum(map(count, new))
            check = ast.copy_location(ast.Expr(value=ast.copy_location(same, body[0])), body[0])
            made = self.rewritten[key] = (body, seq, name, same.name, [check] + new, other, r.bad)
        _, _, name, sname, new, other, bad = made
        if bad:
            return None
        fr.locals[sname] = value
        return name, new, other

    def e_SameList(self, n, fr):
        x, y = fr.locals[n.name], self.ev(n.seq, fr)
        if x is not y and not self.same_value(y, x, self.pc):
            raise Unsupported('the sequence of an index loop changes')

    def index_loop(self, s, fr):
        """while i < len(x), i counting from 0, x an arbitrary sequence: the loop over its elements."""
        c = s.test
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1):
            return False
        left, right = c.left, c.comparators[0]
        if isinstance(c.ops[0], ast.Gt):
            left, right = right, left
        elif not isinstance(c.ops[0], (ast.Lt, ast.NotEq)):
            return False
        if not (isinstance(left, ast.Name) and left.id in fr.locals):
            return False
        start = self.load_name(left.id, fr)
        if not (type(start) is int and start == 0):
            return False
        i = left.id
        if isinstance(right, ast.Name) and right.id == i:
            return False
        steps = [k for k, st in enumerate(s.body) if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and
                 isinstance(st.target, ast.Name) and st.target.id == i and isinstance(st.value, ast.Constant) and st.value.value == 1]
        stores = sum(isinstance(x, ast.Name) and x.id == i and not isinstance(x.ctx, ast.Load) for y in s.body for x in ast.walk(y))
        if len(steps) != 1 or stores != 1 or any(isinstance(x, ast.Continue) for y in s.body[:steps[0]] for x in ast.walk(y)):
            return False
        found = self.indexed(s, fr, i, right)
        if found is None:
            return False
        seq, x = found
        made = self.over_elements(s.body, i, seq, x, fr, steps[0])
        if made is None:
            return False
        name, body, other = made
        drop = other == 1
        if drop:
            body = [y for y in body if y is not s.body[steps[0]]]
        seg = x.entries[0] if isinstance(x, SList) and len(x.entries) == 1 and isinstance(x.entries[0], Seg) else None
        n = ast.copy_location(ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=seq, body=body, orelse=s.orelse), s)
        after = None
        if drop and seg is not None and not leaves(s.body):
            from . import builtin_models
            if builtin_models.single(self, seg):
                after = builtin_models.m_len(self, [x], {})
        self.s_For(n, fr)
        if drop:
            fr.locals[i] = Poison(i) if after is None else after
        return True

    def range_loop(self, s, fr):
        """for i in range(len(x)), x an arbitrary sequence: the loop over its elements."""
        c = s.iter
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'range' and len(c.args) == 1 and
                not c.keywords and isinstance(s.target, ast.Name) and s.target.id not in assigned_names(s.body)):
            return False
        i = s.target.id
        found = self.indexed(s, fr, i, c.args[0])
        if found is None:
            return False
        seq, x = found
        made = self.over_elements(s.body, i, seq, x, fr, len(s.body))
        if made is None:
            return False
        name, body, other = made
        elem, it = ast.Name(id=name, ctx=ast.Store()), seq
        if other:
            elem = ast.Tuple(elts=[ast.Name(id=i, ctx=ast.Store()), elem], ctx=ast.Store())
            it = ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[seq], keywords=[])
        n = ast.For(target=elem, iter=it, body=body, orelse=s.orelse)
        ast.copy_location(n, s)
        for y in ast.walk(n):
            ast.copy_location(y, s) if not hasattr(y, 'lineno') else None
        self.s_For(n, fr)
        if not other:
            fr.locals[i] = Poison(i)
        return True

    def s_While(self, s, fr):
        if self.index_loop(s, fr):
            return
        loop = Loop(False)
        fr.loops.append(loop)
        exits = FALSE
        try:
            for i in range(self.MAX_WHILE + 1):
                if self.pc == FALSE:
                    break
                c = self.truth(self.ev(s.test, fr))
                t, e = self.branch(c)
                exits = self.b.OR(exits, e)
                self.pc = t
                if t == FALSE:
                    break
                if i == self.MAX_WHILE:
                    raise Unsupported('while loop without a bound')
                self.exec_block(s.body, fr)
                self.pc = self.b.OR(self.pc, loop.cont)
                loop.cont = FALSE
        finally:
            fr.loops.pop()
        self.pc = exits
        if s.orelse and self.pc != FALSE:
            self.exec_block(s.orelse, fr)
        self.pc = self.b.OR(self.pc, loop.brk)

    def s_FunctionDef(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        c = Closure(s, fr, defaults, kwd, s.name)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], [])
        self.store_name(s.name, v, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        self.steps += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr_(self.ev(n.value, fr), mangle(n.attr, fr))

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.fixed_items(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return tuple(out)

    def e_List(self, n, fr):
        l = self.new_list()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.list_extend(l, self.ev(e.value, fr))
            else:
                v = self.ev(e, fr)
                self.list_append(l, v)
        return l

    def e_Set(self, n, fr):
        vals = [self.ev(e, fr) for e in n.elts]
        s = SSet(self.new_oid(), self.pc)
        for v in vals:
            s.entries.append([v, TRUE])
        return s

    def e_Dict(self, n, fr):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                vv = self.ev(v, fr)
                self.dict_set(d, kk, vv)
        return d

    def dict_update(self, d, other):
        if isinstance(other, U):
            self.over(other, lambda o: self.dict_update(d, o))
            return None
        if isinstance(other, dict):
            for k, v in other.items():
                self.dict_set(d, k, v)
        elif isinstance(other, SDict):
            for k, g, v in list(other.entries):
                t, e = self.branch(g)
                if t == FALSE:
                    continue
                self.pc = t
                try:
                    self.dict_set(d, k, v)
                except Dead:
                    self.pc = FALSE
                self.pc = self.b.OR(self.pc, e)
        elif isinstance(other, (SList, list, tuple)):
            for e in self.list_entries(other):
                if isinstance(e, Seg):
                    raise Unsupported('dict update')
                t, f = self.branch(e[0])
                if t == FALSE:
                    continue
                self.pc = t
                try:
                    k, v = self.fixed_items(e[1])
                    self.dict_set(d, k, v)
                except Dead:
                    self.pc = FALSE
                self.pc = self.b.OR(self.pc, f)
        else:
            raise Unsupported('dict update from %s' % type(other).__name__)
        return None

    def list_extend(self, l, other):
        if isinstance(other, U):
            self.over(other, lambda o: self.list_extend(l, o))
            return None
        if other is None or isinstance(other, (int, float, SInt, SFloat)):
            self.throw(TypeError, 'not iterable')
        for e in self.list_entries(other):
            self.append_entry(l, e)
        return None

    def append_entry(self, l, e):
        if isinstance(e, Seg):
            if self.loops and any(l.oid < c.start_oid for c in self.loops):
                inner = [c for c in self.loops if l.oid < c.start_oid][-1]
                inner.appends.setdefault(l.oid, (l, []))[1].append(self.guard_seg(e, self.pc))
                return
            l.entries.append(self.guard_seg(e, self.rel(self.pc, l.birth)))
        else:
            pc0 = self.pc
            self.pc = self.b.AND(pc0, e[0])
            if self.pc != FALSE:
                self.list_append(l, e[1])
            self.pc = pc0

    def guard_seg(self, seg, g):
        if g == TRUE:
            return seg
        ents = []
        for e in seg.entries:
            if isinstance(e, Seg):
                ents.append(self.guard_seg(e, g))
            else:
                ents.append((self.b.AND(e[0], g), e[1]))
        return Seg(seg.src, ents)

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(str(p.value))
            else:
                v = self.ev(p.value, fr)
                if p.conversion == 114:
                    from . import builtin_models
                    v = self.over(v, lambda x: builtin_models.to_repr(self, x))
                elif p.conversion == 115:
                    v = self.to_str(v)
                spec = ''
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, fr)
                    if not isinstance(spec, str):
                        raise Unsupported('symbolic format spec')
                parts.append(self.format_value(v, spec))
        return self.concat(parts)

    def concat(self, parts):
        """Concatenate string values (lifting unions)."""
        acc = ''
        for p in parts:
            acc = self.over2(acc, p, lambda a, b: mkstr([a, b]))
        return acc

    def to_str(self, v):
        from . import builtin_models
        return self.over(v, lambda x: builtin_models.to_str(self, x))

    def format_value(self, v, spec):
        from . import builtin_models
        return self.over(v, lambda x: builtin_models.format_value(self, x, spec))

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        res = []
        pc_done = FALSE
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                res.append((self.pc, v))
                pc_done = self.b.OR(pc_done, self.pc)
                break
            c = self.truth(v)
            t, e = self.branch(c)
            stop, go = (e, t) if isand else (t, e)
            if stop != FALSE:
                self.pc = stop
                res.append((stop, self.simp(v)))
                pc_done = self.b.OR(pc_done, stop)
            self.pc = go
            if go == FALSE:
                break
            # evaluating the rest may raise: keep the finished part safe
            try:
                rest = ast.BoolOp(op=n.op, values=n.values[i + 1:]) if len(n.values) - i - 1 > 1 else n.values[i + 1]
                v2 = self.ev(rest, fr)
                res.append((self.pc, v2))
                pc_done = self.b.OR(pc_done, self.pc)
            except Dead:
                pass
            break
        self.pc = pc_done
        if pc_done == FALSE:
            raise Dead()
        return self.mkU(res)

    def e_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        t, e = self.branch(c)
        res, out = [], FALSE
        for g, x in ((t, n.body), (e, n.orelse)):
            if g == FALSE:
                continue
            self.pc = g
            try:
                v = self.ev(x, fr)
            except Dead:
                continue
            res.append((self.pc, v))
            out = self.b.OR(out, self.pc)
        self.pc = out
        if out == FALSE:
            raise Dead()
        return self.mkU(res)

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            c = self.truth(self.ev(n.operand, fr))
            return self.from_guard(self.b.NOT(c))
        v = self.ev(n.operand, fr)

        def f(x):
            if isinstance(n.op, ast.USub):
                if isinstance(x, SInt):
                    return SInt(-x.z)
                if isinstance(x, SFloat):
                    raise Unsupported('negated float')
                return self.native_call(operator.neg, x)
            if isinstance(n.op, ast.UAdd):
                return x
            if isinstance(n.op, ast.Invert):
                return self.native_call(operator.invert, x)
        return self.over(v, f)

    def native_call(self, f, *args):
        try:
            return f(*args)
        except Exception as e:
            self.throw(type(e), *[str(a) for a in e.args])

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
           ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
           ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}

    def binop(self, op, a, b):
        return self.over2(a, b, lambda x, y: self.binop1(op, x, y))

    def binop1(self, op, a, b):
        strs = (str, SStr)
        if isinstance(op, ast.Add):
            if isinstance(a, strs) and isinstance(b, strs):
                return mkstr([a, b])
            if isinstance(a, strs) != isinstance(b, strs) and (isinstance(a, strs + (int, SInt, type(None), float, SFloat)) and isinstance(b, strs + (int, SInt, type(None), float, SFloat))):
                self.throw(TypeError, 'can only concatenate str')
            if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
                l = self.new_list()
                self.list_extend(l, a)
                self.list_extend(l, b)
                return l
        if isinstance(op, ast.Mod) and isinstance(a, str):
            from . import builtin_models
            return builtin_models.percent_format(self, a, b)
        if isinstance(op, ast.BitOr) and isinstance(a, (SDict, SSet)):
            from . import builtin_models
            c = builtin_models.copy_container(self, a)
            builtin_models.call_method(self, c, 'update', [b], [])
            return c
        if isinstance(op, ast.Sub) and isinstance(a, (SSet, set)) and isinstance(b, (SSet, set)):
            s = SSet(self.new_oid(), self.pc)
            for e in self.list_entries(a):
                g = self.b.DIFF(e[0], self.contains(b, e[1]))
                if g != FALSE:
                    s.entries.append([e[1], g])
            return s
        if isinstance(op, ast.Mult) and (isinstance(a, strs) and isinstance(b, (int, SInt)) or isinstance(b, strs) and isinstance(a, (int, SInt))):
            s, k = (a, b) if isinstance(a, strs) else (b, a)
            if isinstance(k, int):
                return mkstr([s] * k)
            return SStr([Fn('repeat', (s, k.z.sexpr()))])
        if isinstance(op, ast.Mult) and isinstance(a, (SList, list)) and isinstance(b, int):
            l = self.new_list()
            for _ in range(b):
                self.list_extend(l, a)
            return l
        if isinstance(a, (SInt, SFloat)) or isinstance(b, (SInt, SFloat)):
            num = (int, float, SInt, SFloat)
            if isinstance(a, num) and isinstance(b, num):
                if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
                    raise Unsupported('float arithmetic')
                x, y = self.zn(a), self.zn(b)
                if isinstance(op, ast.Add):
                    return SInt(z3.simplify(x + y))
                if isinstance(op, ast.Sub):
                    return SInt(z3.simplify(x - y))
                if isinstance(op, ast.Mult):
                    return SInt(z3.simplify(x * y))
                if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
                    return SInt(z3.simplify(x / y if isinstance(op, ast.FloorDiv) else x % y))
                raise Unsupported('integer operation %s' % type(op).__name__)
            self.throw(TypeError, 'unsupported operand')
        f = self.OPS.get(type(op))
        if f is None:
            raise Unsupported('operator')
        for x in (a, b):
            if isinstance(x, (Opaque, Poison)):
                raise Unsupported('operator on opaque value')
            if isinstance(x, SObj):
                raise Unsupported('operator on object')
            if isinstance(x, (SStr, SList, SDict, SSet)):
                other = b if x is a else a
                if other is None or isinstance(other, (int, float)):
                    self.throw(TypeError, 'unsupported operand')
                raise Unsupported('operator on container')
        return self.native_call(f, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        g = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, fr)
            c = self.compare(op, left, right)
            g = self.b.AND(g, c)
            left = right
        return self.from_guard(g)

    def is_(self, a, b):
        g = FALSE
        for h, x in self.split(a):
            for k, y in (self.split(b)):
                m = self.b.AND(h, k)
                if m == FALSE:
                    continue
                if x is y or (isinstance(x, (bool, type(None), type)) and x is y) or \
                        (isinstance(x, BMethod) and isinstance(y, BMethod) and x.func is y.func and x.self is y.self):
                    g = self.b.OR(g, m)
                elif isinstance(x, SObj) and isinstance(y, SObj) and x.cls is y.cls and getattr(x, 'virgin', False) and getattr(y, 'virgin', False):
                    raise Unsupported('identity of two inputs')
        return g

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.b.AND(self.pc, self.b.NOT(self.is_(a, b)))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.b.NOT(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.b.NOT(self.contains(b, a))
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]

        def f(x, y):
            num = (int, float, SInt, SFloat)
            if isinstance(x, (SInt, SFloat)) or isinstance(y, (SInt, SFloat)):
                if not (isinstance(x, num) and isinstance(y, num)):
                    self.throw(TypeError, 'not orderable')
                if isinstance(x, float) and math.isinf(x) or isinstance(y, float) and math.isinf(y):
                    raise Unsupported('comparison with inf')
                return self.from_guard(self.num_cmp(sym, x, y))
            if isinstance(x, (SStr,)) or isinstance(y, SStr):
                if not isinstance(x, (str, SStr)) or not isinstance(y, (str, SStr)):
                    self.throw(TypeError, 'not orderable')
                x, y = self.trim_prefix(x, y)
                if x == '' or y == '':
                    # the empty text comes before all others
                    g = self.truth(y) if x == '' and sym == '<' else self.truth(x) if y == '' and sym == '>' else \
                        TRUE if x == '' and sym == '<=' or y == '' and sym == '>=' else FALSE if x == '' and sym == '>' or y == '' and sym == '<' else \
                        self.b.NOT(self.truth(y if x == '' else x))
                    return self.from_guard(g)
                # a text that is not known further has some place in the order
                zx, zy = [z3.String('text %r' % (t,)) if z is None else z for t, z in ((t, self.z_str(t)) for t in (x, y))]
                if sym == '<':
                    return self.from_guard(self.zatom(zx < zy))
                if sym == '<=':
                    return self.from_guard(self.zatom(zx <= zy))
                if sym == '>':
                    return self.from_guard(self.zatom(zy < zx))
                return self.from_guard(self.zatom(zy <= zx))
            if x is None or y is None:
                self.throw(TypeError, 'not orderable')
            if isinstance(x, (SObj, SList, SDict, SSet)) or isinstance(y, (SObj, SList, SDict, SSet)):
                raise Unsupported('ordering of objects')
            return self.native_call({'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[sym], x, y)
        return self.truth(self.over2(a, b, f))

    def pytype(self, v):
        if isinstance(v, SStr):
            return str
        if isinstance(v, SInt):
            return int
        if isinstance(v, SFloat):
            return float
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, (SList, SDict, SSet)):
            return v.kind
        if isinstance(v, (Closure,)):
            return types.FunctionType
        if isinstance(v, BMethod):
            return types.MethodType
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported('type of opaque value')
        h = self.attr_models.get(type(v))
        if h is not None:
            return h.pytype
        return type(v)

    def isinstance_(self, v, t):
        if isinstance(t, (SList, U)):
            raise Unsupported('isinstance with symbolic type')
        g = FALSE
        for h, x in self.split(v):
            try:
                r = issubclass(self.pytype(x), t)
            except TypeError:
                self.throw(TypeError, 'isinstance arg 2')
            if r:
                g = self.b.OR(g, h)
        return g

    def e_Subscript(self, n, fr):
        base = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, fr) if n.slice.lower else None
            hi = self.ev(n.slice.upper, fr) if n.slice.upper else None
            st = self.ev(n.slice.step, fr) if n.slice.step else None
            return self.over(base, lambda x: self.getslice(x, lo, hi, st))
        idx = self.ev(n.slice, fr)
        return self.getitem(base, idx)

    def getslice(self, x, lo, hi, st):
        if any(isinstance(i, (U, SInt)) for i in (lo, hi, st)):
            raise Unsupported('symbolic slice')
        if isinstance(x, (str, tuple, list)):
            return x[lo:hi:st]
        if isinstance(x, SList):
            es = self.list_entries(x)
            if lo is None and hi is None and st is None:
                l = self.new_list()
                for e in es:
                    self.append_entry(l, e)
                return l
            if isinstance(lo, int) and 0 <= lo <= len(es) and hi is None and st is None and \
                    not any(isinstance(e, Seg) or not self.b.implies(self.pc, e[0]) for e in es[:lo]):
                l = self.new_list()
                for e in es[lo:]:
                    self.append_entry(l, e)
                return l
            if any(isinstance(e, Seg) or e[0] != TRUE for e in es):
                raise Unsupported('slice of a guarded list')
            return self.new_list([e[1] for e in es][lo:hi:st])
        if isinstance(x, SStr) and st is None and all(isinstance(i, (int, type(None))) for i in (lo, hi)):
            if isinstance(x.parts[0], str) and lo is not None and 0 <= lo <= len(x.parts[0]) and hi is None:
                return mkstr([x.parts[0][lo:]] + list(x.parts[1:]))
            if isinstance(x.parts[0], str) and lo in (None, 0) and hi is not None and 0 <= hi <= len(x.parts[0]):
                return x.parts[0][:hi]
            if isinstance(x.parts[-1], str) and lo in (None, 0) and hi is not None and 0 <= -hi <= len(x.parts[-1]):
                return mkstr(list(x.parts[:-1]) + [x.parts[-1][:hi]])
            if isinstance(x.parts[-1], str) and hi is None and lo is not None and 0 < -lo <= len(x.parts[-1]):
                return x.parts[-1][lo:]
            if lo in (None, 0) and hi == 1 or lo == -1 and hi is None:
                p = x.parts[0 if hi == 1 else -1]
                z = self.z_str(x)
                if z is not None and not isinstance(p, str) and getattr(p, 'nonempty', False):
                    c = StrVar('%r[%s]' % (x, 'first' if hi == 1 else 'last'), True)
                    c.z = z3.SubString(z, 0, 1) if hi == 1 else z3.SubString(z, z3.Length(z) - 1, 1)
                    for k in ('ident', 'word'):
                        if getattr(p, k, False):
                            setattr(c, k, True)
                    return SStr([c])
            raise Unsupported('slice of a symbolic string')
        raise Unsupported('slice')

    def getitem(self, base, idx):
        def f(x):
            if isinstance(x, (SDict, dict, types.MappingProxyType)):
                v = self.dict_get(x, idx)
                m = self._missing(v)
                if m != FALSE:
                    self.throw_if(m, KeyError, idx)
                    v = self.simp(v)
                    if isinstance(v, U):
                        v = self.mkU([(g, y) for g, y in v.alts if y is not MISSING])
                return v
            if isinstance(x, type) and issubclass(x, enum.Enum):
                return self.over(idx, lambda i: self.native_call(lambda: x[i]))
            if isinstance(x, SList):
                return self.over(idx, lambda i: self.list_index(x, i))
            if isinstance(x, (tuple, list, str)):
                def g(i):
                    if isinstance(i, SInt):
                        raise Unsupported('symbolic index')
                    return self.native_call(lambda: x[i])
                return self.over(idx, g)
            if isinstance(x, SStr) and isinstance(idx, int):
                p = x.parts[0 if idx >= 0 else -1]
                if isinstance(p, str) and -len(p) <= idx < len(p):
                    return p[idx]
                if idx in (0, -1):
                    z = self.z_str(x)
                    if z is None:
                        raise Unsupported('character of symbolic text')
                    self.throw_if(self.b.NOT(self.truth1(x)), IndexError)
                    c = StrVar('%r[%d]' % (x, idx), True)
                    c.z = z3.SubString(z, 0, 1) if idx == 0 else z3.SubString(z, z3.Length(z) - 1, 1)
                    return SStr([c])
                raise Unsupported('character of symbolic text')
            if isinstance(x, SObj):
                m = self.class_attr(x.cls, '__getitem__')
                if m is not MISSING:
                    return self.call(BMethod(m, x), [idx], [])
            h = self.attr_models.get(type(x))
            if h is not None and hasattr(h, 'getitem'):
                return h.getitem(self, x, idx)
            if x is None:
                self.throw(TypeError, 'not subscriptable')
            try:
                return x[idx]
            except Exception as e:
                raise Unsupported('subscript of %s: %s' % (type(x).__name__, e))
        return self.over(base, f)

    def list_index(self, l, i):
        es = self.list_entries(l)
        if isinstance(i, SInt):
            from . import builtin_models
            if len(es) == 1 and isinstance(es[0], Seg) and builtin_models.single(self, es[0]) and \
                    i is getattr(es[0].src, 'position', None) and any(c.seq is es[0].src for c in self.loops):
                return es[0].entries[0][1]
            raise Unsupported('symbolic index')
        if any(isinstance(e, Seg) for e in es):
            segs = [e for e in es if isinstance(e, Seg)]
            if i == -1 and not isinstance(es[-1], Seg) and self.b.implies(self.pc, es[-1][0]):
                return es[-1][1]
            if i == 0 and not isinstance(es[0], Seg) and self.b.implies(self.pc, es[0][0]):
                return es[0][1]
            if len(es) == 1 and i in (0, -1) and len(segs[0].entries) == 1 and not isinstance(segs[0].entries[0], Seg):
                seg = segs[0]
                one = self.num_cmp('==', seg.src.length, 1)
                if self.b.implies(self.b.AND(self.pc, seg.src.nonempty), one) or not self.b.feasible(self.b.AND(self.pc, self.b.NOT(one), seg.src.nonempty)):
                    self.throw_if(self.b.NOT(seg.src.nonempty), IndexError)
                    return seg.entries[0][1]
            if i == 0:
                r = self.first_of(es)
                if r is not MISSING:
                    return r
            if i in (0, -1) and all(x.src.group is not None for x in segs) and not self.loops:
                # the first or last element is a designated one
                alts, rest, token = [], TRUE, object()
                for x in es if i == 0 else reversed(es):
                    if isinstance(x, Seg):
                        if any(isinstance(y, Seg) for y in x.entries):
                            raise Unsupported('index into an arbitrary sequence')
                        self.not_found(x, self.b.AND(self.pc, rest, x.src.nonempty, self.b.OR(*[y[0] for y in x.entries])), token)
                    else:
                        alts.append((self.b.AND(rest, x[0]), x[1]))
                        rest = self.b.DIFF(rest, x[0])
                self.throw_if(rest, IndexError, 'list index out of range')
                return self.simp(self.mkU(alts))
            raise Unsupported('index into an arbitrary sequence')
        seq = es if i >= 0 else list(reversed(es))
        k = i if i >= 0 else -i - 1
        # count[j] = guard that exactly j earlier entries are present
        cnt = [TRUE] + [FALSE] * k
        alts = []
        for g, v in seq:
            m = self.b.AND(g, cnt[k])
            if m != FALSE:
                alts.append((m, v))
            new = list(cnt)
            for j in range(k, -1, -1):
                new[j] = self.b.OR(self.b.DIFF(cnt[j], g), self.b.AND(cnt[j - 1], g) if j else FALSE)
            cnt = new
        cov = self.b.OR(*[g for g, _ in alts]) if alts else FALSE
        self.throw_if(self.b.NOT(cov), IndexError, 'list index out of range')
        return self.simp(self.mkU(alts))

    def first_of(self, es):
        """First element of optional leading entries followed by arbitrary sequences of elements: of an element
        of a sequence nothing but its tag can be observed (it is not the arbitrary element of a loop)."""
        rest, alts = self.pc, []
        for x in es:
            if rest == FALSE:
                break
            if not isinstance(x, Seg):
                g = self.b.AND(rest, x[0])
                if g != FALSE:
                    alts.append((g, x[1]))
                rest = self.b.DIFF(rest, x[0])
                continue
            some, tags = FALSE, []
            for y in x.entries:
                if isinstance(y, Seg) or not isinstance(getattr(y[1], 'tag', None), str):
                    return MISSING
                some = self.b.OR(some, y[0])
                if y[1].tag not in tags:
                    tags.append(y[1].tag)
            if self.live(self.b.DIFF(self.b.AND(rest, x.src.nonempty), some)) != FALSE:
                return MISSING
            g, h = self.b.AND(rest, x.src.nonempty), TRUE
            for t in tags[:-1]:
                c = self.b.new_var('first element is %s' % t)
                alts.append((self.b.AND(g, h, c), FirstOf(t)))
                h = self.b.DIFF(h, c)
            alts.append((self.b.AND(g, h), FirstOf(tags[-1])))
            rest = self.b.DIFF(rest, x.src.nonempty)
        self.throw_if(rest, IndexError, 'list index out of range')
        return self.simp(self.mkU(alts))

    def setitem(self, base, idx, v):
        def f(x):
            if isinstance(x, (SDict, dict)):
                self.dict_set(x, idx, v)
                return None
            if isinstance(x, SList):
                if not isinstance(idx, int):
                    raise Unsupported('symbolic index store')
                for ctx in self.loops:
                    if x.oid < ctx.start_oid:
                        raise Unsupported('list store in generic loop')
                es = x.entries
                if any(isinstance(e, Seg) or e[0] != TRUE for e in es):
                    raise Unsupported('store into a guarded list')
                if not -len(es) <= idx < len(es):
                    self.throw(IndexError)
                es[idx] = (TRUE, self.merge(self.pc, v, es[idx][1], x.birth))
                return None
            if isinstance(x, SObj):
                m = self.class_attr(x.cls, '__setitem__')
                if m is not MISSING:
                    self.call(BMethod(m, x), [idx, v], [])
                    return None
            raise Unsupported('item store')
        self.over(base, f)

    def e_Call(self, n, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and '__class__' not in f.cells:
                f = f.closure_frame
            if f is None:
                raise Unsupported('super()')
            a = f.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(f.cells['__class__'], self.simp(f.locals[first]))
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' and not n.args:
            d = self.new_dict()
            for k, v in fr.locals.items():
                d.entries.append([k, TRUE, v])
            return d
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.fixed_items(self.ev(a.value, fr)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp(a, fr, 'list'))
            else:
                args.append(self.ev(a, fr))
        kwargs = []
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is not None:
                kwargs.append((k.arg, TRUE, v))
            else:
                for g, d in self.split(v):
                    if isinstance(d, SDict):
                        for kk, h, vv in d.entries:
                            hh = h if g == self.pc else self.b.AND(g, h)
                            if self.live(hh) != FALSE:
                                kwargs.append((kk, hh, vv))
                    elif isinstance(d, dict):
                        for kk, vv in d.items():
                            kwargs.append((kk, TRUE if g == self.pc else g, vv))
                    else:
                        raise Unsupported('** of %s' % type(d).__name__)
        return self.call(f, args, kwargs)

    def e_Lambda(self, n, fr):
        return Closure(n, fr, [self.ev(d, fr) for d in n.args.defaults],
                       {a.arg: self.ev(d, fr) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}, '<lambda>')

    def comp(self, n, fr, kind):
        sub = Frame(self, fr.fn, fr.globals, fr, '<comp>')
        sub.node = fr.node
        if kind == 'list':
            acc = self.new_list()
        elif kind == 'set':
            acc = SSet(self.new_oid(), self.pc)
        else:
            acc = self.new_dict()
        pc_in = self.pc

        def rec(i):
            if i == len(n.generators):
                if kind == 'dict':
                    k = self.ev(n.key, sub)
                    self.dict_set(acc, k, self.ev(n.value, sub))
                else:
                    v = self.ev(n.elt, sub)
                    if kind == 'list':
                        self.list_append(acc, v)
                    else:
                        from . import builtin_models
                        builtin_models.set_add(self, acc, v)
                return
            gen = n.generators[i]
            it = self.ev(gen.iter, sub if i else fr)

            def body(v):
                self.assign(gen.target, v, sub)
                drop = FALSE
                for c in gen.ifs:
                    t, e = self.branch(self.truth(self.ev(c, sub)))
                    drop = self.b.OR(drop, e)
                    self.pc = t
                    if t == FALSE:
                        break
                if self.pc != FALSE:
                    try:
                        rec(i + 1)
                    except Dead:
                        self.pc = FALSE
                self.pc = self.b.OR(self.pc, drop)
            out = FALSE
            for g, x in self.split(it):
                self.pc = g
                if x is None:
                    try:
                        self.throw(TypeError, 'not iterable')
                    except Dead:
                        continue
                for e in self.list_entries(x):
                    if self.pc == FALSE:
                        break
                    if isinstance(e, Seg):
                        self.exec_generic(e, body, sub, assigned_names([ast.Expr(gen.target)]))
                    else:
                        t, f = self.branch(e[0])
                        if t == FALSE:
                            continue
                        self.pc = t
                        sub.entry = t
                        sub.locals.clear() if i == 0 else None
                        try:
                            body(e[1])
                        except Dead:
                            self.pc = FALSE
                        self.pc = self.b.OR(self.pc, f)
                out = self.b.OR(out, self.pc)
            self.pc = out
            if out == FALSE:
                raise Dead()
        rec(0)
        return acc

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, 'set')

    def e_DictComp(self, n, fr):
        return self.comp(n, fr, 'dict')

    def e_Starred(self, n, fr):
        raise Unsupported('starred expression')
