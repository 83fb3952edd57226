"""Contracts of the Python built-ins used by the code under verification (trusted axioms)."""
import ast
import collections
import copy as copymod
import decimal
import enum
import functools
import itertools
import math
import operator
import os
import re
import sys
import types
import z3

from .bdd import FALSE, TRUE
from .values import *
from .engine import MISSING, IMMUT

CONTAINERS = (SList, SDict, SSet)


def is_concrete(v, depth=0):
    if isinstance(v, (U, SStr, SInt, SFloat, SObj, SList, SDict, SSet, Closure, BMethod, NMethod, Opaque, Poison)):
        return False
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    return True


# ---------------------------------------------------------------- text
def to_str(e, x):
    if isinstance(x, SStr):
        return x
    if isinstance(x, SInt):
        return SStr([IntText(x, 'd')])
    if isinstance(x, SFloat):
        return SStr([FloatText(x, 'r')])
    if isinstance(x, SObj):
        m = e.class_attr(x.cls, '__str__')
        if isinstance(m, types.FunctionType):
            return e.call(BMethod(m, x), [], [])
        m = e.class_attr(x.cls, '__repr__')
        if isinstance(m, types.FunctionType) and e.function_node(m) is not None:
            return e.call(BMethod(m, x), [], [])
        if issubclass(x.cls, BaseException) and x.args is not None:
            if len(x.args) == 1:
                return e.to_str(x.args[0])
        return SStr([Fn('repr', 'obj%d' % x.oid)])
    if isinstance(x, (SList, SDict, SSet, BMethod, Closure, NMethod, Opaque, U)):
        return SStr([Fn('repr', id(x))])
    if isinstance(x, tuple) and not is_concrete(x):
        return SStr([Fn('repr', id(x))])
    h = e.attr_models.get(type(x))
    if h is not None:
        if hasattr(h, 'to_str'):
            return h.to_str(e, x)
        return SStr([Fn('repr', id(x))])
    return str(x)


def to_repr(e, x):
    if isinstance(x, SInt):
        return to_str(e, x)
    if isinstance(x, SFloat):
        return to_str(e, x)
    if isinstance(x, SStr):
        return SStr([Fn('repr', x)])
    if is_concrete(x) and type(x) not in e.attr_models:
        return repr(x)
    return SStr([Fn('repr', id(x))])


def format_value(e, x, spec):
    if spec == '':
        return to_str(e, x)
    if isinstance(x, SInt) and spec in ('d', 'x', 'b', 'X', 'o'):
        return SStr([IntText(x, spec)])
    if isinstance(x, SInt) and spec in ('#x', '#b', '#o', '#X'):
        neg = e.zatom(x.z < 0)
        pre = {'#x': '0x', '#b': '0b', '#o': '0o', '#X': '0X'}[spec]
        body = SStr([pre, IntText(x, spec[1])])
        nbody = SStr(['-' + pre, IntText(SInt(z3.simplify(-x.z)), spec[1])])
        return e.simp(e.mkU([(e.b.NOT(neg), body), (neg, nbody)]))
    if isinstance(x, SInt) and re.fullmatch(r'0\d+d', spec):
        return SStr([IntText(x, spec)])
    if isinstance(x, SFloat):
        if spec in ('x', 'b', 'd', 'X', 'o'):
            e.throw(ValueError, 'Unknown format code for float')
        return SStr([FloatText(x, spec)])
    if isinstance(x, SDec) and spec in ('e', 'E') and x.form in ('raw', 'int', 'normal'):
        return SStr([FloatText(x.f, 'r')])     # every digit is kept; the text always has an exponent
    if isinstance(x, SInt):
        return SStr([Fn('fmt' + spec, ('int', x.z.sexpr()))])
    if isinstance(x, (SStr, SObj)):
        raise Unsupported('format spec %r on symbolic value' % spec)
    return e.native_call(format, x, spec)


def percent_format(e, fmt, args):
    if is_concrete(args):
        return e.native_call(operator.mod, fmt, args)
    if not isinstance(args, tuple):
        args = (args,)
    parts = re.split(r'(%[sd])', fmt)
    out, i = [], 0
    for p in parts:
        if p in ('%s', '%d'):
            out.append(e.to_str(args[i]))
            i += 1
        elif '%' in p:
            raise Unsupported('percent format')
        else:
            out.append(p)
    return e.concat(out)


def int_of_text(e, s, base=10):
    """int(s[, base]) for a symbolic string: the inverse of the int formatters."""
    p = list(s.parts)
    neg = False
    if isinstance(p[0], str) and p[0].startswith('-') and len(p) == 2 or (isinstance(p[0], str) and p[0] in ('-',)):
        pass
    if len(p) == 1 and isinstance(p[0], IntText):
        if p[0].fmt == 'd' and base in (10, 0):
            return p[0].i
        if p[0].fmt in ('x', 'X') and base == 16 or p[0].fmt == 'b' and base == 2 or p[0].fmt == 'o' and base == 8:
            return p[0].i
        if p[0].fmt[0] == '0' and base == 10:
            return p[0].i
        if p[0].fmt == 'd' or base not in (0, 10, 16, 2, 8):
            raise Unsupported('int() with base %r' % base)
        raise Unsupported('int() of a based text with another base')
    if len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], IntText):
        m = {'0x': ('x', 16), '0X': ('xX', 16), '0b': ('b', 2), '0o': ('o', 8)}
        for sign in ('', '-', '+'):
            for pre, (fs, bs) in m.items():
                if p[0] == sign + pre and p[1].fmt.lower() in fs.lower():
                    if base not in (0, bs):
                        e.throw(ValueError, 'invalid literal for int()')
                    e.throw_if(e.zatom(p[1].i.z < 0), ValueError, 'invalid literal for int()')
                    return SInt(z3.simplify(-p[1].i.z)) if sign == '-' else p[1].i
        if p[0] in ('-', '+') and p[1].fmt == 'd' and base in (0, 10):
            e.throw_if(e.zatom(p[1].i.z < 0), ValueError, 'invalid literal for int()')
            return SInt(z3.simplify(-p[1].i.z)) if p[0] == '-' else p[1].i
        raise Unsupported('int() of %r' % (s,))
    if len(p) == 1 and isinstance(p[0], FloatText):
        f = p[0].f
        if p[0].fmt not in 'nm':
            # repr() and %-style texts always carry a '.', an exponent or are inf/nan
            e.throw(ValueError, 'invalid literal for int()')
        # Decimal texts: integral finite values may be printed without fraction
        g = integral(e, f)
        if p[0].fmt == 'm':
            g = e.b.AND(g, e.atom(('plain', f.name), 'plain(%s)' % f.name))
        fin = e.finite(f)
        e.throw_if(e.b.NOT(e.b.AND(g, fin)), ValueError, 'invalid literal for int()')
        return SInt(z3.ToInt(f.z), origin=f)
    if len(p) == 1 and isinstance(p[0], Fn) and p[0].fn == 'digits' and base == 10:
        return p[0].arg
    if len(p) == 1 and isinstance(p[0], StrVar):
        g = e.atom(('isint', p[0].name, base), 'isint(%s)' % p[0].name)
        e.throw_if(e.b.NOT(g), ValueError, 'invalid literal for int()')
        v = e.atom_cache.get(('intof', p[0].name, base))
        if v is None:
            v = SInt(z3.Int('intof_%s_%s' % (p[0].name, base)))
            e.atom_cache[('intof', p[0].name, base)] = v
        return v
    raise Unsupported('int() of %r' % (s,))


def float_of_text(e, s):
    p = list(s.parts)
    if len(p) == 1 and isinstance(p[0], FloatText) and p[0].fmt in ('r', 'n', 'm'):
        return p[0].f
    if len(p) == 1 and isinstance(p[0], FloatText):
        return fresh_float(e, 'rounded_' + p[0].f.name)
    if len(p) == 1 and isinstance(p[0], IntText) and p[0].fmt == 'd':
        return float_of_int(e, p[0].i)
    if len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], IntText) and p[0] in ('0x', '0b'):
        e.throw(ValueError, 'could not convert string to float')
    if len(p) == 1 and isinstance(p[0], StrVar):
        g = e.atom(('isfloat', p[0].name), 'isfloat(%s)' % p[0].name)
        e.throw_if(e.b.NOT(g), ValueError, 'could not convert string to float')
        return fresh_float(e, 'floatof_' + p[0].name)
    raise Unsupported('float() of %r' % (s,))


def assume_word(e, var):
    """Precondition: the text is not the text of a number."""
    for key in (('isint', var.name, 10), ('isint', var.name, 0), ('isint', var.name, 16), ('isint', var.name, 2),
                ('isfloat', var.name)):
        e.atom_cache[key] = FALSE


def fresh_float(e, name):
    k = ('float', name)
    v = e.atom_cache.get(k)
    if v is None:
        v = SFloat(name, z3.Real(name))
        e.atom_cache[k] = v
    return v


def float_of_int(e, i):
    if i.origin is not None:
        return i.origin
    k = ('floatofint', i.z.sexpr())
    v = e.atom_cache.get(k)
    if v is None:
        v = SFloat('float(%s)' % i.z, z3.ToReal(i.z), of_int=i)
        e.atom_cache[k] = v
    return v


# ---------------------------------------------------------------- containers
def copy_container(e, v):
    if isinstance(v, SList):
        l = e.new_list()
        e.list_extend(l, v)
        return l
    if isinstance(v, SDict):
        d = e.new_dict()
        e.dict_update(d, v)
        return d
    if isinstance(v, SSet):
        s = SSet(e.new_oid(), e.pc)
        for k, g in v.entries:
            s.entries.append([k, g])
        return s
    return copymod.copy(v)


def set_add(e, s, v):
    if isinstance(v, U):
        e.over(v, lambda x: set_add(e, s, x))
        return
    for ctx in e.loops:
        if s.oid < ctx.start_oid:
            raise Unsupported('set written in a generic loop')
    cov = FALSE
    for k, g in s.entries:
        cov = e.b.OR(cov, e.b.AND(g, e.eq(v, k)))
    rest = e.b.DIFF(e.pc, cov)
    if rest == FALSE:
        return
    for en in s.entries:
        if is_concrete(en[0]) and is_concrete(v) and e.eq(v, en[0]) == TRUE:
            en[1] = e.rel(e.b.OR(en[1], rest), s.birth)
            return
    s.entries.append([v, e.rel(rest, s.birth)])


def length(e, x):
    if isinstance(x, SDict) and x.tail is not None:
        return count(e, e.list_entries(x.tail))
    if isinstance(x, (SList, SDict, SSet)):
        es = e.list_entries(x)
        n = count(e, es)
        if len(es) == 1 and isinstance(es[0], Seg) and isinstance(n, SInt) and n is not es[0].src.length and single(e, es[0]):
            n.count_of = es[0]
        return n
    if isinstance(x, SStr):
        z = e.z_str(x)
        if z is None:
            raise Unsupported('len of symbolic text')
        return SInt(z3.Length(z))
    if isinstance(x, SObj):
        m = e.class_attr(x.cls, '__len__')
        if m is MISSING:
            e.throw(TypeError, 'object has no len()')
        return e.call(BMethod(m, x), [], [])
    h = e.attr_models.get(type(x))
    if h is not None and hasattr(h, 'length'):
        return h.length(e, x)
    if x is None or isinstance(x, (int, float, SInt, SFloat)):
        e.throw(TypeError, 'object has no len()')
    return e.native_call(len, x)


def count(e, es):
    if not any(isinstance(x, Seg) for x in es):
        # distribution of the number of present entries
        cnt = {0: TRUE}
        for g, _ in es:
            new = {}
            for k, h in cnt.items():
                a = e.b.DIFF(h, g)
                b = e.b.AND(h, g)
                if a != FALSE:
                    new[k] = e.b.OR(new.get(k, FALSE), a)
                if b != FALSE:
                    new[k + 1] = e.b.OR(new.get(k + 1, FALSE), b)
            cnt = new
        return e.simp(e.mkU([(h, k) for k, h in sorted(cnt.items())]))
    z, some = z3.IntVal(0), FALSE
    for x in es:
        if not isinstance(x, Seg):
            z = z + z3.If(e.b.to_z3(x[0]), z3.IntVal(1), z3.IntVal(0))
            some = e.b.OR(some, x[0])
            continue
        # exactly one entry for each element, or none for all of them
        one = FALSE
        for y in x.entries:
            if isinstance(y, Seg) or e.b.AND(e.pc, x.src.nonempty, one, y[0]) != FALSE:
                raise Unsupported('length of a filtered sequence')
            one = e.b.OR(one, y[0])
        if e.b.implies(e.b.AND(e.pc, x.src.nonempty), one):
            z = z + x.src.length.z
            some = e.b.OR(some, x.src.nonempty)
        elif uniform(e, one, x.src):
            z = z + z3.If(e.b.to_z3(one), x.src.length.z, z3.IntVal(0))
            some = e.b.OR(some, e.b.AND(one, x.src.nonempty))
        else:
            raise Unsupported('length of a filtered sequence')
    r = SInt(z3.simplify(z))
    r.some = some
    return r


def uniform(e, g, seq):
    """The guard does not depend on the element: it is the same for every element of the sequence."""
    from .bdd import symbols
    mark = seq.name + '['
    for v in e.b.support(g):
        names = {str(n) for n in symbols(e.b.z3vars[v])}
        if any(mark in n or '[' not in n and n.startswith('k!') for n in names):
            return False
    return True


def plain_values(e, l, what):
    es = e.list_entries(l)
    out = []
    for x in es:
        if isinstance(x, Seg):
            raise Unsupported('%s of an arbitrary sequence' % what)
        t, f = e.branch(x[0])
        if t == FALSE:
            continue
        if f != FALSE:
            raise Unsupported('%s of a guarded list' % what)
        out.append(x[1])
    return out


def native_args(v):
    return is_concrete(v)


# ---------------------------------------------------------------- methods
def call_method(e, o, name, args, kwargs):
    if name.startswith('object.'):
        n = name[7:]
        if n in ('__init__', '__init_subclass__'):
            return None
        if n == '__str__' or n == '__repr__':
            return SStr([Fn('repr', 'obj%d' % o.oid)])
        if n == '__setattr__':
            e.set_field(o, args[0], args[1])
            return None
        if n == '__getattribute__':
            return e.getattr1(o, args[0])
        if n == '__eq__':
            return o is args[0]
        if n == '__hash__':
            return id(o)
        raise Unsupported(name)
    if isinstance(o, SList):
        return list_method(e, o, name, args, kwargs)
    if isinstance(o, SDict) and o.tail is not None:
        if name == 'values' and not o.entries:
            return o.tail
        raise Unsupported('dict.%s of a dict filled in a generic loop' % name)
    if isinstance(o, (SDict, dict)):
        return dict_method(e, o, name, args, kwargs)
    if isinstance(o, SSet):
        return set_method(e, o, name, args, kwargs)
    if isinstance(o, (str, SStr)):
        return str_method(e, o, name, args, kwargs)
    if isinstance(o, (list, set)):
        if name in ('index', 'count', 'copy', 'union', 'difference', 'intersection', 'issubset', 'issuperset') and all(map(is_concrete, args)):
            return e.native_call(getattr(o, name), *args)
        raise Unsupported('write to a module-level container (%s)' % name)
    if isinstance(o, (SInt, SFloat)):
        if name == 'is_integer':
            if isinstance(o, SInt):
                return True
            return e.from_guard(e.atom(('integral', o.name), 'integral(%s)' % o.name, z3.IsInt(o.z)))
        if name == 'bit_length':
            return SInt(z3.Int('bitlen_' + o.z.sexpr()))
        raise Unsupported('method %s of number' % name)
    h = e.attr_models.get(type(o))
    if h is not None:
        return h.method(e, o, name, args, kwargs)
    raise Unsupported('method %s of %s' % (name, type(o).__name__))


def list_method(e, l, name, args, kwargs):
    if name == 'append':
        e.list_append(l, args[0])
        return None
    if name == 'extend':
        e.list_extend(l, args[0])
        return None
    if name == 'copy':
        return copy_container(e, l)
    if name == 'clear':
        if l.entries:
            if e.b.implies(l.birth, e.pc):
                l.entries = []
            else:
                l.entries = [(e.b.DIFF(x[0], e.pc), x[1]) for x in l.entries if not isinstance(x, Seg)] \
                    if not any(isinstance(x, Seg) for x in l.entries) else unsupported('clear')
        return None
    for ctx in e.loops:
        if l.oid < ctx.start_oid:
            raise Unsupported('list.%s in a generic loop' % name)
    if name == 'insert':
        if args[0] == 0 and isinstance(args[0], int):
            l.entries.insert(0, (e.rel(e.pc, l.birth), args[1]))
            return None
        vals = plain_values(e, l, 'insert')
        if e.b.implies(l.birth, e.pc) and isinstance(args[0], int):
            vals.insert(args[0], args[1])
            l.entries = [(TRUE, v) for v in vals]
            return None
    if name == 'appendleft':
        l.entries.insert(0, (e.rel(e.pc, l.birth), args[0]))
        return None
    if name in ('pop', 'popleft'):
        last = name == 'pop' and (not args or args[0] == -1)
        first = name == 'popleft' or (args and args[0] == 0)
        if not (last or first):
            raise Unsupported('pop index')
        es = l.entries
        tail = []
        if any(isinstance(x, Seg) for x in es):
            k = 0
            while first and not isinstance(es[k], Seg):
                k += 1
            if not e.b.implies(e.pc, e.b.OR(*[x[0] for x in es[:k]])):
                raise Unsupported('pop from an arbitrary sequence')
            es, tail = es[:k], es[k:]
        taken = FALSE
        alts = []
        order = range(len(es) - 1, -1, -1) if last else range(len(es))
        new = {}
        for i in order:
            g, v = es[i]
            m = e.b.AND(e.pc, g, e.b.NOT(taken))
            if m != FALSE:
                alts.append((m, v))
                taken = e.b.OR(taken, m)
                new[i] = e.b.DIFF(g, m) if not e.b.implies(e.b.AND(l.birth, g), m) else FALSE
        e.throw_if(e.b.NOT(taken), IndexError, 'pop from empty list')
        l.entries = [(new.get(i, g), v) for i, (g, v) in enumerate(es) if new.get(i, g) != FALSE] + tail
        return e.simp(e.mkU(alts))
    if name == 'remove':
        es = l.entries
        if any(isinstance(x, Seg) for x in es):
            raise Unsupported('remove from an arbitrary sequence')
        taken = FALSE
        out = []
        for g, v in es:
            m = e.b.AND(e.pc, g, e.eq(v, args[0]), e.b.NOT(taken))
            taken = e.b.OR(taken, m)
            r = e.b.DIFF(g, m)
            if e.b.AND(l.birth, r) != FALSE:
                out.append((r, v))
        e.throw_if(e.b.NOT(taken), ValueError, 'list.remove(x): x not in list')
        l.entries = out
        return None
    if name == 'reverse':
        if any(isinstance(x, Seg) for x in l.entries) or not e.b.implies(l.birth, e.pc):
            raise Unsupported('reverse')
        l.entries = list(reversed(l.entries))
        return None
    if name == 'sort':
        vals = plain_values(e, l, 'sort')
        if all(is_concrete(v) for v in vals) and not kwargs and e.b.implies(l.birth, e.pc):
            l.entries = [(TRUE, v) for v in sorted(vals)]
            return None
    if name == 'index':
        vals = plain_values(e, l, 'index')
        alts, rest = [], TRUE
        for i, v in enumerate(vals):
            m = e.b.AND(rest, e.eq(v, args[0]))
            alts.append((m, i))
            rest = e.b.DIFF(rest, m)
        e.throw_if(rest, ValueError, 'not in list')
        return e.simp(e.mkU(alts))
    if name == 'count':
        vals = plain_values(e, l, 'count')
        return count(e, [(e.eq(v, args[0]), v) for v in vals])
    if name == '__len__':
        return length(e, l)
    raise Unsupported('list.%s' % name)


def unsupported(why):
    raise Unsupported(why)


def dict_method(e, d, name, args, kwargs):
    if name == 'get' or name == 'setdefault':
        default = args[1] if len(args) > 1 else None
        for k, g, v in kwargs:
            if k == 'default':
                default = v
        v = e.dict_get(d, args[0])
        m = e._missing(v)
        if name == 'setdefault' and m != FALSE:
            pc0 = e.pc
            t, f = e.branch(m)
            if t != FALSE:
                e.pc = t
                e.dict_set(d, args[0], default)
                e.pc = pc0
        if m == FALSE:
            return e.simp(v)
        if v is MISSING:
            return default
        alts = [(g, y) for g, y in v.alts if y is not MISSING] if isinstance(v, U) else []
        return e.simp(e.mkU(alts + [(m, default)]))
    if name in ('items', 'keys', 'values', 'copy', 'clear', 'popitem') and isinstance(d, SDict) and (d.tail is not None or d.lazy is not None) \
            and not (name == 'values' and d.lazy is None):
        raise Unsupported('%s of a dict of unknown content' % name)
    if name == 'items':
        if isinstance(d, dict):
            return d.items()
        l = e.new_list()
        l.entries = [(g, (k, v)) for k, g, v in d.entries]
        return l
    if name == 'keys':
        if isinstance(d, dict):
            return d.keys()
        l = e.new_list()
        l.entries = [(g, k) for k, g, v in d.entries]
        return l
    if name == 'values':
        if isinstance(d, dict):
            return d.values()
        l = e.new_list()
        l.entries = [(g, v) for k, g, v in d.entries] + (list(d.tail.entries) if d.tail is not None else [])
        return l
    if name == 'update':
        for a in args:
            e.dict_update(d, a)
        for k, g, v in kwargs:
            t, f = e.branch(g)
            if t != FALSE:
                e.pc = t
                e.dict_set(d, k, v)
                e.pc = e.b.OR(e.pc, f)
        return None
    if name == 'copy':
        if isinstance(d, dict):
            r = e.new_dict()
            e.dict_update(r, d)
            return r
        return copy_container(e, d)
    if name == 'pop':
        v = e.dict_get(d, args[0])
        m = e._missing(v)
        if len(args) == 1:
            e.dict_del(d, args[0])
            v = e.simp(v)
            if isinstance(v, U):
                v = e.mkU([(g, y) for g, y in v.alts if y is not MISSING])
            return v
        e.dict_del(d, args[0], must=False)
        if m == FALSE:
            return e.simp(v)
        alts = [(g, y) for g, y in v.alts if y is not MISSING] if isinstance(v, U) else []
        return e.simp(e.mkU(alts + [(m, args[1])]))
    if name == 'clear':
        if isinstance(d, SDict) and e.b.implies(d.birth, e.pc):
            d.entries = []
            return None
    if name in ('__contains__',):
        return e.from_guard(e.contains(d, args[0]))
    raise Unsupported('dict.%s' % name)


def set_method(e, s, name, args, kwargs):
    if name == 'add':
        set_add(e, s, args[0])
        return None
    if name == 'update':
        for a in args:
            for x in e.list_entries(a):
                if isinstance(x, Seg):
                    raise Unsupported('set update')
                t, f = e.branch(x[0])
                if t == FALSE:
                    continue
                e.pc = t
                set_add(e, s, x[1])
                e.pc = e.b.OR(e.pc, f)
        return None
    if name in ('discard', 'remove'):
        cov = FALSE
        for en in s.entries:
            m = e.b.AND(e.pc, en[1], e.eq(args[0], en[0]))
            cov = e.b.OR(cov, m)
            en[1] = e.b.DIFF(e.b.AND(s.birth, en[1]), m) if m != FALSE else en[1]
        if name == 'remove':
            e.throw_if(e.b.NOT(cov), KeyError, args[0])
        s.entries = [x for x in s.entries if x[1] != FALSE]
        return None
    if name == 'copy':
        return copy_container(e, s)
    if name == 'clear' and e.b.implies(s.birth, e.pc):
        s.entries = []
        return None
    if name in ('union', 'difference', 'intersection'):
        r = SSet(e.new_oid(), e.pc)
        for k, g in s.entries:
            c = e.contains(args[0], k)
            h = g if name == 'union' else e.b.AND(g, c) if name == 'intersection' else e.b.DIFF(g, c)
            if h != FALSE:
                r.entries.append([k, h])
        if name == 'union':
            set_method(e, r, 'update', args, [])
        return r
    raise Unsupported('set.%s' % name)


def str_method(e, s, name, args, kwargs):
    if name == 'join':
        return join(e, s, args[0])
    if isinstance(s, str) and all(is_concrete(a) for a in args) and all(is_concrete(v) for _, _, v in kwargs):
        return e.native_call(lambda: getattr(s, name)(*args, **{k: v for k, _, v in kwargs}))
    if isinstance(s, str) and any(isinstance(a, U) for a in args):
        i = [k for k, a in enumerate(args) if isinstance(a, U)][0]
        return e.over(args[i], lambda x: str_method(e, s, name, args[:i] + [x] + args[i + 1:], kwargs))
    if name == 'format' and isinstance(s, str) and not kwargs:
        parts = re.split(r'(\{\d*\})', s)
        out, i = [], 0
        for p in parts:
            if re.fullmatch(r'\{\d*\}', p):
                k = int(p[1:-1]) if p != '{}' else i
                out.append(e.to_str(args[k]))
                i += 1
            elif '{' in p:
                raise Unsupported('format')
            else:
                out.append(p)
        return e.concat(out)
    for i, a in enumerate(args):
        if isinstance(a, U):
            return e.over(a, lambda x: str_method(e, s, name, args[:i] + [x] + args[i + 1:], kwargs))
    h = getattr(e, 'str_hook', None)
    if h is not None:
        r = h(e, s, name, args)
        if r is not NotImplemented:
            return r
    if not isinstance(s, SStr):
        s = SStr([s])
    p = s.parts
    if name in ('removeprefix', 'removesuffix') and len(args) == 1 and not kwargs and isinstance(args[0], str):
        if not args[0]:
            return s
        k = 0 if name == 'removeprefix' else -1
        g = e.truth(str_method(e, s, 'startswith' if k == 0 else 'endswith', args, []))
        if g == FALSE:
            return s
        if isinstance(p[k], str) and len(p[k]) >= len(args[0]):
            return mkstr([p[0][len(args[0]):]] + list(p[1:]) if k == 0 else list(p[:-1]) + [p[-1][:-len(args[0])]])
        z = e.z_str(s)
        if z is not None:
            c = StrVar('%s(%r,%r)' % (name, s, args[0]), False)
            n = len(args[0])
            c.z = z3.SubString(z, n if k == 0 else 0, z3.Length(z) - n)
            return e.simp(e.mkU([(g, SStr([c])), (e.b.NOT(g), s)]))
    if name in ('split', 'rsplit') and len(args) == 2 and not kwargs and args[1] == 1 and isinstance(args[0], str):
        r = str_method(e, s, 'partition' if name == 'split' else 'rpartition', [args[0]], [])
        pieces = lambda t: e.new_list([t[0], t[2]]) if t[1] else e.new_list([s])
        return e.over(r, pieces)
    if name in ('startswith', 'endswith') and args[0] == '/' and not isinstance(p[0 if name == 'startswith' else -1], str):
        if getattr(p[0 if name == 'startswith' else -1], 'ident', False) and p[0 if name == 'startswith' else -1].nonempty:
            return False
    if name == 'partition' and args == ['/'] and not kwargs:
        for i, q in enumerate(p):
            if isinstance(q, str) and '/' in q:
                j = q.index('/')
                return (mkstr(list(p[:i]) + [q[:j]]), '/', mkstr([q[j + 1:]] + list(p[i + 1:])))
            if not (isinstance(q, (str, IntText)) or getattr(q, 'ident', False)):
                break
    if name in ('partition', 'split', 'rpartition') and len(args) == 1 and not kwargs and isinstance(args[0], str) and \
            re.fullmatch(r'[^A-Za-z0-9_.+-]', args[0]) and \
            all(isinstance(q, (str, IntText)) or getattr(q, 'ident' if args[0] == '/' else 'word', False) for q in p):
        toks, cur = [], []
        for q in p:
            bits = q.split(args[0]) if isinstance(q, str) else [q]
            for i, bb in enumerate(bits):
                if i:
                    toks.append(cur)
                    cur = []
                cur.append(bb)
        toks.append(cur)
        if name == 'split':
            return e.new_list([mkstr(t) for t in toks])
        if len(toks) == 1:
            return (s, '', '') if name == 'partition' else ('', '', s)

        def joined(ts):
            out = []
            for i, t in enumerate(ts):
                out += ([args[0]] if i else []) + t
            return mkstr(out)
        if name == 'partition':
            return (mkstr(toks[0]), args[0], joined(toks[1:]))
        return (joined(toks[:-1]), args[0], mkstr(toks[-1]))
    if name in ('startswith', 'endswith'):
        a = args[0]
        if isinstance(a, tuple):
            return e.from_guard(e.b.OR(*[e.truth(str_method(e, s, name, [x], [])) for x in a]))
        q = p[0] if name == 'startswith' else p[-1]
        if isinstance(a, str):
            if a == '':
                return True
            if isinstance(q, str):
                if len(q) >= len(a):
                    return getattr(q, name)(a)
                if name == 'startswith' and not a.startswith(q):
                    return False
                if name == 'endswith' and not a.endswith(q):
                    return False
            if isinstance(q, IntText) and name == 'startswith' and len(p) == 1 and not re.match(r'-?[0-9a-fA-F]', a):
                return False
            if isinstance(q, IntText) and len(p) == 1 and name == 'startswith' and len(a) > 1 and a[1] not in '0123456789':
                return False
            if isinstance(q, FloatText) and len(p) == 1 and name == 'startswith' and not re.match(r'-?[0-9In]', a):
                return False
        z, za = e.z_str(s), e.z_str(a)
        if z is not None and za is not None:
            return e.from_guard(e.zatom(z3.PrefixOf(za, z) if name == 'startswith' else z3.SuffixOf(za, z)))
        return e.from_guard(e.atom((name, repr(s), repr(a)), name))
    if name in ('encode',):
        return s
    if name == '__len__':
        return length(e, s)
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'capitalize', 'casefold', 'removeprefix', 'removesuffix', 'expandtabs'):
        if name in ('strip', 'lstrip', 'rstrip') and not args:
            # spaces at the ends of texts that begin and end with words
            q = list(p)
            for k, side in ((0, 'lstrip'), (-1, 'rstrip')):
                if name in ('strip', side):
                    while q and isinstance(q[k], str) and not getattr(q[k], side)():
                        q.pop(k)
                    if q and isinstance(q[k], str):
                        q[k] = getattr(q[k], side)()
            if all(isinstance(x, (str, IntText)) or getattr(x, 'word', False) and x.nonempty for x in q[:1] + q[-1:]):
                return mkstr(q)
        if name in ('lower', 'upper', 'casefold') and len(p) > 1 and all(isinstance(x, (str, IntText)) or getattr(x, 'word', False) for x in p):
            return mkstr([getattr(x, name)() if isinstance(x, str) else x if isinstance(x, IntText) and x.fmt == 'd' else Fn(name, (SStr([x]),)) for x in p])
        if name in ('strip', 'lower', 'replace') and len(p) == 1 and isinstance(p[0], IntText) and p[0].fmt == 'd' and name != 'replace':
            return s
        if name == 'replace' and isinstance(args[0], str) and isinstance(args[1], str):
            out = []
            for q in p:
                if isinstance(q, str):
                    out.append(q.replace(args[0], args[1]))
                elif isinstance(q, (IntText, FloatText)) and not re.search(r'[-+.0-9a-zA-Z]', args[0]):
                    out.append(q)
                else:
                    out.append(Fn('replace', (SStr([q]), args[0], args[1])))
            return mkstr(out)
        return SStr([Fn(name, (s,) + tuple(repr(a) for a in args))])
    if name in ('isdigit', 'isnumeric', 'isalpha', 'isidentifier', 'isspace', 'isalnum', 'isdecimal', 'isupper', 'islower'):
        return e.from_guard(e.atom((name, s), name))
    if name == 'partition' and isinstance(args[0], str):
        z = e.z_str(s)
        if z is not None:
            return sym_partition(e, s, z, args[0])
    if name == 'split' and len(args) == 1 and isinstance(args[0], str):
        lit = [q for q in p if isinstance(q, str)]
        if all(isinstance(q, (str, IntText)) or (isinstance(q, StrVar) and getattr(q, 'name', '').startswith('ident_')) for q in p):
            toks, cur = [], []
            for q in p:
                if isinstance(q, str):
                    bits = q.split(args[0])
                    cur.append(bits[0])
                    for bb in bits[1:]:
                        toks.append(mkstr(cur))
                        cur = [bb]
                else:
                    cur.append(q)
            toks.append(mkstr(cur))
            return e.new_list(toks)
        # an unknown number of parts before the last one
        nm = 'split(%r,%r)' % (s, args[0])
        ln = z3.Int('len_' + nm)
        ne = e.zatom(ln > 0)
        e.b.side.append(ln >= 0)
        seq = Seq(nm, SStr([Fn('part', (s, args[0]))]), SInt(ln, name='len_' + nm), ne)
        l = e.new_list([])
        l.entries = [Seg(seq, [(ne, seq.elem)]), (TRUE, SStr([Fn('lastpart', (s, args[0]))]))]
        return l
    raise Unsupported('str.%s on symbolic text' % name)


def sym_partition(e, s, z, sep):
    zs = z3.StringVal(sep)
    g = e.zatom(z3.Contains(z, zs))
    i = z3.IndexOf(z, zs, 0)
    a = StrVar('head(%r)' % (s,), False)
    a.z = z3.SubString(z, 0, i)
    c = StrVar('tail(%r)' % (s,), False)
    c.z = z3.SubString(z, i + len(sep), z3.Length(z))
    return e.simp(e.mkU([(g, (SStr([a]), sep, SStr([c]))), (e.b.NOT(g), (s, '', ''))]))


def join(e, sep, it):
    def f(x):
        es = e.list_entries(x)
        acc = ''
        if not any(isinstance(y, Seg) for y in es):
            started = FALSE
            pc0 = e.pc
            for g, v in es:
                t, fl = e.branch(g)
                if t == FALSE:
                    continue
                e.pc = pc0
                def one(y):
                    if not isinstance(y, (str, SStr)):
                        e.throw(TypeError, 'sequence item: expected str instance')
                    return y
                e.pc = t
                v = e.over(v, one)
                tt = e.pc
                e.pc = e.b.OR(tt, fl)
                pc0 = e.pc
                withsep = e.b.AND(tt, started)
                first = e.b.DIFF(tt, started)
                alts = []
                if withsep != FALSE:
                    e.pc = withsep
                    alts.append((withsep, e.concat([acc, sep, v])))
                if first != FALSE:
                    e.pc = first
                    alts.append((first, v))
                e.pc = pc0
                if fl != FALSE:
                    alts.append((fl, acc))
                acc = e.mkU(alts)
                started = e.b.OR(started, tt)
            return acc
        raise Unsupported('join of an arbitrary sequence')
    return e.over(it, f)


# ---------------------------------------------------------------- functions
def m_isinstance(e, a, k):
    return e.from_guard(e.isinstance_(a[0], a[1]))


def m_len(e, a, k):
    return e.over(a[0], lambda x: length(e, x))


def m_str(e, a, k):
    if not a:
        return ''
    return e.to_str(a[0])


def m_int(e, a, k):
    if not a:
        return 0
    base = a[1] if len(a) > 1 else dict((n, v) for n, g, v in k).get('base', MISSING)

    def f(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SStr):
            return int_of_text(e, x, 10 if base is MISSING else base)
        if isinstance(x, SFloat):
            g = e.atom(('integral', x.name), 'integral(%s)' % x.name, z3.IsInt(x.z))
            fin = e.finite(x)
            e.throw_if(e.b.NOT(fin), OverflowError, 'cannot convert float infinity to integer')
            r = SInt(z3.Int('trunc_' + x.name))
            return e.simp(e.mkU([(g, SInt(z3.ToInt(x.z), origin=x)), (e.b.NOT(g), r)]))
        if isinstance(x, (SObj, SList, SDict, SSet)) or x is None:
            e.throw(TypeError, 'int() argument')
        if base is MISSING:
            return e.native_call(int, x)
        return e.native_call(int, x, base)
    return e.over(a[0], f)


def m_float(e, a, k):
    if not a:
        return 0.0

    def f(x):
        if isinstance(x, SFloat):
            return x
        if isinstance(x, SInt):
            return float_of_int(e, x)
        if isinstance(x, SStr):
            return float_of_text(e, x)
        if isinstance(x, (SObj, SList, SDict, SSet)) or x is None:
            e.throw(TypeError, 'float() argument')
        return e.native_call(float, x)
    return e.over(a[0], f)


def m_bool(e, a, k):
    return e.from_guard(e.truth(a[0])) if a else False


def m_list(e, a, k):
    l = e.new_list()
    if a:
        e.list_extend(l, a[0])
    return l


def m_tuple(e, a, k):
    if not a:
        return ()

    def f(x):
        es = e.list_entries(x)
        if any(isinstance(y, Seg) for y in es):
            l = e.new_list(kind=tuple)
            e.list_extend(l, x)
            return l
        alts = [((), e.pc)]
        for g, v in es:
            new = []
            for t, h in alts:
                yes, no = e.b.AND(h, g), e.b.DIFF(h, g)
                if yes != FALSE:
                    new.append((t + (v,), yes))
                if no != FALSE:
                    new.append((t, no))
            alts = new
            if len(alts) > 64:
                raise Unsupported('tuple of a guarded list')
        return e.mkU([(h, t) for t, h in alts])
    return e.over(a[0], f)


def m_dict(e, a, k):
    d = e.new_dict()
    for x in a:
        e.dict_update(d, x)
    for n, g, v in k:
        t, f = e.branch(g)
        if t != FALSE:
            e.pc = t
            e.dict_set(d, n, v)
            e.pc = e.b.OR(e.pc, f)
    return d


def m_set(e, a, k):
    s = SSet(e.new_oid(), e.pc)
    if a:
        def f(x):
            set_method(e, s, 'update', [x], [])
        e.over(a[0], f)
    return s


def m_type(e, a, k):
    if len(a) != 1:
        raise Unsupported('type()')
    return e.over(a[0], lambda x: e.pytype(x))


def m_getattr(e, a, k):
    def f(o):
        return e.over(a[1], lambda n: e.getattr1(o, n, *( [a[2]] if len(a) > 2 else [])))
    return e.over(a[0], f)


def m_hasattr(e, a, k):
    def f(o):
        v = e.getattr1(o, a[1], MISSING_ATTR)
        if isinstance(v, U):
            return e.from_guard(e.b.NOT(e.b.OR(*[g for g, x in v.alts if x is MISSING_ATTR])) if any(x is MISSING_ATTR for _, x in v.alts) else TRUE)
        return v is not MISSING_ATTR
    return e.over(a[0], f)


class _MA:
    pass


MISSING_ATTR = _MA()


def m_setattr(e, a, k):
    e.over(a[1], lambda n: e.setattr_(a[0], n, a[2]))
    return None


def m_vars(e, a, k):
    def f(o):
        if isinstance(o, SObj):
            return e.vars_of(o)
        return e.native_call(vars, o)
    return e.over(a[0], f)


def m_issubclass(e, a, k):
    return e.over2(a[0], a[1], lambda x, y: e.native_call(issubclass, x, y))


def m_print(e, a, k):
    e.prints.append((e.pc, a))
    return None


def m_enumerate(e, a, k):
    start = a[1] if len(a) > 1 else dict((n, v) for n, g, v in k).get('start', 0)

    def f(x):
        vals = e.list_entries(x)
        l = e.new_list()
        idx = start
        for y in vals:
            if isinstance(y, Seg):
                if not single(e, y):
                    raise Unsupported('enumerate of a filtered sequence')
                pos = position(e, y.src)
                l.entries.append(Seg(y.src, [(TRUE, (e.over(idx, lambda i: e.binop(ast.Add(), i, pos)), y.entries[0][1]))]))
                idx = e.over(idx, lambda i: e.binop(ast.Add(), i, y.src.length))
                continue
            g, v = y
            if e.b.implies(e.pc, g):
                l.entries.append((TRUE, (idx, v)))
                idx = e.over(idx, lambda i: i + 1)
            else:
                l.entries.append((g, (idx, v)))
                idx = e.simp(e.mkU([(g, e.over(idx, lambda i: i + 1)), (e.b.NOT(g), idx)]))
        return l
    return e.over(a[0], f)


def single(e, seg):
    """Exactly one entry for each element of the sequence."""
    return len(seg.entries) == 1 and not isinstance(seg.entries[0], Seg) and \
        not e.b.feasible(e.b.DIFF(e.b.AND(e.pc, seg.src.nonempty), seg.entries[0][0]))


def position(e, src):
    """The position of the generic element of an arbitrary sequence."""
    p = getattr(src, 'position', None)
    if p is None:
        z = z3.Int('pos_' + src.name)
        e.b.side.append(z >= 0)
        e.b.side.append(z3.Implies(e.b.to_z3(src.nonempty), z < src.length.z))
        p = src.position = SInt(z)
    return p


def m_zip(e, a, k):
    ents = [e.list_entries(x) for x in a]
    if any(isinstance(y, Seg) for c in ents for y in c):
        # columns made of the same sequences, element by element
        l = e.new_list()
        if len({len(c) for c in ents}) != 1:
            raise Unsupported('zip of different sequences')
        for row in zip(*ents):
            segs = [y for y in row if isinstance(y, Seg)]
            if len(segs) == len(row) and all(y.src is segs[0].src and single(e, y) for y in segs):
                l.entries.append(Seg(segs[0].src, [(TRUE, tuple(y.entries[0][1] for y in segs))]))
            elif not segs and all(e.b.implies(e.pc, g) for g, v in row):
                l.entries.append((TRUE, tuple(v for g, v in row)))
            else:
                raise Unsupported('zip of different sequences')
        return l
    cols = [plain_values(e, x, 'zip') for x in a]
    n = {len(c) for c in cols}
    if dict((nm, v) for nm, g, v in k).get('strict') and len(n) > 1:
        e.throw(ValueError, 'zip')
    return e.new_list([tuple(t) for t in zip(*cols)])


def m_map(e, a, k):
    l = e.new_list()
    it = a[1]

    def body(v):
        e.list_append(l, e.call(a[0], [v], []))
    iterate(e, it, body)
    return l


def m_filter(e, a, k):
    l = e.new_list()

    def body(v):
        c = e.truth(v if a[0] is None else e.call(a[0], [v], []))
        t, f = e.branch(c)
        e.pc = t
        if t != FALSE:
            e.list_append(l, v)
        e.pc = e.b.OR(t, f)
    iterate(e, a[1], body)
    return l


def iterate(e, it, body):
    def f(x):
        for y in e.list_entries(x):
            if e.pc == FALSE:
                raise Dead()
            if isinstance(y, Seg):
                e.exec_generic(y, body, None, ())
            else:
                t, fl = e.branch(y[0])
                if t == FALSE:
                    continue
                e.pc = t
                try:
                    body(y[1])
                except Dead:
                    e.pc = FALSE
                e.pc = e.b.OR(e.pc, fl)
        if e.pc == FALSE:
            raise Dead()
    e.over(it, f)


def some(e, x, want, what):
    """Guard: the truth of some element is as wanted."""
    def truth(g, v):
        l = e.live(g)
        if l == FALSE:
            return FALSE
        pc0 = e.pc
        e.pc = l
        t = e.truth(v)
        e.pc = pc0
        return e.b.AND(l, t if want else e.b.NOT(t))
    es = e.list_entries(x)
    if any(isinstance(y, Seg) and (y.src.group is None or e.loops) for y in es):
        raise Unsupported('%s over an arbitrary sequence' % what)
    return e.found(es, truth)


def m_any(e, a, k):
    return e.from_guard(some(e, e.simp(a[0]), True, 'any'))


def m_all(e, a, k):
    return e.from_guard(e.b.NOT(some(e, e.simp(a[0]), False, 'all')))


def m_iter(e, a, k):
    def f(x):
        if isinstance(x, SObj):
            m = e.class_attr(x.cls, '__iter__')
            if m is MISSING:
                e.throw(TypeError, 'not iterable')
            return e.call(BMethod(m, x), [], [])
        return x
    return e.over(a[0], f)


def m_next(e, a, k):
    def f(x):
        alts, rest = [], TRUE
        token = object()
        for y in e.list_entries(x):
            if isinstance(y, Seg):
                if y.src.group is None or e.loops or any(isinstance(z, Seg) for z in y.entries):
                    raise Unsupported('next over an arbitrary sequence')
                e.not_found(y, e.b.AND(e.pc, rest, y.src.nonempty, e.b.OR(*[z[0] for z in y.entries])), token)
                continue
            g, v = y
            m = e.b.AND(rest, g)
            if m != FALSE:
                alts.append((m, v))
            rest = e.b.DIFF(rest, g)
            if rest == FALSE:
                break
        if e.live(rest) != FALSE:
            if len(a) > 1:
                alts.append((rest, a[1]))
            else:
                e.throw_if(rest, StopIteration)
        return e.simp(e.mkU(alts))
    if isinstance(a[0], SList) and not getattr(a[0], '_once', None):
        a[0]._once = True
        return e.over(a[0], f)
    raise Unsupported('repeated next()')


def m_reversed(e, a, k):
    def f(x):
        es = e.list_entries(x)
        if any(isinstance(y, Seg) for y in es):
            raise Unsupported('reversed arbitrary sequence')
        l = e.new_list()
        l.entries = list(reversed(es))
        return l
    return e.over(a[0], f)


def m_sorted(e, a, k):
    import ast
    kw = {n: v for n, g, v in k}
    key, rev = kw.get('key'), kw.get('reverse', False)
    if not isinstance(rev, bool):
        raise Unsupported('sorted in either direction')
    present = []
    for x in e.list_entries(e.simp(a[0])):
        if isinstance(x, Seg):
            raise Unsupported('sorted of an arbitrary sequence')
        t, f = e.branch(x[0])
        if t != FALSE:
            present.append((TRUE if f == FALSE else x[0], x[1]))
    vals = [v for g, v in present]
    keys = [e.call(key, [v], []) if key is not None else v for v in vals]
    if all(g == TRUE for g, v in present) and all(is_concrete(x) for x in keys):
        order = e.native_call(lambda: sorted(range(len(vals)), key=lambda i: keys[i], reverse=rev))
        return e.new_list([vals[i] for i in order])
    n = len(vals)
    if n <= 1:
        return e.new_list(vals) if not n or present[0][0] == TRUE else entries_list(e, present)
    if n > 6:
        raise Unsupported('sorted of many symbolic values')
    # rank of each value: how many of those present come before it (stable)
    before = {}
    for i in range(n):
        for j in range(i):
            c = e.truth(e.from_guard(e.compare(ast.Gt() if rev else ast.Lt(), keys[i], keys[j])))
            before[i, j] = e.b.AND(present[i][0], c)
            before[j, i] = e.b.DIFF(present[j][0], c)
    ranks = []
    for i in range(n):
        r = {0: present[i][0]}
        for j in range(n):
            if j != i:
                new = {}
                for m, g in r.items():
                    for d, h in ((1, e.b.AND(g, before[j, i])), (0, e.b.DIFF(g, before[j, i]))):
                        if h != FALSE:
                            new[m + d] = e.b.OR(new.get(m + d, FALSE), h)
                r = new
        ranks.append(r)
    out = []
    for m in range(n):
        alts = [(r[m], v) for r, v in zip(ranks, vals) if r.get(m, FALSE) != FALSE]
        g = FALSE
        for h, _ in alts:
            g = e.b.OR(g, h)
        if e.live(g) != FALSE:
            out.append((TRUE if e.live(e.b.NOT(g)) == FALSE else g, e.simp(e.mkU(alts))))
    return entries_list(e, out)


def entries_list(e, entries):
    l = e.new_list()
    for x in entries:
        e.append_entry(l, x)
    return l


def m_minmax(op):
    def f(e, a, k):
        vals = list(a) if len(a) > 1 else plain_values(e, e.simp(a[0]), op)
        if k:
            raise Unsupported(op)
        if all(is_concrete(v) for v in vals):
            return e.native_call(max if op == 'max' else min, vals)
        acc = vals[0]
        import ast as _a
        for v in vals[1:]:
            c = e.truth(e.from_guard(e.compare(_a.Gt() if op == 'max' else _a.Lt(), v, acc)))
            acc = e.simp(e.mkU([(c, v), (e.b.NOT(c), acc)]))
        return acc
    return f


def m_range(e, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1 and isinstance(a[0], U):
        return e.over(a[0], lambda x: m_range(e, [x], k))
    seg = getattr(a[0], 'count_of', None) if len(a) == 1 else None
    if seg is not None:
        l = e.new_list()
        l.entries = [Seg(seg.src, [(TRUE, position(e, seg.src))])]
        return l
    raise Unsupported('symbolic range')


def m_callable(e, a, k):
    return e.over(a[0], lambda x: isinstance(x, (Closure, BMethod, NMethod, types.FunctionType, type)) or callable(x) and not isinstance(x, SObj))


def m_id(e, a, k):
    return e.over(a[0], lambda x: id(x))


def m_repr(e, a, k):
    return e.over(a[0], lambda x: to_repr(e, x))


def m_copy(e, a, k):
    def f(x):
        if isinstance(x, CONTAINERS):
            return copy_container(e, x)
        if isinstance(x, SObj):
            o = e.new_obj(x.cls)
            for n in e.field_names(x):
                o.fields[n] = e.read_field_raw(x, n)
            return o
        if isinstance(x, IMMUT) or isinstance(x, (SStr, SInt, SFloat, tuple, enum.Enum)):
            return x
        raise Unsupported('copy')
    return e.over(a[0], f)


def m_isinf(e, a, k):
    def f(x):
        if isinstance(x, SFloat):
            if x.of_int is not None:
                return False
            return e.from_guard(e.b.NOT(e.finite(x)))
        if isinstance(x, SInt):
            return False
        return e.native_call(math.isinf, x)
    return e.over(a[0], f)


def m_isfinite(e, a, k):
    def f(x):
        if isinstance(x, SFloat):
            return True if x.of_int is not None else e.from_guard(e.finite(x))
        if isinstance(x, SInt):
            return True
        return e.native_call(math.isfinite, x)
    return e.over(a[0], f)


def m_isnan(e, a, k):
    def f(x):
        if isinstance(x, (SFloat, SInt)):
            return False       # NaN is outside the domain (precondition)
        return e.native_call(math.isnan, x)
    return e.over(a[0], f)


def m_sum(e, a, k):
    vals = plain_values(e, e.simp(a[0]), 'sum')
    acc = a[1] if len(a) > 1 else 0
    import ast as _a
    for v in vals:
        acc = e.binop(_a.Add(), acc, v)
    return acc


def m_abs(e, a, k):
    def f(x):
        if isinstance(x, SInt):
            return SInt(z3.simplify(z3.If(x.z < 0, -x.z, x.z)))
        return e.native_call(abs, x)
    return e.over(a[0], f)


def m_partial(e, a, k):
    f, pre = a[0], a[1:]
    def h(e2, aa, kk):
        return e2.call(f, list(pre) + list(aa), list(k) + list(kk))
    return NativeFn(h)


def m_hex(code):
    def f(e, a, k):
        return e.over(a[0], lambda x: format_value(e, x, '#' + code))
    return f


def m_chain(e, a, k):
    l = e.new_list()
    for x in a:
        e.list_extend(l, x)
    return l


def m_chain_iter(e, a, k):
    l = e.new_list()
    for x in plain_values(e, e.simp(a[0]), 'chain'):
        e.list_extend(l, x)
    return l


def m_deque(e, a, k):
    l = e.new_list(kind=collections.deque)
    if a:
        e.list_extend(l, a[0])
    return l


def m_format(e, a, k):
    return e.format_value(a[0], a[1] if len(a) > 1 else '')


def m_attrgetter(e, a, k):
    names = a

    def h(e2, aa, kk):
        def get(n):
            v = aa[0]
            for p in n.split('.'):
                v = e2.getattr_(v, p)
            return v
        return get(names[0]) if len(names) == 1 else tuple(get(n) for n in names)
    return NativeFn(h)


def m_basename(e, args, kwargs):
    def f(p):
        return SStr([Fn('basename', p)]) if isinstance(p, SStr) else e.native_call(os.path.basename, p)
    return e.over(args[0], f)


def m_join(e, a, k):
    """posixpath.join."""
    acc = a[0]
    for x in a[1:]:
        def f(p, q):
            if not isinstance(p, (str, SStr)) or not isinstance(q, (str, SStr)):
                return e.throw_if(TRUE, TypeError, 'join')
            if isinstance(p, str) and isinstance(q, str):
                return os.path.join(p, q)
            root = str_method(e, q, 'startswith', ['/'], [])
            slash = str_method(e, p, 'endswith', ['/'], [])
            r, sl, em = e.truth(root), e.truth(slash), e.b.NOT(e.truth(p))
            tail = e.b.OR(sl, em)
            alts = [(r, q), (e.b.DIFF(tail, r), mkstr([p, q])), (e.b.DIFF(e.b.NOT(r), tail), mkstr([p, '/', q]))]
            return e.simp(e.mkU([(g, v) for g, v in alts if g != FALSE]))
        acc = e.over(e.simp(acc), lambda p: e.over(e.simp(x), lambda q: f(p, q)))
    return acc


def m_normpath(e, a, k):
    """posixpath.normpath of texts whose variable parts are names, or paths of names."""
    def f(p):
        if not isinstance(p, SStr):
            return e.native_call(os.path.normpath, p)
        comps, cur = [], []
        for part in p.parts:
            if isinstance(part, str):
                bits = part.split('/')
                for i, b in enumerate(bits):
                    if i:
                        comps.append(cur)
                        cur = []
                    if b:
                        cur.append(b)
            elif isinstance(part, StrVar) and (part.ident or part.clean):
                cur.append(part)
            else:
                raise Unsupported('normpath(%r)' % (p,))
        comps.append(cur)
        root = not comps[0] and len(comps) > 1
        if root and len(comps) > 2 and not comps[1] and (len(comps) < 4 or comps[2]):
            raise Unsupported('normpath(%r)' % (p,))
        out = []
        for c in comps:
            if not c or c == ['.']:
                continue
            if c == ['..']:
                if not out and root:
                    continue
                if not out or len(out[-1]) != 1 or not (isinstance(out[-1][0], str) and out[-1][0] != '..' or isinstance(out[-1][0], StrVar) and out[-1][0].ident):
                    raise Unsupported('normpath(%r)' % (p,))
                out.pop()
                continue
            vs = [x for x in c if not isinstance(x, str)]
            if len(c) > 1 and (any(not v.ident for v in vs) or not any(isinstance(x, str) and x.strip('.') for x in c)):
                raise Unsupported('normpath(%r)' % (p,))
            if len(c) == 1 and vs and vs[0].ident:
                for d in ('.', '..'):
                    e.b.side.append(vs[0].z != z3.StringVal(d))
            out.append(c)
        parts = ['/'] if root else []
        for i, c in enumerate(out):
            parts += (['/'] if i else []) + c
        return mkstr(parts) if parts else '.'
    return e.over(e.simp(a[0]), f)


def m_itemgetter(e, a, k):
    def h(e2, aa, kk):
        return e2.getitem(aa[0], a[0]) if len(a) == 1 else tuple(e2.getitem(aa[0], i) for i in a)
    return NativeFn(h)


class NativeFn:
    def __init__(self, h):
        self.h = h
        self.__name__ = 'native'


TABLE = {
    isinstance: m_isinstance, len: m_len, str: m_str, int: m_int, float: m_float, bool: m_bool, list: m_list,
    tuple: m_tuple, dict: m_dict, set: m_set, frozenset: m_set, type: m_type, getattr: m_getattr, hasattr: m_hasattr,
    setattr: m_setattr, vars: m_vars, issubclass: m_issubclass, print: m_print, enumerate: m_enumerate, zip: m_zip,
    map: m_map, filter: m_filter, any: m_any, all: m_all, iter: m_iter, next: m_next, reversed: m_reversed,
    sorted: m_sorted, max: m_minmax('max'), min: m_minmax('min'), range: m_range, callable: m_callable, id: m_id,
    repr: m_repr, copymod.copy: m_copy, math.isinf: m_isinf, math.isfinite: m_isfinite, math.isnan: m_isnan, sum: m_sum, abs: m_abs,
    functools.partial: m_partial, hex: m_hex('x'), bin: m_hex('b'), oct: m_hex('o'), itertools.chain: m_chain,
    itertools.chain.from_iterable: m_chain_iter, collections.deque: m_deque, collections.OrderedDict: m_dict,
    os.path.basename: m_basename, os.path.join: m_join, os.path.normpath: m_normpath, format: m_format, operator.attrgetter: m_attrgetter, operator.itemgetter: m_itemgetter,
}


class PatternMethodResult:
    pass


class SMatch:
    """Result of a successful match of a regular expression against symbolic text."""

    def __init__(self, pattern, text, mode):
        self.pattern = pattern
        self.text = text
        self.mode = mode


class NumberMatch:
    """Match of a pattern around one number."""

    def __init__(self, groups):
        self.groups = groups


class NumberMatchModel:
    pytype = re.Match

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def truth(e, o):
        return TRUE

    @staticmethod
    def getitem(e, o, i):
        return o.groups[i]

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name == 'group' and len(args) <= 1:
            i = args[0] if args else 0
            if i not in (0, 1):
                e.throw(IndexError, 'no such group')
            return o.groups[i]
        if name == 'groups' and not args:
            return (o.groups[1],)
        raise Unsupported('match.%s' % name)


def search_number(e, pattern, s):
    """re.search of  literal (\\d+) literal  in a text made of literals and one natural number."""
    m = re.fullmatch(r'([^\\()\[\]{}.*+?|^$\d]+)\(\\d\+\)((?:[^\\()\[\]{}*+?|^$\d]|\\\.)*)', pattern.pattern)
    if m is None or pattern.flags & ~re.UNICODE or any(not isinstance(p, (str, IntText)) for p in s.parts):
        return NotImplemented
    nums = [i for i, p in enumerate(s.parts) if isinstance(p, IntText)]
    if len(nums) != 1 or s.parts[nums[0]].fmt[-1] != 'd':
        return NotImplemented
    i = nums[0]
    num = s.parts[i]
    before, after = ''.join(s.parts[:i]), ''.join(s.parts[i + 1:])
    if any(c.isdigit() or c == '-' for c in before[-1:] + after[:1]) or e.b.feasible(e.b.AND(e.pc, e.zatom(num.i.z < 0))):
        return NotImplemented
    if re.search(m.group(1) + r'\d', before) or re.search(m.group(1) + r'\d', after):
        return NotImplemented
    if not before.endswith(m.group(1)):
        return None
    t = re.match(m.group(2), after)
    if t is None:
        return None
    return NumberMatch([SStr([m.group(1), num, t.group(0)]) if t.group(0) else SStr([m.group(1), num]), SStr([num])])


def re_call(e, pattern, mode, s):
    """pattern.match/fullmatch/search on symbolic text: opaque, deterministic predicate."""
    h = getattr(e, 'regex_hook', None)
    if h is not None:
        r = h(e, pattern, mode, s)
        if r is not NotImplemented:
            return r
    if mode == 'search':
        r = search_number(e, pattern, s)
        if r is not NotImplemented:
            return r
    g = e.atom(('re', pattern.pattern, mode, s), 're.%s(%s)' % (mode, pattern.pattern[:20]))
    return e.simp(e.mkU([(g, SMatch(pattern, s, mode)), (e.b.NOT(g), None)]))


def call_native(e, f, args, kwargs):
    if isinstance(f, NativeFn):
        return f.h(e, args, kwargs)
    try:
        h = TABLE.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(e, args, kwargs)
    # regular expressions on symbolic text
    selfobj = getattr(f, '__self__', None)
    if isinstance(selfobj, re.Pattern) and f.__name__ in ('match', 'fullmatch', 'search') and len(args) == 1:
        return e.over(args[0], lambda s: re_call(e, selfobj, f.__name__, s) if isinstance(s, SStr)
                      else e.native_call(f, s))
    if f in (re.match, re.fullmatch, re.search) and len(args) >= 2:
        def g(p, s):
            if isinstance(p, str):
                p = re.compile(p)
            if isinstance(p, SStr):
                raise Unsupported('symbolic regular expression')
            return re_call(e, p, f.__name__, s) if isinstance(s, SStr) else e.native_call(getattr(p, f.__name__), s)
        return e.over2(args[0], args[1], g)
    if f is re.compile and isinstance(args[0], SStr):
        h = getattr(e, 'regex_compile_hook', None)
        if h is not None:
            return h(e, args[0])
        raise Unsupported('symbolic regular expression')
    if f is re.escape and isinstance(args[0], SStr):
        return SStr([Fn('re.escape', args[0])])
    # lift unions
    for i, a in enumerate(args):
        if isinstance(a, U):
            return e.over(a, lambda x: call_native(e, f, args[:i] + [x] + args[i + 1:], kwargs))
    for i, (k, g, v) in enumerate(kwargs):
        if isinstance(v, U):
            return e.over(v, lambda x: call_native(e, f, args, kwargs[:i] + [(k, g, x)] + kwargs[i + 1:]))
    if all(is_concrete(a) and type(a) not in e.attr_models for a in args) and all(is_concrete(v) and g == TRUE for _, g, v in kwargs):
        if allowed(f):
            return e.native_call(lambda: f(*args, **{k: v for k, _, v in kwargs}))
        raise Unsupported('native call %r' % (f,))
    raise Unsupported('native call %s on symbolic arguments' % getattr(f, '__qualname__', f))


ALLOWED_MODULES = ('math', 'decimal', 're', 'enum', 'builtins', 'operator', 'functools', 'itertools', 'collections', '_collections',
                   '_operator', '_decimal', '_functools', '_collections_abc', 'posixpath', 'autosar', 'cfile', 'string', '_sre', 'abc', 'html', 'xml')


def allowed(f):
    mod = getattr(f, '__module__', None)
    s = getattr(f, '__self__', None)
    if mod is None and s is not None:
        mod = type(s).__module__
    if mod is None:
        mod = type(f).__module__
    if f in (open, exec, eval, compile, input, __import__):
        return False
    if isinstance(s, (dict, list, set)) and getattr(f, '__name__', '') not in ('get', 'keys', 'values', 'items', 'copy', 'index', 'count'):
        return False
    return (mod or '').split('.')[0] in ALLOWED_MODULES or mod == 'os.path'


class SDec:
    """decimal.Decimal made from the shortest text of a float (assumed semantics of the decimal
    module: exact value, 28 digits of precision, at most 17 of them significant)."""
    __slots__ = ('f', 'form')

    def __init__(self, f, form='raw'):
        self.f, self.form = f, form


def integral(e, f):
    if f.of_int is not None:
        return TRUE
    return e.atom(('integral', f.name), 'integral(%s)' % f.name, z3.IsInt(f.z))


def below(e, f, k):
    """|f| < 10**k"""
    lim = z3.RealVal(10 ** k) if k >= 0 else z3.RealVal('1/' + str(10 ** -k))
    return e.zatom(z3.And(f.z < lim, f.z > -lim))


class DecModel:
    pytype = decimal.Decimal

    @staticmethod
    def truth(e, o):
        return e.b.NOT(e.zatom(o.f.z == 0))

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def eq(e, a, b):
        if isinstance(a, SDec) and isinstance(b, SDec) and a.f is b.f:
            if ('integral' in (a.form, b.form)) and a.form != b.form:
                return integral(e, a.f)
            return TRUE
        if isinstance(a, SDec) and isinstance(b, (int, SInt, SFloat)) and a.form != 'integral':
            return e.num_cmp('==', a.f, b)
        if isinstance(b, SDec) and isinstance(a, (int, SInt, SFloat)) and b.form != 'integral':
            return e.num_cmp('==', b.f, a)
        raise Unsupported('decimal comparison')

    @staticmethod
    def to_str(e, o):
        if o.form == 'quantized':
            return SStr([FloatText(o.f, 'n')])
        if o.form == 'raw':
            return SStr([FloatText(o.f, 'r')])
        return SStr([FloatText(o.f, 'm')])

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name in ('to_integral', 'to_integral_value', 'to_integral_exact') and not args:
            return SDec(o.f, 'integral')
        if name == 'quantize' and len(args) == 1 and args[0] == decimal.Decimal(1):
            e.throw_if(e.b.NOT(below(e, o.f, 28)), decimal.InvalidOperation, 'quantize')
            i = integral(e, o.f)
            if e.live(e.b.NOT(i)) != FALSE:
                raise Unsupported('rounding quantize')
            return SDec(o.f, 'quantized')
        if name == 'normalize' and not args:
            return SDec(o.f, 'normal')
        if name == 'adjusted' and not args:
            k = ('adjusted', o.f.name)
            v = e.atom_cache.get(k)
            if v is None:
                v = SInt(z3.Int('adjusted_' + o.f.name))
                e.atom_cache[k] = v
                for n in range(-8, 40):
                    lim = z3.RealVal(10 ** n) if n >= 0 else z3.RealVal('1/' + str(10 ** -n))
                    e.b.side.append(z3.Implies(o.f.z != 0, (v.z >= n) == z3.Or(o.f.z >= lim, o.f.z <= -lim)))
                e.b.side.append(z3.Implies(o.f.z == 0, v.z < 1))
            return v
        if name in ('is_nan',):
            return False
        raise Unsupported('Decimal.%s' % name)


def m_decimal(e, a, k):
    def f(x):
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], FloatText) and x.parts[0].fmt == 'r':
            return SDec(x.parts[0].f)
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], IntText) and x.parts[0].fmt == 'd':
            return SDec(float_of_int(e, x.parts[0].i), 'int')
        if is_concrete(x):
            return e.native_call(decimal.Decimal, x)
        raise Unsupported('Decimal(%r)' % (x,))
    return e.over(a[0], f) if a else decimal.Decimal()


TABLE[decimal.Decimal] = m_decimal


class MatchModel:
    pytype = re.Match

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def truth(e, o):
        return TRUE

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name == 'group' and args and isinstance(args[0], int):
            z = StrVar('grp%d(%s,%r)' % (args[0], o.pattern.pattern, o.text))
            return SStr([z])
        raise Unsupported('match.%s' % name)
