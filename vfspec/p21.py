"""P21: the type model and the type header hold every type that was asked for, after the types it is made of."""
import re
from . import Spec
from .api import check, written, assume, equal, identical, raises


def setup(e):
    from . import roundtrip
    roundtrip.setup(e)


def text_setup(e):
    """The functions that read a text again treat names and numbers in it as they treat any other word."""
    from vf.values import SStr, StrVar, IntText, Unsupported, mkstr

    def lift(f):
        def h(e, args, kwargs):
            def on(text):
                if isinstance(text, str):
                    return f(text, *args[1:])
                if not isinstance(text, SStr):
                    raise Unsupported('reading of no text')
                table = {}
                plain = ''
                for p in text.parts:
                    if isinstance(p, str):
                        plain += p
                    elif isinstance(p, IntText) or (isinstance(p, StrVar) and p.word):
                        k = '\ue000%d\ue001' % len(table)
                        table[k] = p
                        plain += k
                    else:
                        raise Unsupported('reading of a text with any characters')

                def back(s):
                    parts = []
                    for x in re.split('(\ue000[0-9]+\ue001)', s):
                        parts.append(table.get(x, x))
                    return mkstr(parts)
                return e.new_list([back(x) for x in f(plain, *args[1:])])
            return e.over(args[0], on)
        return h
    for f in (words, lines_of, preprocessed):
        e.native[f] = lift(f)


def world(*elements):
    """A workspace with the elements in a package, and a model of its types."""
    import autosar.xml.workspace as ws
    import autosar.model.implementation as im
    w = ws.Workspace()
    p = w.make_packages('T')
    for x in elements:
        p.append(x)
    return w, im.ImplementationModel(w)


def distinct(*names):
    for i in range(len(names)):
        for j in range(i):
            assume(names[i] != names[j])


def is_base(x, b):
    import autosar.model.element as rt
    check(type(x) is rt.BaseType and x.ref == '/T/' + b.name and x.name == b.name and x.native_declaration == b.native_declaration, 'the base type')


def is_type(x, cls, n, symbol, emitter):
    import autosar.model.element as rt
    check(type(x) is getattr(rt, cls) and x.ref == '/T/' + n and x.name == n, 'the type')
    check(x.symbol_name == (n if symbol is None else symbol), 'its symbol')
    check(x.type_emitter == emitter, 'who defines it')
    check(x.const is False, 'it is no constant')


def props(symbol):
    import autosar.xml.element as el
    return None if symbol is None else el.SymbolProps('S', symbol)


def value_of(b):
    import autosar.xml.element as el
    return el.SwDataDefPropsConditional(base_type_ref=b.ref())


def type_of(t):
    import autosar.xml.element as el
    return el.SwDataDefPropsConditional(impl_data_type_ref=t.ref())


def known(m, *elements):
    """The model holds the types of these elements."""
    check(len(m.data_types) == len(elements), 'nothing else is created')
    for x in elements:
        check(str(x.ref()) in m.data_types, 'the type is known')


def asked(m, *pairs):
    """Exactly those of the elements with a true second part were asked for."""
    count = 0
    for x, wanted in pairs:
        ref = str(x.ref())
        check((ref in m.source_type_refs) == wanted, 'the types that were asked for')
        if wanted:
            count += 1
    check(len(m.source_type_refs) == count, 'the types that were asked for')


# ---------------------------------------------------------------- reading the text again (the oracle)
def words(text):
    return text.replace('{', ' { ').replace(';', ' ; ').replace('}', ' } ').split()


def lines_of(text):
    return [x for x in text.split('\n') if x != '']


def preprocessed(text, plus):
    """The lines that are seen by a compiler."""
    out = []
    on = [True]
    comment = False
    for x in lines_of(text):
        if x.startswith('/*'):
            comment = True
        elif comment:
            comment = not x.endswith('*/')
        elif x.startswith('#ifndef '):
            on.append(on[-1] and not (plus and x == '#ifndef __cplusplus'))
        elif x.startswith('#ifdef '):
            on.append(on[-1] and plus and x == '#ifdef __cplusplus')
        elif x.startswith('#endif'):
            on.pop()
        elif on[-1] and not x.startswith('#define '):
            out.append(x)
    return out


# ---------------------------------------------------------------- the model of the types
def base_type(b, source):
    w, m = world(b)
    x = m.create_from_element(b, source)
    is_base(x, b)
    known(m, b)
    asked(m, (b, source))
    check(m.create_from_element(b, source) is x and m.create_from_ref(b.ref(), source) is x and m.create_from_ref(str(b.ref()), False) is x, 'one type for each element')
    known(m, b)
    check(m.create_from_element(b) is x, 'one type for each element')
    asked(m, (b, True))


def scalar_type(b, n, symbol, emitter, source):
    import autosar.xml.element as el
    assume(n != b.name)
    w, m = world(b)
    t = el.ImplementationDataType(n, category='VALUE', sw_data_def_props=value_of(b), symbol_props=props(symbol), type_emitter=emitter)
    w.find('/T').append(t)
    x = m.create_from_element(t, source)
    is_type(x, 'ScalarType', n, symbol, emitter)
    is_base(x.base_type, b)
    known(m, b, t)
    check(m.data_types['/T/' + n] is x and m.data_types['/T/' + b.name] is x.base_type, 'one type for each element')
    asked(m, (t, source), (b, False))
    check(m.create_from_element(t, source) is x and m.create_from_ref(t.ref(), source) is x, 'one type for each element')
    y = m.create_from_element(b)
    check(y is x.base_type, 'one type for each element')
    asked(m, (t, source), (b, True))


def ref_type(b, s, n, symbol, emitter, source, early):
    import autosar.xml.element as el
    distinct(b.name, s, n)
    w, m = world(b)
    p = w.find('/T')
    u = el.ImplementationDataType(s, category='VALUE', sw_data_def_props=value_of(b))
    p.append(u)
    t = el.ImplementationDataType(n, category='TYPE_REFERENCE', sw_data_def_props=type_of(u), symbol_props=props(symbol), type_emitter=emitter)
    p.append(t)
    if early:
        first = m.create_from_element(u)
    x = m.create_from_element(t, source)
    is_type(x, 'RefType', n, symbol, emitter)
    is_type(x.impl_type, 'ScalarType', s, None, None)
    is_base(x.impl_type.base_type, b)
    known(m, b, u, t)
    for q in (b, u, t):
        check(m.create_from_element(q, False) is (x if q is t else x.impl_type if q is u else x.impl_type.base_type), 'one type for each element')
    if early:
        check(x.impl_type is first, 'one type for each element')
    asked(m, (u, early), (t, source), (b, False))


def array_type(by_value):
    def spec(b, s, n, member, size, impl, handling, semantics, symbol, emitter):
        import autosar.xml.element as el
        import autosar.model.element as rt
        distinct(b.name, s, n)
        w, m = world(b)
        p = w.find('/T')
        u = el.ImplementationDataType(s, category='VALUE', sw_data_def_props=value_of(b))
        p.append(u)
        sub = el.ImplementationDataTypeElement(member, category='VALUE' if by_value else 'TYPE_REFERENCE', sw_data_def_props=value_of(b) if by_value else type_of(u), array_size=size,
                                               array_impl_policy=impl, array_size_handling=handling, array_size_semantics=semantics)
        t = el.ImplementationDataType(n, category='ARRAY', sub_elements=[sub], symbol_props=props(symbol), type_emitter=emitter)
        p.append(t)
        x = m.create_from_element(t)
        is_type(x, 'ArrayType', n, symbol, emitter)
        check(len(x.sub_elements) == 1, 'one dimension')
        y = x.sub_elements[0]
        check(type(y) is rt.ArrayTypeElement and y.name == member and y.ref == '/T/' + n + '/' + member and y.array_size == size, 'its elements')
        for k, v in (('impl_policy', impl), ('size_handling', handling), ('size_semantics', semantics)):
            if v is None:
                check(getattr(y, k) is None, 'what was not given')
            else:
                check(getattr(y, k).name == v.name, 'what was given')
        z = y.data_type
        check(z.ref == y.ref and z.name == member, 'the type of its elements')
        if by_value:
            check(type(z) is rt.ScalarType, 'the type of its elements')
            is_base(z.base_type, b)
            known(m, b, t)
        else:
            check(type(z) is rt.RefType, 'the type of its elements')
            is_type(z.impl_type, 'ScalarType', s, None, None)
            check(z.impl_type is m.create_from_element(u, False), 'one type for each element')
            known(m, b, u, t)
        asked(m, (t, True))
    return spec


def record_type(b, s, n, values, types, symbol, emitter):
    """A record with any number of members of either kind."""
    import autosar.xml.element as el
    import autosar.model.element as rt
    distinct(b.name, s, n)
    w, m = world(b)
    p = w.find('/T')
    u = el.ImplementationDataType(s, category='VALUE', sw_data_def_props=value_of(b))
    p.append(u)
    m.create_from_element(u, False)
    subs = []
    for x in values:
        subs.append(el.ImplementationDataTypeElement(x, category='VALUE', sw_data_def_props=value_of(b)))
    for x in types:
        subs.append(el.ImplementationDataTypeElement(x, category='TYPE_REFERENCE', sw_data_def_props=type_of(u)))
    t = el.ImplementationDataType(n, category='STRUCTURE', sub_elements=subs, symbol_props=props(symbol), type_emitter=emitter)
    p.append(t)
    x = m.create_from_element(t)
    is_type(x, 'RecordType', n, symbol, emitter)
    check(len(x.sub_elements) == len(subs), 'one member for each element')
    for y, e in zip(x.sub_elements, subs):
        check(type(y) is rt.RecordTypeElement and y.name == e.name and y.ref == '/T/' + n + '/' + e.name, 'a member')
        z = y.data_type
        check(z.ref == y.ref and z.name == e.name, 'the type of a member')
        if e.category == 'VALUE':
            check(type(z) is rt.ScalarType, 'the type of a member')
            is_base(z.base_type, b)
        else:
            check(type(z) is rt.RefType and z.impl_type is m.data_types['/T/' + s], 'the type of a member')
    known(m, b, u, t)
    asked(m, (t, True))


def same_name(n, decl, other, base, order, source):
    """Elements with one name in two packages have two types."""
    import autosar.xml.element as el
    import autosar.xml.workspace as ws
    import autosar.model.implementation as im
    p, q = 'T', 'Types'
    w = ws.Workspace()
    first, second = w.make_packages(p, q)
    if base:
        x, y = el.SwBaseType(n, native_declaration=decl), el.SwBaseType(n, native_declaration=other)
        first.append(x)
        second.append(y)
        more = 0
    else:
        b = el.SwBaseType(n + 'b')
        first.append(b)
        x = el.ImplementationDataType(n, category='VALUE', sw_data_def_props=value_of(b), type_emitter=decl)
        y = el.ImplementationDataType(n, category='VALUE', sw_data_def_props=value_of(b), type_emitter=other)
        first.append(x)
        second.append(y)
        more = 1
    m = im.ImplementationModel(w)
    if order:
        s = m.create_from_element(x, source)
        t = m.create_from_ref(y.ref(), source)
    else:
        t = m.create_from_ref(y.ref(), source)
        s = m.create_from_element(x, source)
    check(s is not t and s.name == n and t.name == n and s.ref == '/' + p + '/' + n and t.ref == '/' + q + '/' + n, 'a type for each')
    if base:
        check(s.native_declaration == decl and t.native_declaration == other, 'with its content')
    else:
        check(s.type_emitter == decl and t.type_emitter == other and s.base_type is t.base_type, 'with its content')
    check(len(m.data_types) == 2 + more and m.data_types[s.ref] is s and m.data_types[t.ref] is t, 'both are known')
    asked(m, (x, source), (y, source))
    check(m.create_from_element(x, source) is s and m.create_from_element(y, source) is t, 'the same when asked again')


def pointer_type(b, s, n, symbol, emitter, to_base):
    import autosar.xml.element as el
    distinct(b.name, s, n)
    w, m = world(b)
    p = w.find('/T')
    u = el.ImplementationDataType(s, category='VALUE', sw_data_def_props=value_of(b))
    p.append(u)
    target = el.SwPointerTargetProps('VALUE' if to_base else 'TYPE_REFERENCE', value_of(b) if to_base else type_of(u))
    t = el.ImplementationDataType(n, category='DATA_REFERENCE', sw_data_def_props=el.SwDataDefPropsConditional(ptr_target_props=target), symbol_props=props(symbol), type_emitter=emitter)
    p.append(t)
    x = m.create_from_element(t)
    is_type(x, 'PointerType', n, symbol, emitter)
    if to_base:
        is_base(x.target_type, b)
        known(m, b, t)
    else:
        is_type(x.target_type, 'ScalarType', s, None, None)
        known(m, b, u, t)
    asked(m, (t, True))


def rejected(b, n, s, category, text):
    """What has no type is rejected, and the model does not pretend to know it."""
    import autosar.xml.element as el
    distinct(b.name, n, s)
    assume(category not in ('VALUE', 'TYPE_REFERENCE', 'ARRAY', 'STRUCTURE', 'DATA_REFERENCE'))
    w, m = world(b)
    p = w.find('/T')
    t = el.ImplementationDataType(n, category=category)
    p.append(t)
    o = el.ApplicationPrimitiveDataType(s)
    p.append(o)
    check(raises(NotImplementedError, m.create_from_element, t) and raises(NotImplementedError, m.create_from_element, o), 'it is rejected')
    distinct(text, b.name, n, s)
    check(raises(KeyError, m.create_from_ref, '/T/' + text), 'a reference to nothing is rejected')
    x = m.create_from_element(b)
    asked(m, (b, True))
    known(m, b)
    trees = m.gen_type_dependency_trees()
    check(len(trees) == 1 and trees[0].data is x, 'the types that are known')


# ---------------------------------------------------------------- what a type is made of
def trees(a, b, n, s, order):
    import autosar.xml.element as el
    distinct(a.name, b.name, n, s)
    w, m = world(a, b)
    p = w.find('/T')
    t = el.ImplementationDataType(n, category='VALUE', sw_data_def_props=value_of(a))
    p.append(t)
    u = el.ImplementationDataType(s, category='TYPE_REFERENCE', sw_data_def_props=type_of(t))
    p.append(u)
    for q in ((u, b) if order else (b, u)):
        m.create_from_element(q)
    got = m.gen_type_dependency_trees()
    check(len(got) == 2, 'one tree for each type that was asked for')
    for g in got:
        check(g.data is m.data_types['/T/' + (b.name if g.data.ref == '/T/' + b.name else s)], 'a type that was asked for')
    check(got[0].data is not got[1].data, 'each once')


def made_of(b, member, values, arrays, by_value, size):
    """The nodes below a type are the types its definition names."""
    import autosar.model.element as rt
    import autosar.model.implementation as im
    m = im.ImplementationModel(None)
    base = rt.BaseType('/b', b, None)
    s = rt.ScalarType('/s', 's', base)
    r = rt.RefType('/r', 'r', s)
    a = rt.ArrayType('/a', 'a')
    a.sub_elements.append(rt.ArrayTypeElement('/a/x', member, size, rt.ScalarType('/a/x', member, base) if by_value else rt.RefType('/a/x', member, r)))
    c = rt.RecordType('/c', 'c')
    for k in values:
        c.sub_elements.append(rt.RecordTypeElement('/c/k', k, rt.ScalarType('/c/k', k, base)))
    for k in arrays:
        c.sub_elements.append(rt.RecordTypeElement('/c/k', k, rt.RefType('/c/k', k, a)))

    def below(x):
        g = m._create_tree_node(x)
        check(g.data is x, 'the type itself')
        return g.children
    check(len(below(base)) == 0, 'a base type needs no other type')
    g = below(s)
    check(len(g) == 1 and g[0].data is base, 'a scalar type needs its base type')
    g = below(r)
    check(len(g) == 1 and g[0].data is s and len(g[0].children) == 1 and g[0].children[0].data is base, 'a reference needs its type')
    g = below(a)
    check(len(g) == (0 if by_value else 1), 'an array needs the type of its elements')
    if not by_value:
        check(g[0].data is r and len(g[0].children) == 1 and g[0].children[0].data is s, 'an array needs the type of its elements')
    g = below(c)
    check(len(g) == len(arrays), 'a record needs the types of its members')
    for x in g:
        check(x.data is a and len(x.children) == (0 if by_value else 1), 'a record needs the types of its members')


# ---------------------------------------------------------------- the order of the definitions
def shapes(n):
    """The ordered trees with n nodes, as nested tuples."""
    if n == 1:
        return [()]
    return forests(n - 1)


def forests(n):
    if n == 0:
        return [()]
    return [(t,) + f for k in range(1, n + 1) for t in shapes(k) for f in forests(n - k)]


def creation_order(shape):
    def spec():
        import autosar.model.implementation as im
        m = im.ImplementationModel(None)
        nodes = []

        def grow(s, parent):
            x = im.Node(len(nodes))
            nodes.append((x, parent))
            for c in s:
                y = grow(c, x)
                x.add_child(y)
            return x
        root = grow(shape, None)
        order = list(m.get_type_creation_order(root))
        check(len(order) == len(nodes), 'every node once')
        where = {x.data: i for i, x in enumerate(order)}
        for x, parent in nodes:
            check(x.data in where and order[where[x.data]] is x, 'every node once')
            if parent is not None:
                check(where[x.data] < where[parent.data], 'a type comes after those it needs')
    return spec


def definitions(edges, roots):
    """Types that need each other in a given way: `edges[i]` are the earlier types the i-th is made of (records), of which some are asked for."""
    def spec(names, native, emitters):
        import autosar.model.element as rt
        import autosar.model.implementation as im
        import autosar.generator as gen
        n = len(edges)
        m = im.ImplementationModel(None)
        types = []
        for i in range(n):
            if not edges[i]:
                x = rt.BaseType('/%d' % i, names[i], native)
            else:
                x = rt.RecordType('/%d' % i, names[i], type_emitter=emitters[i])
                for j in edges[i]:
                    x.sub_elements.append(rt.RecordTypeElement('/%d/m%d' % (i, j), 'm%d' % j, rt.RefType('/%d/m%d' % (i, j), 'm', types[j])))
            types.append(x)
            m.data_types[x.ref] = x
        m.source_type_refs.update(['/%d' % i for i in roots])
        needed = set()

        def need(i):
            if i not in needed:
                needed.add(i)
                for j in edges[i]:
                    need(j)
        for i in roots:
            need(i)
        got = gen.TypeGenerator(m).gen_data_type_creation_order()
        where = {}
        for k, x in enumerate(got):
            check(x.ref not in where, 'every type is defined once')
            where[x.ref] = k
            check(int(x.ref[1:]) in needed and types[int(x.ref[1:])] is x, 'only types that are needed')
        for i in needed:
            x = types[i]
            if not edges[i]:
                mine = native is not None and native != ''
            else:
                mine = emitters[i] is None or emitters[i].upper() == 'RTE'
            check((x.ref in where) == mine, 'exactly the types that are defined here')
            for j in edges[i]:
                if x.ref in where and types[j].ref in where:
                    check(where[types[j].ref] < where[x.ref], 'a type comes after those it needs')
    return spec


# ---------------------------------------------------------------- the text of the definitions
def header(*types):
    import autosar.model.element as rt
    import autosar.model.implementation as im
    import autosar.generator as gen
    m = im.ImplementationModel(None)
    for x in types:
        m.data_types[x.ref] = x
        m.source_type_refs.add(x.ref)
    return gen.TypeGenerator(m)


def simple_definitions(n, t, decl, u, symbol, other):
    import autosar.model.element as rt
    b = rt.BaseType('/b', n, decl)
    check(header(b).write_type_defs_str() == 'typedef ' + decl + ' ' + n + ';\n', 'the definition of a base type')
    check(header(rt.BaseType('/b', n)).write_type_defs_str() == '' and header(rt.BaseType('/b', n, '')).write_type_defs_str() == '', 'a base type without definition')
    s = rt.ScalarType('/s', t, rt.BaseType('/c', n), symbol)
    check(header(s).write_type_defs_str() == 'typedef ' + n + ' ' + t + ';\n', 'the definition of a scalar type')
    r = rt.RefType('/r', u, s, other)
    check(header(r).write_type_defs_str() == 'typedef ' + n + ' ' + t + ';\ntypedef ' + t + ' ' + u + ';\n', 'the definition of a reference, after its type')
    r = rt.RefType('/r', u, rt.ScalarType('/s', t, b, symbol), other)
    check(header(r).write_type_defs_str() == 'typedef ' + decl + ' ' + n + ';\ntypedef ' + n + ' ' + t + ';\ntypedef ' + t + ' ' + u + ';\n', 'the definitions in order')


def array_definition(n, t, decl, u, size, symbol, other):
    import autosar.model.element as rt
    for base, text in ((rt.BaseType('/b', n, decl), decl), (rt.BaseType('/b', n), n)):
        a = rt.ArrayType('/a', u, other)
        a.sub_elements.append(rt.ArrayTypeElement('/a/x', 'x', size, rt.ScalarType('/a/x', 'x', base)))
        check(header(a).write_type_defs_str() == 'typedef ' + text + ' ' + u + '[' + str(size) + '];\n', 'the definition of an array')
    s = rt.ScalarType('/s', t, rt.BaseType('/b', n), symbol)
    a = rt.ArrayType('/a', u, other)
    a.sub_elements.append(rt.ArrayTypeElement('/a/x', 'x', size, rt.RefType('/a/x', 'x', s)))
    check(header(a).write_type_defs_str() == 'typedef ' + n + ' ' + t + ';\ntypedef ' + t + ' ' + u + '[' + str(size) + '];\n', 'the definition of an array')


def record_definition(n, t, decl, u, m1, m2, m3, symbol, other):
    import autosar.model.element as rt
    s = rt.ScalarType('/s', t, rt.BaseType('/b', n), symbol)
    c = rt.RecordType('/c', u, other)
    for k, x in ((m1, rt.ScalarType('/c/k', 'k', rt.BaseType('/d', 'D', decl))), (m2, rt.RefType('/c/k', 'k', s)), (m3, rt.ScalarType('/c/k', 'k', rt.BaseType('/b', n)))):
        c.sub_elements.append(rt.RecordTypeElement('/c/k', k, x))
    want = 'typedef ' + n + ' ' + t + ';\nstruct Rte_struct_' + u + ' {\n    ' + decl + ' ' + m1 + ';\n    ' + t + ' ' + m2 + ';\n    ' + n + ' ' + m3 + ';\n};\ntypedef struct Rte_struct_' + u + ' ' + u + ';\n'
    text = header(c).write_type_defs_str()
    check(words(text) == words(want), 'the definition of a record')


def whole_header(n, decl):
    import autosar.model.element as rt
    g = header(rt.BaseType('/b', n, decl))
    text = g.write_type_header_str()
    lines = lines_of(text)
    check(lines[0] == '#ifndef RTE_TYPE_H_' and lines[1] == '#define RTE_TYPE_H_' and lines[-1].startswith('#endif'), 'it is included once')
    check(lines.count('typedef ' + decl + ' ' + n + ';') == 1, 'the definitions')
    check('#include "Rte.h"' in lines, 'what it needs')
    # what a C and what a C++ compiler sees
    for plus in (False, True):
        seen = preprocessed(text, plus)
        check(seen == (['extern "C"', '{'] if plus else []) + ['#include "Rte.h"', 'typedef ' + decl + ' ' + n + ';'] + (['}'] if plus else []), 'what a compiler sees')
    check(g.write_type_header_str() == text, 'the same again')
    check(written(g.write_type_header, 'Rte_Type.h') == text, 'the same in the file of the header')


def graphs():
    """Ways in which up to four types need each other, and the types that are asked for."""
    import itertools
    out = []
    for n in (1, 2, 3, 4):
        choices = [[c for k in range(i + 1) for c in itertools.combinations(range(i), k)] for i in range(n)]
        for edges in itertools.product(*choices):
            for roots in ((n - 1,), tuple(range(n)), (n - 1, max(0, n - 2))):
                if len(set(roots)) == len(roots):
                    out.append(([list(x) for x in edges], list(dict.fromkeys(roots))))
    return out


def all_shapes(n):
    todo = [creation_order(x) for x in shapes(n)]

    def spec():
        for f in todo:
            f()
    return spec


def all_graphs(n):
    todo = [definitions(edges, roots) for edges, roots in graphs() if len(edges) == n]

    def spec(names, native, emitters):
        for f in todo:
            f(names, native, emitters)
    return spec


def specs():
    out = []
    k = dict(engine=setup, samples=30)
    B = ('b', ('called', 'SwBaseType'))
    SY = ('symbol', ('opt', 'word'))
    EM = ('emitter', ('opt', ('or', ('const', 'RTE'), ('const', 'rte'), 'word')))
    out.append(Spec('base type', base_type, [B, ('source', 'bool')], **k))
    out.append(Spec('scalar type', scalar_type, [B, ('n', 'name'), SY, EM, ('source', 'bool')], **k))
    out.append(Spec('reference to a type', ref_type, [B, ('s', 'name'), ('n', 'name'), SY, EM, ('source', 'bool'), ('early', 'bool')], **k))
    for v in (True, False):
        out.append(Spec('array of ' + ('values' if v else 'types'), array_type(v),
                        [B, ('s', 'name'), ('n', 'name'), ('member', 'name'), ('size', 'nat'), ('impl', ('opt', ('enum', 'ArrayImplPolicy'))), ('handling', ('opt', ('enum', 'ArraySizeHandling'))),
                         ('semantics', ('opt', ('enum', 'ArraySizeSemantics'))), SY, EM], **k))
    out.append(Spec('record', record_type, [B, ('s', 'name'), ('n', 'name'), ('values', ('list', 'name')), ('types', ('list', 'name')), SY, EM], **k))
    out.append(Spec('pointer', pointer_type, [B, ('s', 'name'), ('n', 'name'), SY, EM, ('to_base', 'bool')], **k))
    out.append(Spec('types of one name', same_name, [('n', 'name'), ('decl', ('opt', 'word')), ('other', ('opt', 'word')),
                                                     ('base', 'bool'), ('order', 'bool'), ('source', 'bool')], **k))
    out.append(Spec('rejected', rejected, [B, ('n', 'name'), ('s', 'name'), ('category', 'word'), ('text', 'name')], **k))
    out.append(Spec('trees of the types', trees, [('a', ('called', 'SwBaseType')), B, ('n', 'name'), ('s', 'name'), ('order', 'bool')], **k))
    out.append(Spec('what a type is made of', made_of, [('b', 'name'), ('member', 'name'), ('values', ('list', 'name')), ('arrays', ('list', 'name')), ('by_value', 'bool'), ('size', 'nat')], **k))
    for n in range(1, 10):
        out.append(Spec('order within a tree of %d types' % n, all_shapes(n), [], concrete=True, bounded='trees of %d types' % n))
    nm = ('tuple', 'name', 'name', 'name', 'name')
    em = ('tuple', *[EM[1]] * 4)
    for n in range(1, 5):
        out.append(Spec('order of %d types' % n, all_graphs(n), [('names', nm), ('native', ('opt', 'str0')), ('emitters', em)], engine=setup, samples=5))
    SY2 = [(x, ('opt', 'ident')) for x in ('symbol', 'other')]
    N = ('n', 'ident')
    out.append(Spec('text of simple definitions', simple_definitions, [N, ('t', 'ident'), ('decl', 'ident'), ('u', 'ident'), *SY2], text=True, engine=text_setup, samples=30))
    out.append(Spec('text of an array', array_definition, [N, ('t', 'ident'), ('decl', 'ident'), ('u', 'ident'), ('size', 'nat'), *SY2], text=True, engine=text_setup, samples=30))
    out.append(Spec('text of a record', record_definition, [N, ('t', 'ident'), ('decl', 'ident'), ('u', 'ident'), ('m1', 'ident'), ('m2', 'ident'), ('m3', 'ident'), *SY2], text=True, engine=text_setup, samples=30))
    out.append(Spec('whole header', whole_header, [('n', 'ident'), ('decl', 'ident')], text=True, engine=text_setup, samples=30))
    return out
