"""P20: values, conversions, constraints and parts of interfaces that are made for the user are the ones that were asked for."""
from . import Spec
from .api import check, assume, equal, identical, raises
from .domains import TABLE


def setup(e):
    from . import roundtrip
    roundtrip.setup(e)


# ---------------------------------------------------------------- values
def scalar(v, label, labelled, n):
    import autosar.xml.element as el
    V = el.ValueSpecification
    x = V.make_value((label, v) if labelled else v)
    check(type(x) is (el.TextValueSpecification if isinstance(v, str) else el.NumericalValueSpecification), 'a value of its kind')
    check(x.value == v and type(x.value) is type(v), 'the value')
    check(x.label == (label if labelled else None), 'its label')
    if not labelled:
        check(equal(V.make_value_with_check(v), x), 'the value')
    c = el.ConstantSpecification.make_constant(n, (label, v) if labelled else v, category=label)
    check(c.name == n and c.category == label and equal(c.value, x), 'a constant')


def not_available(label, pattern):
    import autosar.xml.element as el
    V = el.ValueSpecification
    for x, l, q in ((V.make_value(None), None, None), (V.make_value((label, None)), label, None), (V.make_value((label, None, pattern)), label, pattern)):
        check(type(x) is el.NotAvailableValueSpecification and x.label == l and x.default_pattern == q, 'a value that is not available')
    check(V.make_value_with_check(None) is None, 'no value')


def sequence(marker, record):
    def spec(xs, label, labelled):
        import autosar.xml.element as el
        V = el.ValueSpecification
        data = [marker] + xs
        x = V.make_value((label, data) if labelled else data)
        check(type(x) is (el.RecordValueSpecification if record else el.ArrayValueSpecification) and x.label == (label if labelled else None), 'a value of its kind')
        got = x.fields if record else x.elements
        check(equal(got, [V.make_value(v) for v in xs]), 'the values in order')
        check(len(data) == len(xs) + 1, 'what was given is left alone')
    return spec


def nested(a, b, c, d, l, m):
    import autosar.xml.element as el
    V = el.ValueSpecification
    x = V.make_value((l, ['R', a, (m, ['array', b, ['RECORD', (l, c)]]), (l, None, d), ['a'], None]))
    check(type(x) is el.RecordValueSpecification and x.label == l and len(x.fields) == 5, 'a record')
    f = x.fields
    check(equal(f[0], V.make_value(a)), 'the first field')
    check(type(f[1]) is el.ArrayValueSpecification and f[1].label == m and len(f[1].elements) == 2, 'an array')
    check(equal(f[1].elements[0], V.make_value(b)), 'its first element')
    y = f[1].elements[1]
    check(type(y) is el.RecordValueSpecification and y.label is None and len(y.fields) == 1 and y.fields[0].label == l and y.fields[0].value == c, 'a record in an array')
    check(type(f[2]) is el.NotAvailableValueSpecification and f[2].label == l and f[2].default_pattern == d, 'a value that is not available')
    check(type(f[3]) is el.ArrayValueSpecification and len(f[3].elements) == 0 and type(f[4]) is el.NotAvailableValueSpecification, 'the other fields')


def chain(a, l, kinds):
    """Values with one part each, three deep."""
    import autosar.xml.element as el
    V = el.ValueSpecification
    data = a
    for k in kinds:
        data = (l, [k, data])
    plain = ['A', ['R', ['A', a]]]
    copy = ['A', ['R', ['A', a]]]
    x = V.make_value(data)
    for k in reversed(kinds):
        check(x.label == l and type(x) is (el.ArrayValueSpecification if k == 'A' else el.RecordValueSpecification), 'a value for each level')
        parts = x.elements if k == 'A' else x.fields
        check(len(parts) == 1, 'with one part')
        x = parts[0]
    check(equal(x, V.make_value(a)), 'the innermost value')
    x = V.make_value(plain)
    check(type(x) is el.ArrayValueSpecification and len(x.elements) == 1 and type(x.elements[0]) is el.RecordValueSpecification, 'a record in an array')
    y = x.elements[0].fields[0]
    check(type(y) is el.ArrayValueSpecification and equal(y.elements[0], V.make_value(a)), 'an array in the record')
    check(plain == copy, 'the data is left alone')


def chain_of(kinds):
    return lambda a, l: chain(a, l, kinds)


def wrong_value(t, i, l):
    import autosar.xml.element as el
    V = el.ValueSpecification
    assume(t.upper() != 'A' and t.upper() != 'ARRAY' and t.upper() != 'R' and t.upper() != 'RECORD')
    for data in ([t, i], (l, [t]), [i], ['A', [t, i]]):
        check(raises((TypeError, ValueError), V.make_value, data), 'what is no value is rejected')
    check(raises(TypeError, V.make_value, (i, t)) and raises(TypeError, V.make_value, {}) and raises(TypeError, V.make_value, (l, {})), 'what is no value is rejected')
    check(raises(ValueError, V.make_value, (l, i, i, i)), 'what is no value is rejected')
    check(raises(TypeError, V.make_value_with_check, {}) and raises((TypeError, ValueError), V.make_value_with_check, [t, i]), 'what is no value is rejected')


def finished_value(x, r, l):
    import autosar.xml.element as el
    V = el.ValueSpecification
    check(V.make_value_with_check(x) is x, 'a finished value is kept')
    y = V.make_value_with_check(r)
    check(type(y) is el.ConstantReference and y.constant_ref is r, 'the value of a constant')
    z = V.make_value_with_check(['A', l])
    check(equal(z, V.make_value(['A', l])) and equal(V.make_value_with_check((l, 1)), V.make_value((l, 1))), 'the value')


# ---------------------------------------------------------------- conversions
def default(c, v):
    import autosar.xml.element as el
    if v is None:
        check(c.default_value is None, 'no default value')
    else:
        check(type(c.default_value) is el.CompuConst and c.default_value.value == (v.value if isinstance(v, el.CompuConst) else v), 'the default value')


def is_scale(s, lower, upper, value, label):
    import autosar.xml.element as el
    import autosar.xml.enumeration as en
    check(type(s) is el.CompuScale and type(s.content) is el.CompuConst and s.content.value == value, 'a value of the table')
    check(s.lower_limit == lower and s.upper_limit == upper, 'its limits')
    check(s.label == label, 'its label')
    check(s.lower_limit_type == en.IntervalType.CLOSED and s.upper_limit_type == en.IntervalType.CLOSED, 'the limits belong to it')
    check(s.symbol is None and s.desc is None and s.mask is None and s.inverse_value is None, 'nothing else')


def texts(xs, v, auto):
    import autosar.xml.element as el
    c = el.Computation.make_value_table(xs, v, auto)
    check(type(c) is el.Computation and len(c.compu_scales) == len(xs), 'one scale for each text')
    default(c, v)
    for i, (s, x) in enumerate(zip(c.compu_scales, xs)):
        is_scale(s, i, i, x, x if auto else None)
    d = el.Computation.make_value_table(xs)
    check(d.default_value is None, 'no default value')


def table(t, a, b, c, x, y, z, v, auto):
    import autosar.xml.element as el
    k = el.Computation.make_value_table([t, (a, x), (b, c, y), z, (c, a, 1)], v, auto)
    default(k, v)
    check(len(k.compu_scales) == 5, 'one scale for each element')
    is_scale(k.compu_scales[0], 0, 0, t, t if auto else None)
    is_scale(k.compu_scales[1], a, a, x, x if auto and isinstance(x, str) else None)
    is_scale(k.compu_scales[2], b, c, y, y if auto else None)
    is_scale(k.compu_scales[3], 3, 3, z, z if auto else None)
    is_scale(k.compu_scales[4], c, a, 1, None)
    for w in (1, None, [t, t], {}):
        check(raises(TypeError, el.Computation.make_value_table, [t, w]), 'what is no value is rejected')
    for w in ((), (a,), (a, b, x, y)):
        check(raises(ValueError, el.Computation.make_value_table, [w]), 'what is no value is rejected')


def rational(factor, offset, lower, upper, v, lt, ut, plain):
    import autosar.xml.element as el
    import autosar.xml.enumeration as en
    assume(not isinstance(factor, int) or -2 ** 53 <= factor <= 2 ** 53)
    c = el.Computation.make_rational(factor, offset, lower, upper, v) if plain else el.Computation.make_rational(factor, offset, lower, upper, v, lt, ut)
    default(c, v)
    check(type(c) is el.Computation and len(c.compu_scales) == 1, 'a single scale')
    s = c.compu_scales[0]
    check(s.lower_limit == lower and s.upper_limit == upper, 'the limits')
    check(s.lower_limit_type == (en.IntervalType.CLOSED if plain else lt) and s.upper_limit_type == (en.IntervalType.CLOSED if plain else ut), 'whether they belong to it')
    q = s.content
    check(type(q) is el.CompuRational and len(q.numerator) == 2 and len(q.denominator) == 1, 'a linear conversion')
    check(q.numerator[0] == offset and q.numerator[1] == factor and q.denominator[0] == 1, 'offset and factor')
    check(s.label is None and s.symbol is None and s.mask is None, 'nothing else')


def content_type(s):
    import autosar.xml.element as el
    import autosar.xml.enumeration as en
    K = en.CompuScaleContent
    check(s.content_type == (K.CONSTANT if isinstance(s.content, el.CompuConst) else K.RATIONAL if isinstance(s.content, el.CompuRational) else K.NONE), 'the kind of the content')


# ---------------------------------------------------------------- constraints
def constraint(how, cls, names):
    def spec(n, text, *vals):
        import autosar.xml.element as el
        d = dict(zip(names, vals))
        x = getattr(el.DataConstraint, 'make_' + how)(n, category=text, **d)
        check(type(x) is el.DataConstraint and x.name == n and x.category == text, 'the constraint')
        check(len(x.rules) == 1 and type(x.rules[0]) is el.DataConstraintRule and x.rules[0].level is None, 'a single rule')
        r = x.rules[0]
        check((r.internal if how == 'physical' else r.physical) is None, 'of its kind only')
        check(equal(getattr(r, how), getattr(el, cls)(**d)), 'with what was given')
        check(equal(x, getattr(el.DataConstraint, 'make_' + how)(n, *vals, category=text)), 'in the order of the arguments')
    return spec


def plain_constraint(n):
    import autosar.xml.element as el
    check(equal(getattr(el.DataConstraint.make_physical(n).rules[0], 'physical'), el.PhysicalConstraint()), 'no limits')
    check(equal(getattr(el.DataConstraint.make_internal(n).rules[0], 'internal'), el.InternalConstraint()), 'no limits')


def inside(x, v):
    import autosar.xml.enumeration as en
    K = en.IntervalType
    above = x.lower_limit is None or (v >= x.lower_limit if x.lower_limit_type == K.CLOSED else v > x.lower_limit)
    below = x.upper_limit is None or (v <= x.upper_limit if x.upper_limit_type == K.CLOSED else v < x.upper_limit)
    check(x.check_value(v) is (above and below), 'a value is inside or outside of the limits')


# ---------------------------------------------------------------- parts of interfaces
PARTS = [('SenderReceiverInterface', 'create_data_element', 'data_elements', 'VariableDataPrototype', ()),
         ('NvDataInterface', 'create_data_element', 'data_elements', 'VariableDataPrototype', ()),
         ('ParameterInterface', 'create_parameter', 'parameters', 'ParameterDataPrototype', ()),
         ('ClientServerInterface', 'create_operation', 'operations', 'ClientServerOperation', ()),
         ('ClientServerInterface', 'create_possible_error', 'possible_errors', 'ApplicationError', ()),
         ('ClientServerOperation', 'create_argument', 'arguments', 'ArgumentDataPrototype', ()),
         ('ClientServerOperation', 'create_in_argument', 'arguments', 'ArgumentDataPrototype', (('direction', 'IN'),)),
         ('ClientServerOperation', 'create_inout_argument', 'arguments', 'ArgumentDataPrototype', (('direction', 'INOUT'),)),
         ('ClientServerOperation', 'create_out_argument', 'arguments', 'ArgumentDataPrototype', (('direction', 'OUT'),)),
         ('ModeDeclarationGroup', 'create_mode_declaration', 'mode_declarations', 'ModeDeclaration', ()),
         ('SwcInternalBehavior', 'create_exclusive_area', 'exclusive_areas', 'ExclusiveArea', ()),
         ('ModeSwitchInterface', 'create_mode_group', 'mode_group', 'ModeDeclarationGroupPrototype', ())]


def part(cls, method, field, made, fixed, names, lead):
    """lead: how many arguments are given by their position, in the order of the constructor."""
    def spec(c, *vals):
        import autosar.xml.element as el
        import autosar.xml.enumeration as en
        d = dict(zip(names, vals))
        more = {k: getattr(en.ArgumentDirection, v) for k, v in fixed}
        one = field == 'mode_group'
        before = None if one else list(getattr(c, field))
        other = {k: list(v) if isinstance(v, list) else v for k, v in vars(c).items() if k != field}
        first = vals[:lead]
        rest = dict(zip(names[lead:], vals[lead:]))
        x = getattr(c, method)(*first, **rest)
        check(type(x) is getattr(el, made) and x.parent is c, 'the part')
        check(equal(x, getattr(el, made)(**d, **more)), 'with what was given')
        if one:
            check(getattr(c, field) is x, 'it is the part of its owner')
        else:
            check(identical(getattr(c, field), before + [x]), 'it is added to its owner')
        for k, v in other.items():
            w = getattr(c, k)
            check(identical(w, v) if isinstance(v, list) else w is v, 'nothing else is changed')
    return spec


def wrong_part(cls, method, field, fields):
    def spec(c, n):
        import autosar.xml.element as el
        before = None if field == 'mode_group' else list(getattr(c, field))
        was = getattr(c, field)
        for k, v in fields:
            check(raises((TypeError, ValueError), getattr(c, method), n, **{k: v}), 'what does not fit is rejected')
        if before is None:
            check(getattr(c, field) is was, 'nothing is added')
        else:
            check(identical(getattr(c, field), before), 'nothing is added')
    return spec


def policy(i, r, h, text):
    import autosar.xml.element as el
    import autosar.xml.reference as ref
    before = list(i.invalidation_policies)
    x = i.create_invalidation_policy(r, h)
    y = i.create_invalidation_policy(text, h)
    check(type(x) is el.InvalidationPolicy and str(x.data_element_ref) == str(r) and x.data_element_ref.dest == r.dest and x.handle_invalid == h, 'the policy')
    check(type(y.data_element_ref) is ref.VariableDataPrototypeRef and str(y.data_element_ref) == text and y.handle_invalid == h, 'the policy')
    check(identical(i.invalidation_policies, before + [x, y]), 'it is added to the interface')
    check(raises(TypeError, i.create_invalidation_policy, None, h) and raises(TypeError, i.create_invalidation_policy, r, None) and
          raises(TypeError, i.create_invalidation_policy, 1, h) and raises(TypeError, i.create_invalidation_policy, text, text), 'what does not fit is rejected')
    check(identical(i.invalidation_policies, before + [x, y]), 'nothing is added')


def error_ref(o, r, text):
    import autosar.xml.reference as ref
    before = list(o.possible_error_refs)
    x = o.create_possible_error_ref(text)
    check(type(x) is ref.ApplicationErrorRef and str(x) == text, 'the reference')
    check(identical(o.possible_error_refs, before + [x]), 'it is added to the operation')


def modes(n, m1, m2, m3, x, v, w, t):
    import autosar.xml.element as el
    g = el.ModeDeclarationGroup(n, [m1, (m2, v), x, (m3,)])
    d = g.mode_declarations
    check(len(d) == 4 and d[2] is x, 'the modes in order')
    for k, name, value in ((0, m1, None), (1, m2, v), (3, m3, None)):
        check(type(d[k]) is el.ModeDeclaration and d[k].name == name and d[k].value == value, 'a mode')
    for k in range(4):
        check(d[k].parent is g, 'it belongs to the group')
    y = el.ModeDeclarationGroup(n, x)
    check(identical(y.mode_declarations, [x]) and x.parent is y, 'a single mode')
    z = el.ModeDeclarationGroup(n, x, mode_transitions=t)
    check(identical(z.mode_transitions, [t]) and t.parent is z, 'a single transition')
    for wrong in (1, [1], [None], [[m1]], (m1, 1)):
        check(raises(TypeError, el.ModeDeclarationGroup, n, wrong), 'what is no mode is rejected')
    check(raises(TypeError, el.ModeDeclarationGroup, n, None, mode_transitions=1) and raises(TypeError, el.ModeDeclarationGroup, n, None, mode_transitions=[x]), 'what is no transition is rejected')


# ---------------------------------------------------------------- small views
def queued(p, q, n):
    import autosar.xml.element as el
    import autosar.xml.enumeration as en
    Q = en.SwImplPolicy.QUEUED
    check(p.is_queued == (p.impl_policy == Q), 'whether it is queued')
    V = el.VariableDataPrototype
    check(not V(n).is_queued and not V(n, sw_data_def_props=el.SwDataDefProps()).is_queued, 'it is not queued')
    check(bool(V(n, sw_data_def_props=el.SwDataDefProps([p])).is_queued) == (p.impl_policy == Q), 'whether it is queued')
    check(bool(V(n, sw_data_def_props=p).is_queued) == (p.impl_policy == Q), 'whether it is queued')
    check(bool(V(n, sw_data_def_props=el.SwDataDefProps([p, q])).is_queued) == (p.impl_policy == Q), 'the first variant decides')


def variants(p, x):
    import autosar.xml.element as el
    before = list(p.variants)
    check(len(p) == len(before) and identical(list(p), before), 'the variants')
    p.append(x)
    check(identical(list(p), before + [x]) and len(p) == len(before) + 1, 'the variants')
    q = el.SwDataDefProps([x])
    check(len(q) == 1 and q[0] is x, 'a variant')
    check(raises(TypeError, p.append, None) and raises(TypeError, p.append, p) and len(p) == len(before) + 1, 'what is no variant is rejected')


def record_elements(r, x, y):
    import autosar.xml.element as el
    before = list(r.elements)
    r.extend([x, y])
    check(identical(r.elements, before + [x, y]) and x.parent is r and y.parent is r, 'the elements in order')
    check(raises(TypeError, r.extend, [1]) and raises(TypeError, r.append, None) and identical(r.elements, before + [x, y]), 'what is no element is rejected')


def paragraph(lang, text):
    import autosar.xml.element as el
    x = el.MultiLanguageOverviewParagraph.make(lang, text)
    check(type(x) is el.MultiLanguageOverviewParagraph and len(x.elements) == 1, 'one paragraph')
    check(equal(x.elements[0], el.LanguageOverviewParagraph(lang, text)), 'the text in the language')


def wrapped(i, t):
    import autosar.xml.element as el
    x = el.NumericalValue(i)
    check(x.value == i and type(x.value) is type(i), 'the number')
    x.value = 1
    check(x.value == 1, 'the number that was set')
    check(raises(TypeError, el.NumericalValue, None) and raises(TypeError, setattr, x, 'value', None) and x.value == 1, 'what is no number is rejected')
    if isinstance(i, int):
        if i >= 0:
            check(el.PositiveIntegerValue(i).value == i, 'the number')
        else:
            check(raises(ValueError, el.PositiveIntegerValue, i), 'a negative number is rejected')
        y = el.PositiveIntegerValue(7)
        check(raises(ValueError, setattr, y, 'value', -1) and y.value == 7, 'a negative number is rejected')
    check(raises(TypeError, el.PositiveIntegerValue, None) and raises(TypeError, el.PositiveIntegerValue, 1.5), 'what is no number is rejected')




def specs():
    out = []
    num = ('or', 'int', 'float')
    k = dict(engine=setup, samples=30)
    S = ('or', 'int', 'float', 'str0')
    t = ('text', 'word')
    out.append(Spec('value: scalar', scalar, [('v', ('or', 'int', 'float', 'str0', 'bool')), ('label', 'str'), ('labelled', 'bool'), ('n', 'name')], **k))
    out.append(Spec('value: not available', not_available, [('label', 'str'), ('pattern', ('opt', 'nat'))], **k))
    for marker, record in (('A', False), ('a', False), ('ARRAY', False), ('Array', False), ('R', True), ('r', True), ('RECORD', True), ('Record', True)):
        out.append(Spec('value: ' + marker, sequence(marker, record), [('xs', ('list', S)), ('label', 'str'), ('labelled', 'bool')], **k))
    out.append(Spec('value: nested', nested, [('a', S), ('b', S), ('c', 'int'), ('d', 'nat'), ('l', 'str'), ('m', 'str')], **k))
    for kinds in ('AAA', 'RAR', 'ARR'):
        out.append(Spec('value: nested ' + kinds, chain_of(kinds), [('a', S), ('l', 'str')], **k))
    out.append(Spec('value: wrong', wrong_value, [('t', 'word'), ('i', 'int'), ('l', 'str')], **k))
    VS = ('or', *[('obj', x) for x in ('TextValueSpecification', 'NumericalValueSpecification', 'NotAvailableValueSpecification', 'ArrayValueSpecification', 'RecordValueSpecification',
                                       'ApplicationValueSpecification', 'ConstantReference')])
    out.append(Spec('value: finished', finished_value, [('x', VS), ('r', ('ref', 'ConstantRef')), ('l', 'str')], **k))
    DEF = ('opt', ('or', 'int', 'float', 'str0', ('obj', 'CompuConst')))
    LIMIT = ('opt', ('or', 'int', 'float', 'str'))
    out.append(Spec('table of texts', texts, [('xs', ('list', 'str')), ('v', DEF), ('auto', 'bool')], **k))
    out.append(Spec('table of values', table, [('t', 'str'), ('a', num), ('b', num), ('c', num), ('x', ('or', 'str', 'int')), ('y', 'str'), ('z', 'str'), ('v', DEF), ('auto', 'bool')], **k))
    IT = ('enum', 'IntervalType')
    out.append(Spec('linear conversion', rational, [('factor', num), ('offset', num), ('lower', LIMIT), ('upper', LIMIT), ('v', DEF), ('lt', IT), ('ut', IT), ('plain', 'bool')], **k))
    out.append(Spec('content of a scale', content_type, [('s', ('obj', 'CompuScale'))], **k))
    for how, cls in (('physical', 'PhysicalConstraint'), ('internal', 'InternalConstraint')):
        order = ['lower_limit', 'upper_limit', 'scale_constr', 'max_gradient', 'max_diff', 'monotony'] + (['unit_ref'] if how == 'physical' else []) + ['lower_limit_type', 'upper_limit_type']
        tab = dict(TABLE[cls])
        out.append(Spec('constraint: ' + how, constraint(how, cls, order), [('n', 'name'), t] + [(x, tab[x]) for x in order], **k))
    out.append(Spec('constraint: plain', plain_constraint, [('n', 'name')], **k))
    for cls in ('PhysicalConstraint', 'InternalConstraint', 'ScaleConstraint'):
        out.append(Spec('limits: ' + cls, inside, [('x', ('obj', cls)), ('v', num)], **k))
    ORDER = {'VariableDataPrototype': ('name', 'init_value'), 'ParameterDataPrototype': ('name', 'init_value'),
             'ClientServerOperation': ('name', 'arguments', 'diag_arg_integrity', 'fire_and_forget', 'possible_error_refs'), 'ApplicationError': ('name', 'error_code'),
             'ArgumentDataPrototype': ('name', 'direction', 'server_arg_impl_policy'), 'ModeDeclaration': ('name', 'value'), 'ExclusiveArea': ('name',),
             'ModeDeclarationGroupPrototype': ('name', 'type_ref', 'calibration_access')}
    for cls, method, field, made, fixed in PARTS:
        order = [x for x in ORDER[made] if x not in dict(fixed)]
        names = order + [x for x, d in TABLE[made] if x not in order and x not in dict(fixed)]
        tab = dict(TABLE[made])
        for lead in (1, len(order)):
            if lead == 1 and len(order) == 1 and made != 'ExclusiveArea':
                continue
            out.append(Spec('part: %s.%s%s' % (cls, method, '' if lead == 1 else ', by position'), part(cls, method, field, made, fixed, names, lead),
                            [('c', ('obj', cls))] + [(x, tab[x]) for x in names], **k))
            if len(order) == 1:
                break
    ref = ('ref', 'VariableDataPrototypeRef')
    out.append(Spec('part: invalidation policy', policy, [('i', ('obj', 'SenderReceiverInterface')), ('r', ref), ('h', ('enum', 'HandleInvalid')), ('text', 'path')], **k))
    out.append(Spec('part: possible error of an operation', error_ref, [('o', ('obj', 'ClientServerOperation')), ('r', ('ref', 'ApplicationErrorRef')), ('text', 'path')], **k))
    BAD = {'create_data_element': (('init_value', 1), ('type_ref', 1), ('sw_data_def_props', 'x')), 'create_parameter': (('init_value', 1), ('type_ref', 1)),
           'create_operation': (('arguments', 1), ('arguments', [1]), ('possible_error_refs', 1), ('fire_and_forget', 'x')), 'create_possible_error': (('error_code', 'x'),),
           'create_argument': (('direction', 1), ('server_arg_impl_policy', 'x')), 'create_in_argument': (('server_arg_impl_policy', 1),),
           'create_mode_declaration': (('value', -1), ('value', 'x')), 'create_mode_group': (('calibration_access', 1),)}
    for cls, method, field, made, fixed in PARTS:
        if method in BAD:
            out.append(Spec('wrong part: %s.%s' % (cls, method), wrong_part(cls, method, field, BAD[method]), [('c', ('obj', cls)), ('n', 'name')], **k))
    m = [('m%d' % i, 'name') for i in (1, 2, 3)]
    out.append(Spec('modes of a group', modes, [('n', 'name')] + m + [('x', ('obj', 'ModeDeclaration')), ('v', ('opt', 'nat')), ('w', 'nat'), ('t', ('obj', 'ModeTransition'))], **k))
    out.append(Spec('queued data', queued, [('p', ('obj', 'SwDataDefPropsConditional')), ('q', ('obj', 'SwDataDefPropsConditional')), ('n', 'name')], **k))
    out.append(Spec('variants of properties', variants, [('p', ('obj', 'SwDataDefProps')), ('x', ('obj', 'SwDataDefPropsConditional'))], **k))
    out.append(Spec('elements of a record', record_elements, [('r', ('obj', 'ApplicationRecordDataType')), ('x', ('obj', 'ApplicationRecordElement')), ('y', ('obj', 'ApplicationRecordElement'))], **k))
    out.append(Spec('paragraph in a language', paragraph, [('lang', ('enum', 'Language')), ('text', 'str')], **k))
    out.append(Spec('number in a wrapper', wrapped, [('i', num), ('t', 'word')], **k))
    return out
