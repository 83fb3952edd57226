"""P18: ports, communication specifications, prototypes and connectors that are made for the user fit their interfaces and components."""
from . import Spec
from .api import check, assume, equal, identical, raises

LIMITS = ('or', ('const', None), ('enum', 'HandleOutOfRange'))


def setup(e):
    from . import roundtrip
    roundtrip.setup(e)


def top(name):
    """A package of a workspace."""
    import autosar.xml.workspace as w
    return w.Workspace().make_packages(name)


def put(p, x):
    p.append(x)
    return x


def data(p, name, elems):
    """An interface with data elements (name, queued)."""
    import autosar.xml.element as el
    i = put(p, el.SenderReceiverInterface(name))
    for n, q in elems:
        d = i.create_data_element(n)
        if q:
            d.sw_data_def_props = el.SwDataDefProps(el.SwDataDefPropsConditional(impl_policy=policy()))
    return i


def policy():
    import autosar.xml.enumeration as en
    return en.SwImplPolicy.QUEUED


def calls(p, name, ops):
    import autosar.xml.element as el
    i = put(p, el.ClientServerInterface(name))
    for n in ops:
        i.create_operation(n)
    return i


def swc(p, name):
    import autosar.xml.element as el
    return put(p, el.ApplicationSoftwareComponentType(name))


def add(c, kind, name, i, com, **kwargs):
    """Adds a port of a kind: provide, require, the provided or the required side of a port that is both."""
    if kind == 0:
        return c.create_p_port(name, i, com, **kwargs)
    if kind == 1:
        return c.create_r_port(name, i, com, **kwargs)
    if kind == 2:
        return c.create_pr_port(name, i, com, **kwargs)
    return c.create_pr_port(name, i, None, com, **kwargs)


def specs_of(port, kind):
    return port.com_spec if kind < 2 else port.provided_com_spec if kind == 2 else port.required_com_spec


def port_class(kind):
    import autosar.xml.element as el
    return (el.ProvidePortPrototype, el.RequirePortPrototype, el.PRPortPrototype, el.PRPortPrototype)[kind]


def sender(kind, q):
    import autosar.xml.element as el
    if kind % 2 == 0:
        return el.QueuedSenderComSpec if q else el.NonqueuedSenderComSpec
    return el.QueuedReceiverComSpec if q else el.NonqueuedReceiverComSpec


def server(kind):
    import autosar.xml.element as el
    return el.ServerComSpec if kind % 2 == 0 else el.ClientComSpec


def path(*names):
    return '/' + '/'.join(names)


def refers(ref, d):
    """A reference to a data element."""
    import autosar.xml.enumeration as en
    return str(ref) == str(d.ref()) and ref.dest == en.IdentifiableSubTypes.VARIABLE_DATA_PROTOTYPE


def is_port(c, port, kind, name, i):
    check(type(port) is port_class(kind), 'a port of the kind')
    check(port.name == name, 'with the name')
    check(port.parent is c and len(c.ports) > 0 and c.ports[-1] is port, 'it is added to the component')
    check(equal(port.port_interface_ref, i.ref()), 'it refers to the interface')


# ---------------------------------------------------------------- communication specifications
def one_element(kind):
    def spec(a, b, c, n, e, q, limit, protect):
        assume(b != c)
        p = top(a)
        i = data(p, b, [(e, q)])
        s = swc(p, c)
        port = add(s, kind, n, i, {'handle_out_of_range': limit, 'uses_end_to_end_protection': protect})
        is_port(s, port, kind, n, i)
        com = specs_of(port, kind)
        check(len(com) == 1, 'one specification for one data element')
        check(type(com[0]) is sender(kind, q), 'its kind is that of the data element')
        check(refers(com[0].data_element_ref, i.data_elements[0]) and str(com[0].data_element_ref) == path(a, b, e), 'it refers to the data element')
        check(com[0].handle_out_of_range == limit and com[0].uses_end_to_end_protection == protect, 'with the settings that were given')
    return spec


def init_value(kind):
    def spec(a, n, v, text, number):
        import autosar.xml.element as el
        p = top(a)
        i = data(p, 'I', [('x', False)])
        s = swc(p, 'C')
        first = specs_of(add(s, kind, n, i, {'init_value': v}), kind)[0]
        check(first.init_value is v, 'the initial value')
        k = put(p, el.ConstantSpecification('K'))
        com = specs_of(add(s, kind, n, i, {'init_value': k.ref()}), kind)[0]
        check(type(com.init_value) is el.ConstantReference and equal(com.init_value.constant_ref, k.ref()), 'a constant as initial value')
        com = specs_of(add(s, kind, n, i, {'init_value': number}), kind)[0]
        check(type(com.init_value) is el.NumericalValueSpecification and com.init_value.value == number, 'a number as initial value')
        com = specs_of(add(s, kind, n, i, {'init_value': text}), kind)[0]
        check(type(com.init_value) is el.TextValueSpecification and com.init_value.value == text, 'a text as initial value')
        com = specs_of(add(s, kind, n, i, {}), kind)[0]
        check(com.init_value is None, 'no initial value')
    return spec


def several_elements(kind, listed):
    """Specifications for the second and the first of three data elements."""
    def spec(a, n, e1, e2, e3, q1, q2, q3, l1, l2, turn):
        assume(e1 != e2 and e1 != e3 and e2 != e3)
        for e in (e1, e2, e3):
            assume(e != 'cls' and e != 'port_interface')
        p = top(a)
        i = data(p, 'I', [(e1, q1), (e2, q2), (e3, q3)])
        s = swc(p, 'C')
        one, two = {'handle_out_of_range': l1}, {'handle_out_of_range': l2}
        if listed:
            com = [(e1, one), (e2, two)] if turn else [(e2, two), (e1, one)]
        else:
            com = {e1: one, e2: two} if turn else {e2: two, e1: one}
        port = add(s, kind, n, i, com)
        is_port(s, port, kind, n, i)
        com = specs_of(port, kind)
        check(len(com) == 2, 'one specification for each data element that was named')
        check(type(com[0]) is sender(kind, q1) and type(com[1]) is sender(kind, q2), 'each for its kind of data element')
        check(refers(com[0].data_element_ref, i.data_elements[0]) and refers(com[1].data_element_ref, i.data_elements[1]), 'for the data elements, in their order')
        check(com[0].handle_out_of_range == l1 and com[1].handle_out_of_range == l2, 'each with its settings')
        check(str(com[1].data_element_ref) == path(a, 'I', e2), 'it refers to the data element')
        port = add(s, kind, n + '2', i, [(e3, one)] if listed else {e3: one})
        com = specs_of(port, kind)
        check(len(com) == 1 and refers(com[0].data_element_ref, i.data_elements[2]), 'one of the data elements')
        check(com[0].handle_out_of_range == l1, 'settings can be used again')
    return spec


def unknown_element(kind, listed):
    def spec(a, n, e1, e2, x, l1):
        assume(e1 != e2 and x != e1 and x != e2)
        for e in (e1, e2, x):
            assume(e != 'cls' and e != 'port_interface')
        p = top(a)
        i = data(p, 'I', [(e1, False), (e2, True)])
        j = calls(p, 'J', [e1, e2])
        s = swc(p, 'C')
        one = {'handle_out_of_range': l1}
        check(raises(ValueError, add, s, kind, n, i, [(e1, one), (x, one)] if listed else {e1: one, x: one}), 'unknown data elements are rejected')
        check(raises(ValueError, add, s, kind, n, j, [(e1, {}), (x, {})] if listed else {e1: {}, x: {}}), 'unknown operations are rejected')
        check(raises(TypeError, add, s, kind, n, i, [(e1, l1)] if listed else {e1: l1}), 'settings that are none are rejected')
        check(len(s.ports) == 0, 'no port is made')
    return spec


def setting(kind):
    """A setting of the specification of an operation."""
    return 'e2e_call_respone_timeout' if kind % 2 else 'queue_length'


def one_operation(kind):
    def spec(a, n, e, size):
        p = top(a)
        i = calls(p, 'I', [e])
        s = swc(p, 'C')
        port = add(s, kind, n, i, {setting(kind): size})
        is_port(s, port, kind, n, i)
        com = specs_of(port, kind)
        check(len(com) == 1 and type(com[0]) is server(kind), 'one specification for one operation')
        check(equal(com[0].operation_ref, i.operations[0].ref()) and str(com[0].operation_ref) == path(a, 'I', e), 'it refers to the operation')
        check(getattr(com[0], setting(kind)) == size, 'with the settings that were given')
    return spec


def several_operations(kind, listed):
    def spec(a, n, e1, e2, e3, s1, s3, turn):
        assume(e1 != e2 and e1 != e3 and e2 != e3)
        for e in (e1, e2, e3):
            assume(e != 'cls' and e != 'port_interface')
        p = top(a)
        i = calls(p, 'I', [e1, e2, e3])
        s = swc(p, 'C')
        one, three = {setting(kind): s1}, {setting(kind): s3}
        com = [(e1, one), (e3, three)] if turn else [(e3, three), (e1, one)]
        port = add(s, kind, n, i, com if listed else dict(com))
        com = specs_of(port, kind)
        check(len(com) == 2 and type(com[0]) is server(kind) and type(com[1]) is server(kind), 'one specification for each operation that was named')
        check(equal(com[0].operation_ref, i.operations[0].ref()) and equal(com[1].operation_ref, i.operations[2].ref()), 'for the operations, in their order')
        check(getattr(com[0], setting(kind)) == s1 and getattr(com[1], setting(kind)) == s3, 'each with its settings')
        port = add(s, kind, n + '2', i, [(e2, one)] if listed else {e2: one})
        com = specs_of(port, kind)
        check(len(com) == 1 and getattr(com[0], setting(kind)) == s1, 'settings can be used again')
    return spec


def mode_switch(kind):
    def spec(a, n, m, on):
        import autosar.xml.element as el
        p = top(a)
        i = put(p, el.ModeSwitchInterface('I'))
        s = swc(p, 'C')
        check(raises(ValueError, add, s, kind, n, i, {}), 'an interface without modes is rejected')
        check(len(s.ports) == 0, 'no port is made')
        g = i.create_mode_group(m)
        port = add(s, kind, n, i, {'enhanced_mode_api': on})
        is_port(s, port, kind, n, i)
        com = specs_of(port, kind)
        check(len(com) == 1 and type(com[0]) is (el.ModeSwitchSenderComSpec if kind % 2 == 0 else el.ModeSwitchReceiverComSpec), 'one specification for the modes')
        check(equal(com[0].mode_group_ref, g.ref()) and str(com[0].mode_group_ref) == path(a, 'I', m), 'it refers to the modes')
        check(com[0].enhanced_mode_api == on, 'with the settings that were given')
    return spec


def no_parts(kind):
    def spec(a, n):
        import autosar.xml.element as el
        p = top(a)
        s = swc(p, 'C')
        check(raises(ValueError, add, s, kind, n, data(p, 'I', []), {}), 'an interface without data elements is rejected')
        check(raises(ValueError, add, s, kind, n, calls(p, 'J', []), {}), 'an interface without operations is rejected')
        check(raises(NotImplementedError, add, s, kind, n, put(p, el.ParameterInterface('K')), {}), 'other interfaces are rejected')
        check(raises(NotImplementedError, add, s, kind, n, put(p, el.NvDataInterface('L')), {}), 'other interfaces are rejected')
        check(len(s.ports) == 0, 'no port is made')
    return spec


def finished(kind):
    """Specifications the user has made."""
    def spec(n, e1, e2, x, y, l1):
        assume(e1 != e2 and e1 != 'cls' and e1 != 'port_interface')
        p = top('P')
        i = data(p, 'I', [(e1, True), (e2, False)])
        s = swc(p, 'C')
        port = add(s, kind, n, i, x)
        is_port(s, port, kind, n, i)
        check(identical(specs_of(port, kind), [x]), 'one specification')
        check(identical(specs_of(add(s, kind, n, i, [x, y]), kind), [x, y]), 'specifications, in their order')
        check(identical(specs_of(add(s, kind, n, i, []), kind), []), 'no specification')
        if kind < 2:
            com = specs_of(add(s, kind, n, i, [x, (e1, {'handle_out_of_range': l1}), y]), kind)
            check(len(com) == 3 and com[0] is x and com[1] is y, 'specifications made by the user')
            check(type(com[2]) is sender(kind, True) and com[2].handle_out_of_range == l1, 'along with others')
        check(raises(TypeError, add, s, kind, n, i, [x, 1]), 'what is no specification is rejected')
        check(len(s.ports) == (4 if kind < 2 else 3), 'no port is made')
    return spec


# ---------------------------------------------------------------- ports
def plain_port(kind, alias):
    def spec(c, i, a, n, free, text):
        import autosar.xml.element as el
        assume(c.name != i.name)
        p = top(a)
        p.append(c)
        p.append(i)
        before = len(c.ports)
        if kind == 0:
            port = (c.create_provide_port if alias else c.create_p_port)(n, i, category=text)
        elif kind == 1:
            port = (c.create_require_port if alias else c.create_r_port)(n, i, None, free, category=text)
        else:
            port = c.create_pr_port(n, i, category=text)
        is_port(c, port, kind, n, i)
        check(len(c.ports) == before + 1, 'no other port is made')
        check(port.category == text, 'attributes are passed on')
        if kind == 2:
            check(len(port.provided_com_spec) == 0 and len(port.required_com_spec) == 0, 'no specification')
        else:
            check(len(port.com_spec) == 0, 'no specification')
        check(kind != 1 or port.allow_unconnected == free, 'whether it may stay unconnected')
        check(str(port.port_interface_ref) == path(a, i.name), 'it refers to the interface')
        check(str(port.ref()) == path(a, c.name, n), 'the path of the port')
    return spec


def both_sides(a, n, e, q, l1, l2):
    p = top(a)
    i = data(p, 'I', [(e, q)])
    s = swc(p, 'C')
    port = s.create_pr_port(n, i, {'handle_out_of_range': l1}, {'handle_out_of_range': l2})
    is_port(s, port, 2, n, i)
    x, y = port.provided_com_spec, port.required_com_spec
    check(len(x) == 1 and len(y) == 1 and type(x[0]) is sender(0, q) and type(y[0]) is sender(1, q), 'a specification for each side')
    check(x[0].handle_out_of_range == l1 and y[0].handle_out_of_range == l2, 'each with its settings')
    check(refers(x[0].data_element_ref, i.data_elements[0]) and refers(y[0].data_element_ref, i.data_elements[0]), 'for the data element')


def component(name, kinds):
    import autosar.xml.element as el
    c = el.ApplicationSoftwareComponentType(name)
    for k, n in kinds:
        c.append_port(port_class(k)(n))
    return c


def kinds_of_ports(x, y, z, c):
    import autosar.xml.element as el
    for port in (x, y, z):
        c.append_port(port)
    classes = (el.ProvidePortPrototype, el.RequirePortPrototype, el.PRPortPrototype)
    for k, got in zip(classes, (c.provide_ports, c.require_ports, c.pr_ports)):
        got = list(got)
        want = []
        for port in c.ports:
            if isinstance(port, k):
                want.append(port)
        check(identical(got, want), 'the ports of the kind, in their order')


def find_ports(a, b, k1, k2, n):
    import autosar.xml.element as el
    assume(a != b)
    c = component('C', [(k1, a), (k2, b)])
    for name in (a, b, n):
        for k, find in ((0, c.find_p_port), (1, c.find_r_port)):
            want = None
            for i, (kind, at) in enumerate(((k1, a), (k2, b))):
                if at == name and kind in (k, 2):
                    want = c.ports[i]
            check(find(name) is want, 'the port of the name and kind')
        check(c.find(name) is (c.ports[0] if name == a else c.ports[1] if name == b else None), 'the port of the name')


def find_any_port(which):
    """Among any ports."""
    def spec(xs, n):
        import autosar.xml.element as el
        c = el.ApplicationSoftwareComponentType('C', ports=xs)
        r = (c.find, c.find_p_port, c.find_r_port)[which](n)
        kinds = (el.PortPrototype, (el.ProvidePortPrototype, el.PRPortPrototype), (el.RequirePortPrototype, el.PRPortPrototype))[which]
        if r is None:
            for x in xs:
                check(not isinstance(x, kinds) or x.name != n, 'the port of the name is found')
        else:
            check(isinstance(r, kinds) and r.name == n and any(x is r for x in xs), 'the port of the name')
        check(identical(c.ports, xs), 'the ports stay')
    return spec


def find_any_part(which):
    """Among any components and connectors of a composition."""
    def spec(xs, ys, n):
        import autosar.xml.element as el
        c = el.CompositionSwComponentType('C', **{('components', 'connectors', 'ports')[which]: xs})
        for y in ys:
            (c.append_connector if which == 0 else c.append_component)(y)
        r = c.find(n)
        if r is None:
            for x in xs:
                check(x.name != n, 'the part of the name is found')
            for y in ys:
                check(y.name != n, 'the part of the name is found')
        else:
            check(r.name == n, 'the part of the name')
            check(any(x is r for x in xs) or any(y is r for y in ys), 'a part of the composition')
    return spec


def any_in_port(which):
    """Among any parts of the interface."""
    def spec(xs, n, e, kind):
        import autosar.xml.element as el
        p = top('P')
        i = put(p, el.SenderReceiverInterface('I', data_elements=xs) if which == 0 else el.ClientServerInterface('I', operations=xs))
        s = swc(p, 'C')
        port = add(s, kind, n, i, None)
        r = (s.get_data_element_in_port if which == 0 else s.get_operation_in_port)(port, e)
        if r is None:
            for x in xs:
                check(x.name != e, 'the part of the name is found')
        else:
            check(r.name == e and any(x is r for x in xs), 'the part of the name')
            check(str(r.ref()) == path('P', 'I', e), 'its path')
    return spec


def in_port(a, i, c, n, e1, e2, x, kind):
    import autosar.xml.element as el
    from autosar.xml.exception import InvalidReferenceError
    assume(e1 != e2)
    assume(x != e1 and x != e2)
    p = top(a)
    s = swc(p, 'C')
    one, two = data(p, 'I', [(e1, False)]), data(p, 'J', [(e1, False), (e2, True)])
    f, g = calls(p, 'F', [e1]), calls(p, 'G', [e1, e2])
    m = put(p, el.ModeSwitchInterface('M'))
    group = m.create_mode_group(x)
    ports = [add(s, kind, n + str(k), j, None) for k, j in enumerate((one, two, f, g, m))]
    get = s.get_data_element_in_port
    check(get(ports[0]) is one.data_elements[0] and get(ports[0], '') is one.data_elements[0], 'the only data element')
    check(raises(ValueError, get, ports[1]), 'which one is not clear')
    check(get(ports[0], e1) is one.data_elements[0] and get(ports[1], e1) is two.data_elements[0] and get(ports[1], e2) is two.data_elements[1], 'the data element of the name')
    check(get(ports[0], e2) is None and get(ports[1], x) is None, 'no such data element')
    check(raises(TypeError, get, ports[2]) and raises(TypeError, get, ports[3], e1) and raises(TypeError, get, ports[4], x), 'ports of other interfaces are rejected')
    get = s.get_operation_in_port
    check(get(ports[2], None) is f.operations[0] and get(ports[2], '') is f.operations[0], 'the only operation')
    check(raises(ValueError, get, ports[3], None), 'which one is not clear')
    check(get(ports[2], e1) is f.operations[0] and get(ports[3], e1) is g.operations[0] and get(ports[3], e2) is g.operations[1], 'the operation of the name')
    check(get(ports[2], e2) is None and get(ports[3], x) is None, 'no such operation')
    check(raises(TypeError, get, ports[0], e1) and raises(TypeError, get, ports[4], x), 'ports of other interfaces are rejected')
    get = s.get_mode_declaration_group_in_port
    check(get(ports[4]) is group, 'the modes')
    check(raises(TypeError, get, ports[0]) and raises(TypeError, get, ports[2]), 'ports of other interfaces are rejected')
    port = port_class(kind)('X', el.PortInterfaceRef('/Q/Nothing', one.ref().dest))
    s.append_port(port)
    for get in (s.get_data_element_in_port, s.get_operation_in_port, s.get_mode_declaration_group_in_port):
        check(raises(InvalidReferenceError, get, port, e1) if get != s.get_mode_declaration_group_in_port else raises(InvalidReferenceError, get, port),
              'an interface that does not exist is rejected')


# ---------------------------------------------------------------- components
def behavior(c, a, n, text, named):
    import autosar.xml.element as el
    p = top(a)
    p.append(c)
    b = c.create_internal_behavior(n, category=text) if named else c.create_internal_behavior(category=text)
    check(type(b) is el.SwcInternalBehavior and b.name == (n if named else c.name + '_InternalBehavior'), 'the behavior')
    check(c.internal_behavior is b and b.parent is c and b.category == text, 'it is the behavior of the component')
    check(str(b.ref()) == path(a, c.name, b.name), 'the path of the behavior')
    d = c.create_internal_behavior(n)
    check(c.internal_behavior is d and d is not b and d.parent is c, 'it can be replaced')
    c.internal_behavior = None
    check(c.internal_behavior is None, 'it can be removed')


def prototype(c, t, a, n, text, named):
    import autosar.xml.element as el
    assume(c.name != t.name)
    p = top(a)
    p.append(c)
    p.append(t)
    before = list(c.components)
    x = c.create_component_prototype(t, n, category=text) if named else c.create_component_prototype(t, category=text)
    check(type(x) is el.SwComponentPrototype and x.name == (n if named else t.name), 'the prototype')
    check(x.parent is c and identical(c.components, before + [x]) and x.category == text, 'it is added to the composition')
    check(equal(x.type_ref, t.ref()) and str(x.type_ref) == path(a, t.name), 'it refers to its component')
    check(str(x.ref()) == path(a, c.name, x.name), 'the path of the prototype')


# ---------------------------------------------------------------- connectors
def composed(a, first, second, own=()):
    """A composition with prototypes x of a component with the port first, y of one with the port second, and ports of its own."""
    import autosar.xml.element as el
    p = top(a)
    p.append(component('A', [first]))
    p.append(component('B', [second]))
    c = put(p, el.CompositionSwComponentType('C'))
    x = c.create_component_prototype(p.find('A'), 'x')
    y = c.create_component_prototype(p.find('B'), 'y')
    for k, n in own:
        c.append_port(port_class(k)(n))
    return p, c, x, y


def made(c, con, kind, name):
    check(type(con) is kind, 'the kind of connector')
    check(con.name == name, 'its name tells what it connects')
    check(len(c.connectors) == 1 and c.connectors[0] is con and con.parent is c and c.find(name) is con, 'it is added to the composition')


def assembly(a, n, m, turn, back, slash):
    import autosar.xml.element as el
    k = 1 if turn else 0
    p, c, x, y = composed(a, (k, n), (1 - k, m))
    ws = p.parent
    r1, r2 = ('y/' + m, 'x/' + n) if back else ('x/' + n, 'y/' + m)
    lead = '/' if slash else ''
    con = c.create_connector(lead + r1, lead + r2, ws)
    first, second = (y, x) if turn else (x, y)
    pn, rn = (m, n) if turn else (n, m)
    made(c, con, el.AssemblySwConnector, '_'.join([first.name, pn, second.name, rn]))
    check(equal(con.provide_port.component_ref, first.ref()) and equal(con.require_port.component_ref, second.ref()), 'the components that provide and require')
    one, two = p.find('A').ports[0], p.find('B').ports[0]
    check(equal(con.provide_port.port_ref, (two if turn else one).ref()) and equal(con.require_port.port_ref, (one if turn else two).ref()), 'their ports')
    check(raises(ValueError, c.create_connector, r2, r1, ws) and len(c.connectors) == 1, 'a connector is made once')


def same_kinds(a, n, m, k):
    p, c, x, y = composed(a, (k, n), (k, m))
    check(raises(ValueError, c.create_connector, 'x/' + n, 'y/' + m, p.parent), 'ports of the same kind are not connected')
    check(len(c.connectors) == 0, 'no connector is made')


def delegation(a, n, m, o, k, back, slash):
    import autosar.xml.element as el
    assume(o != 'x' and o != 'y')
    p, c, x, y = composed(a, (k, n), (k, m), [(k, o)])
    ws = p.parent
    r1, r2 = (o, 'y/' + m) if back else ('y/' + m, o)
    lead = '/' if slash else ''
    con = c.create_connector(lead + r1, lead + r2, ws)
    made(c, con, el.DelegationSwConnector, '_'.join(['y', m, o] if k == 0 else [o, 'y', m]))
    check(equal(con.inner_port.component_ref, y.ref()) and equal(con.inner_port.port_ref, p.find('B').ports[0].ref()), 'the inner port')
    check(equal(con.outer_port, c.ports[0].ref()), 'the outer port')
    check(raises(ValueError, c.create_connector, r2, r1, ws) and len(c.connectors) == 1, 'a connector is made once')


def pass_through(a, n, m, k, j, back, slash):
    import autosar.xml.element as el
    assume(n != 'x' and n != 'y' and m != 'x' and m != 'y' and n != m and n != n + '_' + m and k != j)
    p, c, x, y = composed(a, (0, n), (1, m), [(k, n), (j, m)])
    ws = p.parent
    r1, r2 = (m, n) if back else (n, m)
    lead = '/' if slash else ''
    con = c.create_connector(lead + r1, lead + r2, ws)
    one = k == 0 or j == 1
    first, second = (c.ports[0], c.ports[1]) if one else (c.ports[1], c.ports[0])
    made(c, con, el.PassThroughSwConnector, first.name + '_' + second.name)
    check(equal(con.provide_port, first.ref()) and equal(con.require_port, second.ref()), 'the ports that provide and require')
    check(raises(ValueError, c.create_connector, r2, r1, ws) and len(c.connectors) == 1, 'a connector is made once')


def crowded(first, second, own, components, ports, inner, connectors, name):
    """As composed, after any other components, ports and connectors (of other names)."""
    import autosar.xml.element as el
    p = top('P')
    s = put(p, el.ApplicationSoftwareComponentType('A', ports=inner))
    s.append_port(port_class(first[0])(first[1]))
    put(p, component('B', [second]))
    for x in inner:
        assume(x.name != first[1])
    for x in components:
        assume(x.name != 'x' and x.name != 'y' and x.name != own[1] and x.name != name)
    for x in ports:
        assume(x.name != own[1] and x.name != name)
    for x in connectors:
        assume(x.name != own[1])
    c = put(p, el.CompositionSwComponentType('C', components=components, ports=ports, connectors=connectors))
    x = c.create_component_prototype(s, 'x')
    y = c.create_component_prototype(p.find('B'), 'y')
    c.append_port(port_class(own[0])(own[1]))
    return p, c, x, y


def crowded_assembly(components, inner, n, m):
    import autosar.xml.element as el
    name = 'x_' + n + '_y_' + m
    p, c, x, y = crowded((0, n), (1, m), (0, 'q'), components, [], inner, [], name)
    con = c.create_connector('x/' + n, 'y/' + m, p.parent)
    made(c, con, el.AssemblySwConnector, name)
    check(equal(con.provide_port.component_ref, x.ref()) and equal(con.require_port.component_ref, y.ref()), 'the components that provide and require')
    check(equal(con.provide_port.port_ref, p.find('A').ports[-1].ref()) and equal(con.require_port.port_ref, p.find('B').ports[0].ref()), 'their ports')


def crowded_delegation(ports, inner, n, m):
    import autosar.xml.element as el
    assume(m != 'x' and m != 'y')
    name = 'x_' + n + '_' + m
    p, c, x, y = crowded((0, n), (1, 'r'), (0, m), [], ports, inner, [], name)
    con = c.create_connector(m, 'x/' + n, p.parent)
    made(c, con, el.DelegationSwConnector, name)
    check(equal(con.inner_port.component_ref, x.ref()) and equal(con.inner_port.port_ref, p.find('A').ports[-1].ref()), 'the inner port')
    check(equal(con.outer_port, c.ports[-1].ref()), 'the outer port')


def crowded_connectors(connectors, n, m, kind):
    """A connector is made unless there is one of its name."""
    import autosar.xml.element as el
    assume(n != 'x' and n != 'y' and m != n and m != 'x' and m != 'y')
    for z in connectors:
        assume(z.name != n and z.name != m)
    name, r1, r2 = (('x_' + n + '_y_' + m, 'x/' + n, 'y/' + m), (n + '_y_' + m, 'y/' + m, n), (m + '_' + n, m, n))[kind]
    p, c, x, y = crowded((0, n), (1, m), (1, n), [], [], [], connectors, name)
    c.append_port(port_class(0)(m))
    if any(z.name == name for z in connectors):
        check(raises(ValueError, c.create_connector, r1, r2, p.parent), 'a connector is made once')
        check(identical(c.connectors, connectors), 'no connector is made')
    else:
        con = c.create_connector(r1, r2, p.parent)
        check(con.name == name and con.parent is c, 'the connector')
        check(identical(c.connectors, [*connectors, con]), 'it is added to the composition')


def same_outer_kinds(a, n, m, k):
    assume(n != 'x' and n != 'y' and m != 'x' and m != 'y' and n != m)
    p, c, x, y = composed(a, (0, n), (1, m), [(k, n), (k, m)])
    check(raises(ValueError, c.create_connector, n, m, p.parent), 'ports of the same kind are not connected')
    check(len(c.connectors) == 0, 'no connector is made')


def no_ends(a, n, m, o, z):
    import autosar.xml.element as el
    assume(z != 'x' and z != 'y' and z != o and z != n and z != m and o != 'x' and o != 'y')
    p, c, x, y = composed(a, (0, n), (1, m), [(0, o)])
    ws = p.parent
    good = ('x/' + n, 'y/' + m, o)
    bad = (z, 'x', 'x/' + z, z + '/' + n, 'x/' + n + '/' + z)
    for g in good:
        for b in bad:
            check(raises(ValueError, c.create_connector, g, b, ws) and raises(ValueError, c.create_connector, b, g, ws), 'a port that does not exist is rejected')
    q = c.create_component_prototype(el.ApplicationSoftwareComponentType('D'), 'q')
    check(raises(ValueError, c.create_connector, 'q/' + n, 'y/' + m, ws), 'a component that does not exist is rejected')
    u = put(p, el.Unit('U'))
    q.type_ref = el.SwComponentTypeRef(str(u.ref()), x.type_ref.dest)
    check(raises(ValueError, c.create_connector, 'q/' + n, 'y/' + m, ws), 'what is no component is rejected')
    check(len(c.connectors) == 0, 'no connector is made')


def specs():
    out = []
    n, e = ('n', 'name'), ('e', 'name')
    a = ('a', 'name')
    LIM = ('opt', ('enum', 'HandleOutOfRange'))
    NAMES = ('p', 'r', 'pr provided', 'pr required')
    for k, nm in enumerate(NAMES):
        out.append(Spec('one data element: ' + nm, one_element(k), [a, ('b', 'name'), ('c', 'name'), n, e, ('q', 'bool'), ('limit', LIM), ('protect', ('opt', 'bool'))],
                        engine=setup, samples=20))
        out.append(Spec('initial value: ' + nm, init_value(k), [a, n, ('v', ('or', ('obj', 'TextValueSpecification'), ('obj', 'ArrayValueSpecification'))),
                                                                  ('text', 'str0'), ('number', ('or', 'int', 'float'))], engine=setup, samples=20))
        es = [('e1', 'name'), ('e2', 'name'), ('e3', 'name')]
        for listed in ((False, True) if k < 2 else (False,)):
            s = ', listed' if listed else ''
            out.append(Spec('several data elements: ' + nm + s, several_elements(k, listed),
                            [a, n] + es + [('q1', 'bool'), ('q2', 'bool'), ('q3', 'bool'), ('l1', LIM), ('l2', LIM), ('turn', 'bool')], engine=setup, samples=20))
            out.append(Spec('unknown parts: ' + nm + s, unknown_element(k, listed), [a, n, ('e1', 'name'), ('e2', 'name'), ('x', 'name'), ('l1', ('enum', 'HandleOutOfRange'))], engine=setup, samples=20))
            out.append(Spec('several operations: ' + nm + s, several_operations(k, listed),
                            [a, n] + es + [('s1', ('opt', 'nat')), ('s3', ('opt', 'nat')), ('turn', 'bool')], engine=setup, samples=20))
        out.append(Spec('one operation: ' + nm, one_operation(k), [a, n, e, ('size', ('opt', 'nat'))], engine=setup, samples=20))
        out.append(Spec('modes: ' + nm, mode_switch(k), [a, n, ('m', 'name'), ('on', ('opt', 'bool'))], engine=setup, samples=20))
        out.append(Spec('interface without parts: ' + nm, no_parts(k), [a, n], engine=setup, samples=5))
        C = ('QueuedSenderComSpec', 'QueuedReceiverComSpec')[k % 2]
        D = ('ServerComSpec', 'ClientComSpec')[k % 2]
        out.append(Spec('specifications of the user: ' + nm, finished(k), [n, ('e1', 'name'), ('e2', 'name'), ('x', ('obj', C)), ('y', ('obj', D)), ('l1', LIM)],
                        engine=setup, samples=20))
    I = ('or', *[('called', x) for x in ('SenderReceiverInterface', 'NvDataInterface', 'ParameterInterface', 'ClientServerInterface', 'ModeSwitchInterface')])
    T = ('or', ('called', 'ApplicationSoftwareComponentType'), ('called', 'CompositionSwComponentType'))
    for k, nm in enumerate(NAMES[:2] + ('pr',)):
        for alias in ((False, True) if k < 2 else (False,)):
            out.append(Spec('port: ' + nm + (', alias' if alias else ''), plain_port(k, alias),
                            [('c', T), ('i', I), a, n, ('free', ('opt', 'bool')), ('text', 'word')], engine=setup, samples=30))
    out.append(Spec('port with both sides', both_sides, [a, n, e, ('q', 'bool'), ('l1', LIM), ('l2', LIM)], engine=setup, samples=20))
    PORT = ('or', ('obj', 'ProvidePortPrototype'), ('obj', 'RequirePortPrototype'), ('obj', 'PRPortPrototype'))
    out.append(Spec('ports of a kind', kinds_of_ports, [('x', PORT), ('y', PORT), ('z', PORT), ('c', T)], engine=setup, samples=30))
    K = ('or', ('const', 0), ('const', 1), ('const', 2))
    out.append(Spec('find ports', find_ports, [a, ('b', 'name'), ('k1', K), ('k2', K), n], engine=setup, samples=60))
    NAMED = ('or', ('named', 'ProvidePortPrototype'), ('named', 'RequirePortPrototype'), ('named', 'PRPortPrototype'))
    for w, nm in enumerate(('', ' p', ' r')):
        out.append(Spec('find any port' + nm, find_any_port(w), [('xs', ('found', NAMED, 2)), n], engine=setup, samples=40))
    X = (('named', 'SwComponentPrototype'), ('named', 'DelegationSwConnector'), ('named', 'RequirePortPrototype'))
    for w in range(3):
        out.append(Spec('find any part %d' % w, find_any_part(w), [('xs', ('found', X[w], 1)), ('ys', ('found', X[1 if w == 0 else 0], 1)), n], engine=setup, samples=40))
    for w, c in enumerate(('VariableDataPrototype', 'ClientServerOperation')):
        out.append(Spec('any part of the interface %d' % w, any_in_port(w), [('xs', ('found', ('named', c), 2)), n, ('e', 'name'), ('kind', K)], engine=setup, samples=40))
    out.append(Spec('parts of the interface of a port', in_port, [a, ('i', 'name'), ('c', 'name'), n, ('e1', 'name'), ('e2', 'name'), ('x', 'name'), ('kind', K)], engine=setup, samples=20))
    out.append(Spec('internal behavior', behavior, [('c', ('called', 'ApplicationSoftwareComponentType')), a, n, ('text', 'word'), ('named', 'bool')], engine=setup, samples=20))
    out.append(Spec('component prototype', prototype, [('c', ('called', 'CompositionSwComponentType')), ('t', T), a, n, ('text', 'word'), ('named', 'bool')], engine=setup, samples=20))
    m = ('m', 'name')
    B = ('or', ('const', 0), ('const', 1))
    out.append(Spec('assembly connector', assembly, [a, n, m, ('turn', 'bool'), ('back', 'bool'), ('slash', 'bool')], engine=setup, samples=20))
    crowd = {f: (f, ('found', ('named', c), 2)) for f, c in (('components', 'SwComponentPrototype'), ('ports', 'RequirePortPrototype'),
                                                             ('inner', 'RequirePortPrototype'), ('connectors', 'DelegationSwConnector'))}
    out.append(Spec('assembly connector among others', crowded_assembly, [crowd['components'], crowd['inner'], n, m], engine=setup, samples=40))
    out.append(Spec('delegation connector among others', crowded_delegation, [crowd['ports'], crowd['inner'], n, m], engine=setup, samples=40))
    for k in range(3):
        out.append(Spec('connectors before %d' % k, lambda connectors, n, m, k=k: crowded_connectors(connectors, n, m, k), [crowd['connectors'], n, m], engine=setup, samples=40))
    out.append(Spec('ports of the same kind', same_kinds, [a, n, m, ('k', B)], engine=setup, samples=10))
    out.append(Spec('delegation connector', delegation, [a, n, m, ('o', 'name'), ('k', B), ('back', 'bool'), ('slash', 'bool')], engine=setup, samples=20))
    out.append(Spec('pass-through connector', pass_through, [a, n, m, ('k', K), ('j', K), ('back', 'bool'), ('slash', 'bool')], engine=setup, samples=20))
    out.append(Spec('outer ports of the same kind', same_outer_kinds, [a, n, m, ('k', B)], engine=setup, samples=10))
    out.append(Spec('connector without ends', no_ends, [a, n, m, ('o', 'name'), ('z', 'name')], engine=setup, samples=10))
    return out
