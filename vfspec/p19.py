"""P19: runnables, events, access points and options that are made for a behavior are the ones that were asked for."""
from . import Spec
from .api import check, assume, equal, identical, raises
from .p18 import top, put, data, calls, swc, component, port_class, path

POINTS = ('argument', 'async_server_call_result_point', 'data_read_access', 'data_receive_point_by_argument', 'data_receive_point_by_value',
          'data_send_point', 'data_write_access', 'external_triggering_point', 'internal_triggering_point', 'mode_access_point', 'mode_switch_point',
          'parameter_access', 'read_local_variable', 'server_call_point', 'wait_point', 'write_local_variable')


def setup(e):
    from . import roundtrip
    roundtrip.setup(e)
    naming(e)


def naming(e):
    """Contract of make_unique_name_in_list (proved by P15): the name that is wanted, when no name in
    the list is that name or begins with it and '_'; else some text that is no name in the list (the
    names in the list may get a suffix; here they are kept)."""
    import autosar.xml.element as el
    from vf.builtin_models import str_method
    from vf.values import SStr, StrVar, SList, Seg, Unsupported
    n = [0]

    def unique(e, args, kwargs):
        n[0] += 1
        r = SStr([StrVar('unique_%d' % n[0], True)])
        want = args[1]
        begin = e.concat([want, '_'])
        def hit(g, y):
            name = e.getattr1(y, 'name')
            return e.b.AND(g, e.b.OR(e.eq(name, want), e.truth(e.over(name, lambda t: str_method(e, t, 'startswith', [begin], [])))))
        entries = e.list_entries(args[0]) if isinstance(args[0], SList) else []
        if any(isinstance(x, Seg) and (x.src.group is None or e.loops) for x in entries):
            raise Unsupported('unique name for a list of unknown length')
        taken = e.found(entries, hit)
        for x in entries:
            for g, y in [(e.b.AND(h, x.src.nonempty), y) for h, y in x.entries] if isinstance(x, Seg) else [x]:
                e.fill_failures.append((e.b.NOT(e.b.AND(g, e.eq(e.getattr1(y, 'name'), r))), 'new name'))
        return e.simp(e.mkU([(taken, r), (e.b.NOT(taken), want)]))
    f = getattr(el, 'make_unique_name_in_list', None)
    if f is not None:
        e.contracts[f] = unique


# ---------------------------------------------------------------- access points
def nv(p, name, elems):
    import autosar.xml.element as el
    i = put(p, el.NvDataInterface(name))
    for n in elems:
        i.create_data_element(n)
    return i


def parameters(p, name, elems):
    import autosar.xml.element as el
    i = put(p, el.ParameterInterface(name))
    for n in elems:
        i.create_parameter(n)
    return i


def modes(p, name, m):
    import autosar.xml.element as el
    i = put(p, el.ModeSwitchInterface(name))
    if m is not None:
        i.create_mode_group(m)
    return i


def runner(p, ports):
    """A component of the package with ports (kind, name, interface), and a runnable."""
    s = swc(p, 'C')
    for k, n, i in ports:
        s.append_port(port_class(k)(n, i.ref()))
    return s, s.create_internal_behavior('B').create_runnable('R')


def others(r, *names):
    for a in POINTS:
        check(a in names or len(getattr(r, a)) == 0, 'no other access point')


def clear(text, name):
    """The name is not taken by the text."""
    assume(text != name and not text.startswith(name + '_'))


def settings(p, **values):
    p.parent.behavior_settings.update(values)


def same(ref, x):
    return str(ref) == str(x.ref()) and ref.dest == x.ref().dest


def accesses(x, port, d):
    """The access point is for the data element of the port."""
    import autosar.xml.element as el
    check(type(x) is el.VariableAccess, 'an access point')
    v = x.accessed_variable.ar_variable_iref
    check(same(v.port_prototype_ref, port), 'of the port')
    check(same(v.target_data_prototype_ref, d), 'for the data element')


PREFIXES = (('data_read_access', 'data_read_access_prefix', 1, ('READ',)),
            ('data_receive_point_by_argument', 'data_receive_point_prefix', 1, ('', 'ARG', 'ARGUMENT')),
            ('data_receive_point_by_value', 'data_receive_point_prefix', 1, ('VAL', 'VALUE')),
            ('data_send_point', 'data_send_point_prefix', 0, ('', 'SEND')),
            ('data_write_access', 'data_write_access_prefix', 0, ('WRITE',)))


def asked(word, form):
    """How an access is asked for: in capitals, in small letters, with a space after it."""
    return '' if word == '' else word + ':' if form == 0 else word.lower() + ':' if form == 1 else word + ': '


def data_access(where, setting, kind, word, form):
    def spec(n, e1, e2, prefix, text, whole, named, lone):
        p = top('P')
        ports = [(kind, n, nv(p, 'I', [e1]) if whole else data(p, 'I', [(e1, False)]))]
        if not lone:
            assume(e1 != e2)
            ports[0] = (kind, n, nv(p, 'J', [e2, e1]) if whole else data(p, 'J', [(e2, False), (e1, True)]))
        s, r = runner(p, ports)
        i = ports[0][2]
        d = i.data_elements[0 if lone else 1]
        check(raises(ValueError, r.create_port_access, asked(word, form) + n + '/' + e1), 'the prefix of the name is not set')
        settings(p, **{setting: prefix})
        if named:
            args = {'name': text, 'category': prefix}
            r.create_port_access((asked(word, form) + n + '/' + e1, args))
            check(len(args) == 2 and args['name'] == text and args['category'] == prefix, 'what was given is left alone')
        else:
            r.create_port_access(asked(word, form) + n + '/' + e1)
        got = getattr(r, where)
        others(r, where)
        check(len(got) == 1, 'one access point')
        x = got[0]
        accesses(x, s.ports[0], d)
        check(x.name == (text if named else prefix + '_' + n + '_' + e1) and x.parent is r, 'its name')
        check(not named or x.category == prefix, 'its attributes')
        q = r.parent.create_runnable('Q')
        if lone:
            q.create_port_access([asked(word, form) + n])
            got = getattr(q, where)
            check(len(got) == 1, 'the only data element')
            accesses(got[0], s.ports[0], d)
            check(got[0].name == prefix + '_' + n + '_' + e1, 'its name')
        else:
            check(raises(RuntimeError, q.create_port_access, asked(word, form) + n), 'it is not clear which data element')
            others(q)
            r.create_port_access([asked(word, form) + n + '/' + e2])
            check(len(got) == 2 and got[0] is x, 'in the order they were asked for')
            accesses(got[1], s.ports[0], i.data_elements[0])
    return spec


def parameter_access(n, e1, e2, prefix, text, named):
    import autosar.xml.element as el
    assume(e1 != e2)
    p = top('P')
    i, j = parameters(p, 'I', [e1]), parameters(p, 'J', [e1, e2])
    s, r = runner(p, [(1, n, i), (1, n + 'x', j)])
    check(raises(ValueError, r.create_port_access, n + '/' + e1), 'the prefix of the name is not set')
    settings(p, parameter_access_prefix=prefix)
    args, other = {'name': text, 'category': prefix}, {'name': text + 'x', 'category': prefix}
    if named:
        r.create_port_access([(n + '/' + e1, args), (n + 'x/' + e2, other)])
        check(len(args) == 2 and args['name'] == text, 'what was given is left alone')
    else:
        r.create_port_access([n + '/' + e1, n + 'x/' + e2])
    last = r.parent.create_runnable('Q')
    last.create_port_access(n)
    others(r, 'parameter_access')
    others(last, 'parameter_access')
    check(len(r.parameter_access) == 2 and len(last.parameter_access) == 1, 'the access points')
    got = [r.parameter_access[0], r.parameter_access[1], last.parameter_access[0]]
    for k, port, q, t, o in ((0, 0, i.parameters[0], text, r), (1, 1, j.parameters[1], text + 'x', r), (2, 0, i.parameters[0], None, last)):
        x = got[k]
        port = s.ports[port]
        check(type(x) is el.ParameterAccess and x.parent is o, 'an access point')
        v = x.accessed_parameter.autosar_parameter
        check(same(v.port_prototype, port) and same(v.target_data_prototype, q), 'for the parameter of the port')
        check(x.name == (t if named and t is not None else prefix + '_' + port.name + '_' + q.name), 'its name')
        check(t is None or not named or x.category == prefix, 'its attributes')
    check(raises(RuntimeError, r.create_port_access, n + 'x'), 'it is not clear which parameter')
    check(raises(RuntimeError, r.create_port_access, n + '/' + e2), 'a parameter that does not exist is rejected')


def call_access(later):
    def spec(n, e1, e2, prefix, text, kind, named, form):
        import autosar.xml.element as el
        assume(e1 != e2)
        p = top('P')
        i, j = calls(p, 'I', [e1]), calls(p, 'J', [e1, e2])
        s, r = runner(p, [(kind, n, i), (kind, n + 'x', j)])
        word = asked('ASYNC', form) if later else asked('SYNC', form) if form < 3 else ''
        check(raises(ValueError, r.create_port_access, word + n + '/' + e1), 'the prefix of the name is not set')
        settings(p, server_call_point_prefix=prefix)
        args, other = {'name': text, 'category': prefix}, {'name': text + 'x', 'category': prefix}
        if named:
            r.create_port_access([(word + n + '/' + e1, args), (word + n + 'x/' + e2, other)])
            check(len(args) == 2 and args['name'] == text, 'what was given is left alone')
        else:
            r.create_port_access([word + n + '/' + e1, word + n + 'x/' + e2])
        last = r.parent.create_runnable('Q')
        last.create_port_access(word + n)
        others(r, 'server_call_point')
        others(last, 'server_call_point')
        check(len(r.server_call_point) == 2 and len(last.server_call_point) == 1, 'the access points')
        got = [r.server_call_point[0], r.server_call_point[1], last.server_call_point[0]]
        for k, port, q, t, o in ((0, 0, i.operations[0], text, r), (1, 1, j.operations[1], text + 'x', r), (2, 0, i.operations[0], None, last)):
            x = got[k]
            port = s.ports[port]
            check(type(x) is (el.AsynchronousServerCallPoint if later else el.SynchronousServerCallPoint) and x.parent is o, 'an access point')
            check(same(x.operation.context_port, port) and same(x.operation.target_required_operation, q), 'for the operation of the port')
            check(x.name == (t if named and t is not None else prefix + '_' + port.name + '_' + q.name), 'its name')
            check(t is None or not named or x.category == prefix, 'its attributes')
        check(raises(RuntimeError, r.create_port_access, word + n + 'x'), 'it is not clear which operation')
        check(raises(RuntimeError, r.create_port_access, word + n + '/' + e2), 'an operation that does not exist is rejected')
    return spec


def mode_access(kind, how):
    """how: access without name, with name, switch."""
    def spec(n, m, prefix, text, named, whole):
        import autosar.xml.element as el
        p = top('P')
        i = modes(p, 'I', m)
        s, r = runner(p, [(kind, n, i)])
        word = ('', 'ACCESS:', 'switch: ')[how]
        ref = word + n + ('/' + m if whole else '')
        check(how == 0 or raises(ValueError, r.create_port_access, ref), 'the prefix of the name is not set')
        settings(p, mode_access_point_prefix=prefix, mode_switch_point_prefix=prefix + 'x')
        args = {'name': text, 'category': prefix}
        r.create_port_access((ref, args) if named else ref)
        check(len(args) == 2 and args['name'] == text, 'what was given is left alone')
        if how == 2:
            others(r, 'mode_switch_point')
            check(len(r.mode_switch_point) == 1, 'one access point')
            x = r.mode_switch_point[0]
            check(type(x) is el.ModeSwitchPoint and x.parent is r, 'an access point')
            y = x
        else:
            others(r, 'mode_access_point')
            check(len(r.mode_access_point) == 1, 'one access point')
            x = r.mode_access_point[0]
            check(type(x) is el.ModeAccessPoint, 'an access point')
            y = x.ident
        check(type(x.mode_group) is (el.RModeGroupInAtomicSwcInstanceRef if kind == 1 else el.PModeGroupInAtomicSwcInstanceRef), 'of the side of the port')
        check(same(x.mode_group.context_port, s.ports[0]) and same(x.mode_group.target_mode_group, i.mode_group), 'for the modes of the port')
        check((y is None) == (how == 0), 'with a name when it is asked for')
        if y is not None:
            check(y.name == (text if named else (prefix if how == 1 else prefix + 'x') + '_' + n + '_' + m), 'its name')
            check(not named or y.category == prefix, 'its attributes')
        check(raises(RuntimeError, r.create_port_access, word + n + '/' + m + 'x'), 'modes that do not exist are rejected')
    return spec


def wrong_access(a, n, e, x, word):
    import autosar.xml.element as el
    p = top('P')
    i = data(p, 'I', [(e, False)])
    s, r = runner(p, [(0, n, i)])
    s.append_port(port_class(0)('gone', el.PortInterfaceRef('/Q/Nothing', i.ref().dest)))
    settings(p, data_send_point_prefix='S')
    assume(x != n and x != 'gone' and x != e and n not in ('gone', 'both', 'modes', 'all', 'serve', 'none'))
    check(raises(ValueError, r.create_port_access, x) and raises(ValueError, r.create_port_access, x + '/' + e), 'a port that does not exist is rejected')
    check(raises(RuntimeError, r.create_port_access, n + '/' + x), 'a data element that does not exist is rejected')
    check(raises(ValueError, r.create_port_access, 'gone/' + e), 'an interface that does not exist is rejected')
    for w in ('READ', 'WRITE', 'ARGUMENT', 'ARG', 'VALUE', 'VAL', 'SEND', 'ACCESS', 'SWITCH', 'ASYNC', 'SYNC'):
        assume(word.upper() != w)
    check(raises(ValueError, r.create_port_access, word + ':' + n), 'what is no way of access is rejected')
    s.append_port(port_class(1)('modes', modes(p, 'M', e).ref()))
    s.append_port(port_class(2)('both', i.ref()))
    s.append_port(port_class(2)('all', p.find('M').ref()))
    s.append_port(port_class(0)('serve', calls(p, 'S', [e]).ref()))
    s.append_port(port_class(1)('none', modes(p, 'N', None).ref()))
    settings(p, mode_switch_point_prefix='S', mode_access_point_prefix='S', server_call_point_prefix='S')
    for w in ('both', 'SWITCH:modes', 'all', 'ACCESS:all', 'SWITCH:all', 'serve', 'ASYNC:serve/' + e):
        check(raises(TypeError, r.create_port_access, w), 'an access that the port does not offer is rejected')
    check(raises(RuntimeError, r.create_port_access, 'none') and raises(RuntimeError, r.create_port_access, 'none/' + e), 'modes that do not exist are rejected')
    others(r)
    q = el.RunnableEntity('Q')
    check(raises(RuntimeError, q.create_port_access, n), 'a runnable without behavior')
    b = el.SwcInternalBehavior('B')
    b.append_runnable(q)
    check(raises(RuntimeError, q.create_port_access, n), 'a behavior without component')
    c = el.ApplicationSoftwareComponentType('D', internal_behavior=b)
    check(raises(ValueError, q.create_port_access, n), 'a component without workspace')
    others(q)


def several_accesses(n, m, e, f, back):
    """Accesses of two ports, asked for at once and one after the other."""
    assume(n != m)
    p = top('P')
    s, r = runner(p, [(1, n, data(p, 'I', [(e, False)])), (0, m, data(p, 'J', [(f, False)])), (1, n + m, calls(p, 'K', [e]))])
    settings(p, data_receive_point_prefix='R', data_send_point_prefix='S', server_call_point_prefix='C', data_read_access_prefix='I')
    asks = [n, m, 'VAL:' + n + '/' + e, n + m + '/' + e, 'READ:' + n]
    if back:
        r.create_port_access(asks)
    else:
        for x in asks:
            r.create_port_access(x)
    names = ('data_receive_point_by_argument', 'data_send_point', 'data_receive_point_by_value', 'server_call_point', 'data_read_access')
    others(r, *names)
    for a in names:
        check(len(getattr(r, a)) == 1, 'one access point of each kind')
    accesses(r.data_receive_point_by_argument[0], s.ports[0], p.find('I').data_elements[0])
    accesses(r.data_send_point[0], s.ports[1], p.find('J').data_elements[0])


def one_after_another(n, m, e, word, kind, back):
    """How one access is asked for does not matter for the next one."""
    assume(n != m)
    p = top('P')
    i = calls(p, 'I', [e]) if kind == 2 else modes(p, 'I', e) if kind == 3 else data(p, 'I', [(e, False)])
    side = 1 if kind == 2 else 0 if kind == 3 else kind
    s, r = runner(p, [(side, n, i), (side, m, i)])
    settings(p, data_receive_point_prefix='R', data_send_point_prefix='S', server_call_point_prefix='C', data_read_access_prefix='I', data_write_access_prefix='O',
             mode_access_point_prefix='A', mode_switch_point_prefix='M')
    words = (('SEND', 'WRITE'), ('READ', 'VALUE'), ('ASYNC', 'SYNC'), ('SWITCH', 'ACCESS'))[kind]
    r.create_port_access([words[word] + ':' + n, m, (words[1 - word] + ':' + m, {'name': 'a'}), n] if back else [words[word] + ': ' + n, m])
    q = r.parent.create_runnable('Q')
    q.create_port_access(m)
    names = ('data_send_point', 'data_receive_point_by_argument', 'server_call_point', 'mode_access_point')
    x = getattr(q, names[kind])[0]
    check(len(getattr(q, names[kind])) == 1, 'one access point')
    others(q, names[kind])
    got = getattr(r, names[kind])
    if kind == 2:
        check(type(got[1]) is type(x) and str(got[1].operation.context_port) == path('P', 'C', m), 'the call that was asked for')
    elif kind == 3:
        y = got[word]
        check(y.ident is None and str(y.mode_group.context_port) == path('P', 'C', m), 'the access that was asked for')
    else:
        y = got[1 if kind == 0 and word == 0 else 0]
        check(str(y.accessed_variable.ar_variable_iref.port_prototype_ref) == path('P', 'C', m), 'the access that was asked for')


# ---------------------------------------------------------------- events
def event_parts(p, kind, n, i, runnable):
    s = swc(p, 'C')
    s.append_port(port_class(kind)(n, i.ref()))
    b = s.create_internal_behavior('B')
    return s, b, b.create_runnable(runnable)


def event(b, before, x, cls, name, r):
    check(type(x) is cls and x.name == name, 'the event')
    check(len(b.events) == before + 1 and b.events[before] is x and x.parent is b, 'it is added to the behavior')
    check(same(x.start_on_event, r), 'it starts the runnable')


def find_any_runnable(xs, n):
    import autosar.xml.element as el
    b = el.SwcInternalBehavior('B', runnables=xs)
    r = b.find_runnable(n)
    if r is None:
        for x in xs:
            check(x.name != n, 'the runnable of the name is found')
    else:
        check(r.name == n and any(x is r for x in xs), 'the runnable of the name')


def any_runnable(kind):
    """An event for one of any runnables, and no event for what is no runnable."""
    def spec(xs, n, m):
        import autosar.xml.element as el
        from .p15 import component, EVENTS
        c, b = component()
        for x in xs:
            b.append_runnable(x)
        if any(x.name == n for x in b.runnables):
            ev = EVENTS_FOR[kind](b, n, m)
            check(type(ev).__name__ == kind and ev.name == m and identical(b.events, [ev]), 'the event')
            r = b.find_runnable(n)
            check(r.name == n and same(ev.start_on_event, r), 'it starts the runnable')
            check(str(ev.start_on_event) == path('P', 'C', 'B', n), 'it starts the runnable')
        else:
            check(raises(KeyError, EVENTS_FOR[kind], b, n, m), 'a runnable that does not exist is rejected')
            check(len(b.events) == 0, 'no event is made')
    return spec


def on_exit():
    import autosar.xml.enumeration as ar_enum
    return ar_enum.ModeActivationKind.ON_EXIT


EVENTS_FOR = {
    'BackgroundEvent': lambda b, r, n: b.create_background_event(r, n),
    'DataReceiveErrorEvent': lambda b, r, n: b.create_data_receive_error_event(r, 'SrR/D', n),
    'DataReceivedEvent': lambda b, r, n: b.create_data_received_event(r, 'SrR/D', n),
    'InitEvent': lambda b, r, n: b.create_init_event(r, n),
    'OperationInvokedEvent': lambda b, r, n: b.create_operation_invoked_event(r, 'CsP/Op', n),
    'SwcModeManagerErrorEvent': lambda b, r, n: b.create_swc_mode_manager_error_event(r, 'MsP', n),
    'SwcModeSwitchEvent': lambda b, r, n: b.create_swc_mode_mode_switch_event(r, 'MsR/On', on_exit(), n),
    'TimingEvent': lambda b, r, n: b.create_timing_event(r, 0.5, event_name=n),
}


EVENTS = (('background', 'create_background_event', 'BackgroundEvent', 'background_event_prefix'),
          ('init', 'create_init_event', 'InitEvent', 'init_event_prefix'),
          ('timing', 'create_timing_event', 'TimingEvent', 'timing_event_prefix'))


def plain_event(method, cls, setting):
    def spec(n, z, prefix, text, period, offset):
        import autosar.xml.element as el
        assume(z != n)
        clear(text, prefix + '_' + n)
        p = top('P')
        s, b, r = event_parts(p, 0, 'p', data(p, 'I', []), n)
        make = getattr(b, method)
        more = {'period': period, 'offset': offset} if method == 'create_timing_event' else {}
        check(raises(RuntimeError, make, n, **more) and raises(KeyError, make, z, **more), 'without a name or a runnable there is no event')
        x = make(n, event_name=text, category=prefix, **more)
        event(b, 0, x, getattr(el, cls), text, r)
        check(x.category == prefix, 'its attributes')
        settings(p, **{setting: prefix})
        y = make(n, **more)
        event(b, 1, y, getattr(el, cls), prefix + '_' + n, r)
        if method == 'create_timing_event':
            for x in (x, y):
                check(x.period == period and x.offset == offset, 'when it occurs')
        check(raises(KeyError, make, z, **more) and len(b.events) == 2, 'a runnable that does not exist is rejected')
    return spec


def data_event(method, cls, setting):
    def spec(n, z, r1, prefix, text, e1, e2, kind):
        import autosar.xml.element as el
        assume(z != n and e1 != e2 and z != e1 and z != e2 and z != 'p' and n != 'p' and z != 'q')
        p = top('P')
        i, j = data(p, 'I', [(e1, False)]), data(p, 'J', [(e2, False), (e1, True)])
        s, b, r = event_parts(p, kind, 'p', i, n)
        s.append_port(port_class(kind)('q', j.ref()))
        s.append_port(port_class(0)('x', j.ref()))
        make = getattr(b, method)
        check(raises(RuntimeError, make, n, 'p/' + e1), 'without a name there is no event')
        x = make(n, 'q/' + e1, text, category=prefix)
        event(b, 0, x, getattr(el, cls), text, r)
        check(x.category == prefix, 'its attributes')
        check(same(x.data.context_port, s.ports[1]) and same(x.data.target_data_element, j.data_elements[1]), 'for the data element of the port')
        settings(p, **{setting: prefix})
        clear(text, prefix + '_' + n + '_p_' + e1)
        y = make(n, 'p')
        event(b, 1, y, getattr(el, cls), prefix + '_' + n + '_p_' + e1, r)
        check(same(y.data.context_port, s.ports[0]) and same(y.data.target_data_element, i.data_elements[0]), 'for the only data element')
        check(raises(KeyError, make, z, 'p'), 'a runnable that does not exist is rejected')
        for w in (z, 'p/' + z, 'q', 'x/' + e1, z + '/' + e1, '/p', ''):
            check(raises(ValueError, make, n, w), 'a data element that cannot be received is rejected')
        check(len(b.events) == 2, 'no other event')
    return spec


def operation_event(n, z, prefix, text, e1, e2, kind):
    import autosar.xml.element as el
    assume(z != n and e1 != e2 and z != e1 and z != e2 and z != 'p' and z != 'q')
    p = top('P')
    i, j = calls(p, 'I', [e1]), calls(p, 'J', [e2, e1])
    s, b, r = event_parts(p, kind, 'p', i, n)
    s.append_port(port_class(kind)('q', j.ref()))
    s.append_port(port_class(1)('x', j.ref()))
    make = b.create_operation_invoked_event
    check(raises(RuntimeError, make, n, 'p/' + e1), 'without a name there is no event')
    x = make(n, 'q/' + e1, text, category=prefix)
    event(b, 0, x, el.OperationInvokedEvent, text, r)
    check(x.category == prefix, 'its attributes')
    check(same(x.operation.context_port, s.ports[1]) and same(x.operation.target_provided_operation, j.operations[1]), 'for the operation of the port')
    settings(p, operation_invoked_event_prefix=prefix)
    clear(text, prefix + '_' + n + '_p_' + e1)
    y = make(n, 'p')
    event(b, 1, y, el.OperationInvokedEvent, prefix + '_' + n + '_p_' + e1, r)
    check(same(y.operation.context_port, s.ports[0]) and same(y.operation.target_provided_operation, i.operations[0]), 'for the only operation')
    check(raises(KeyError, make, z, 'p'), 'a runnable that does not exist is rejected')
    for w in (z, 'p/' + z, 'q', 'x/' + e1, z + '/' + e1, '/p', ''):
        check(raises(ValueError, make, n, w), 'an operation that is not provided is rejected')
    check(len(b.events) == 2, 'no other event')


def mode_world(p, m, d1, d2, kind, n):
    import autosar.xml.element as el
    g = put(p, el.ModeDeclarationGroup('G'))
    g.create_mode_declaration(d1)
    g.create_mode_declaration(d2)
    i = put(p, el.ModeSwitchInterface('I'))
    i.create_mode_group(m, g.ref())
    return (g, i) + event_parts(p, kind, 'p', i, n)


def manager_event(n, z, prefix, text, m, kind):
    import autosar.xml.element as el
    assume(z != n and z != 'p' and z != 'x' and z != 'q')
    p = top('P')
    g, i, s, b, r = mode_world(p, m, 'a', 'b', kind, n)
    s.append_port(port_class(1)('x', i.ref()))
    s.append_port(port_class(0)('q', modes(p, 'J', None).ref()))
    make = b.create_swc_mode_manager_error_event
    check(raises(RuntimeError, make, n, 'p'), 'without a name there is no event')
    x = make(n, 'p', text, category=prefix)
    event(b, 0, x, el.SwcModeManagerErrorEvent, text, r)
    check(x.category == prefix, 'its attributes')
    settings(p, swc_mode_manager_error_event_prefix=prefix)
    clear(text, prefix + '_' + n + '_p_' + m)
    y = make(n, 'p')
    event(b, 1, y, el.SwcModeManagerErrorEvent, prefix + '_' + n + '_p_' + m, r)
    for x in (x, y):
        check(same(x.mode_group.context_port, s.ports[0]) and same(x.mode_group.target_mode_group, i.mode_group), 'for the modes of the port')
    check(raises(KeyError, make, z, 'p'), 'a runnable that does not exist is rejected')
    check(raises(ValueError, make, n, z) and raises(ValueError, make, n, 'x') and raises(ValueError, make, n, 'q'), 'modes that are not provided are rejected')
    check(len(b.events) == 2, 'no other event')


def switch_event(n, z, prefix, text, m, d1, d2, kind, activation, pair):
    import autosar.xml.element as el
    from autosar.xml.exception import InvalidReferenceError
    assume(d1 != d2 and z != d1 and z != d2 and z != n and z != 'p' and z != 'x' and z != 'q')
    p = top('P')
    g, i, s, b, r = mode_world(p, m, d1, d2, kind, n)
    s.append_port(port_class(0)('x', i.ref()))
    s.append_port(port_class(1)('q', modes(p, 'J', None).ref()))
    make = b.create_swc_mode_mode_switch_event
    check(raises(RuntimeError, make, n, 'p/' + d1), 'without a name there is no event')
    x = make(n, 'p/' + d2, activation, text, category=prefix)
    event(b, 0, x, el.SwcModeSwitchEvent, text, r)
    check(x.category == prefix and x.activation == activation, 'its attributes')
    for_mode(x.mode, s.ports[0], i.mode_group, g.mode_declarations[1])
    settings(p, swc_mode_switch_event_prefix=prefix)
    clear(text, prefix + '_' + n)
    refs = ('p/' + d2, 'p/' + d1)
    y = make(n, refs if pair else list(refs), activation)
    event(b, 1, y, el.SwcModeSwitchEvent, prefix + '_' + n, r)
    check(y.activation == activation and isinstance(y.mode, tuple) and len(y.mode) == 2, 'a transition')
    for_mode(y.mode[0], s.ports[0], i.mode_group, g.mode_declarations[1])
    for_mode(y.mode[1], s.ports[0], i.mode_group, g.mode_declarations[0])
    check(raises(KeyError, make, z, 'p/' + d1), 'a runnable that does not exist is rejected')
    for w in (z, 'p', 'p/' + z, 'x/' + d1, z + '/' + d1, 'q/' + d1, '', '/p/' + d1):
        check(raises(ValueError, make, n, w) and raises(ValueError, make, n, ('p/' + d1, w)), 'a mode that cannot be observed is rejected')
    check(raises(ValueError, make, n, ('p/' + d1,)) and raises(ValueError, make, n, refs + refs), 'a transition has two modes')
    check(raises(TypeError, make, n, None) and raises(TypeError, make, n, ('p/' + d1, 1)), 'what is no mode is rejected')
    i.mode_group.type_ref = el.ModeDeclarationGroupRef('/P/Nothing')
    check(raises(InvalidReferenceError, make, n, 'p/' + d1), 'modes that do not exist are rejected')
    check(len(b.events) == 2, 'no other event')


def for_mode(x, port, group, mode):
    check(same(x.context_port, port) and same(x.context_mode_declaration_group_prototype, group) and same(x.target_mode_declaration, mode), 'for the mode of the port')


def unique_events(n, r2, prefix, text):
    """Events of the same name."""
    assume(n != r2)
    p = top('P')
    s, b, r = event_parts(p, 0, 'p', data(p, 'I', []), n)
    q = b.create_runnable(r2)
    settings(p, init_event_prefix=prefix, background_event_prefix=prefix)
    x, y, z = b.create_init_event(n), b.create_background_event(n), b.create_init_event(r2)
    check(x.name != y.name and x.name != z.name and y.name != z.name, 'events have different names')
    check(same(x.start_on_event, r) and same(y.start_on_event, r) and same(z.start_on_event, q), 'each starts its runnable')
    check(identical(b.events, [x, y, z]), 'in the order they were made')


def not_yet(n):
    p = top('P')
    s, b, r = event_parts(p, 0, 'p', data(p, 'I', []), n)
    check(raises(NotImplementedError, b.create_data_send_completed_event, n, 'p') and raises(NotImplementedError, b.create_data_write_completed_event, n, 'p'),
          'events that are not supported are refused')
    check(len(b.events) == 0, 'no event is made')


# ---------------------------------------------------------------- runnables
def runnable(a, n, m, text, mode, concurrent, interval, level):
    import autosar.xml.element as el
    assume(n != m)
    p = top(a)
    b = swc(p, 'C').create_internal_behavior('B')
    more = {} if mode == 0 else {'symbol': None} if mode == 1 else {'symbol': text}
    x = b.create_runnable(n, concurrent, interval, reentrancy_level=level, category=text, **more)
    check(type(x) is el.RunnableEntity and x.name == n, 'the runnable')
    check(identical(b.runnables, [x]) and x.parent is b, 'it is added to the behavior')
    check(x.symbol == (n if mode == 0 else None if mode == 1 else text), 'its symbol')
    check(x.can_be_invoked_concurrently == concurrent and x.minimum_start_interval == interval and x.reentrancy_level == level and x.category == text, 'its attributes')
    check(str(x.ref()) == path(a, 'C', 'B', n), 'its path')
    others(x)
    y = b.create_runnable(m)
    check(identical(b.runnables, [x, y]), 'runnables are in the order they were made')
    check(b.find_runnable(n) is x and b.find_runnable(m) is y and b.find_runnable(n + m) is None, 'they are found by their names')


def exclusive(n, a1, a2, a3, z, turn):
    import autosar.xml.element as el
    assume(a1 != a2 and a1 != a3 and a2 != a3 and z != a1 and z != a2 and z != a3)
    p = top('P')
    b = swc(p, 'C').create_internal_behavior('B', exclusive_areas=[el.ExclusiveArea(a1), el.ExclusiveArea(a2), el.ExclusiveArea(a3)])
    x = b.create_runnable(n, can_enter_leave=[a3, a1] if turn else (a1, a3))
    check(len(x.can_enter_leave) == 2, 'the exclusive areas')
    for y, i in zip(x.can_enter_leave, (0, 2)):
        check(type(y) is el.ExclusiveAreaRefConditional and same(y.exclusive_area, b.exclusive_areas[i]), 'an exclusive area of the behavior')
    y = b.create_runnable(n + '2', can_enter_leave=a2)
    check(len(y.can_enter_leave) == 1 and same(y.can_enter_leave[0].exclusive_area, b.exclusive_areas[1]), 'one exclusive area')
    check(raises(ValueError, b.create_runnable, n + '3', can_enter_leave=z) and raises(ValueError, b.create_runnable, n + '3', can_enter_leave=[a1, z]),
          'an exclusive area that does not exist is rejected')
    check(identical(b.runnables, [x, y]), 'no runnable is made')
    u = b.create_runnable(n + '4', can_enter_leave=b.exclusive_areas[2].ref())
    check(len(u.can_enter_leave) == 1 and same(u.can_enter_leave[0].exclusive_area, b.exclusive_areas[2]), 'an exclusive area')
    u = b.create_runnable(n + '5', can_enter_leave=[b.exclusive_areas[2].ref(), b.exclusive_areas[1].ref()])
    check(len(u.can_enter_leave) == 2 and same(u.can_enter_leave[1].exclusive_area, b.exclusive_areas[1]), 'exclusive areas')


# ---------------------------------------------------------------- options of ports
def port_options(n1, n2, z, which, take, indirect, handling, values, features, forward):
    import autosar.xml.element as el
    assume(n1 != n2 and z != n1 and z != n2 and z != '*' and n1 != '*' and n2 != '*')
    p = top('P')
    s = put(p, component('C', [(0, n1), (1, n2)]))
    b = s.create_internal_behavior('B')
    b.create_port_api_options('*' if which == 0 else n1 if which == 1 else [n2] if which == 2 else (n2, n1) if which == 3 else [],
                              take, indirect, handling, values, features, forward)
    names = (n1, n2) if which in (0, 3) else (n1,) if which == 1 else (n2,) if which == 2 else ()
    check(len(b.port_api_options) == len(names), 'one option for each port')
    for name in names:
        x = b.port_api_options[name]
        check(type(x) is el.PortApiOption and same(x.port, s.find(name)), 'for the port')
        check(x.enable_take_address == take and x.indirect_api == indirect and x.error_handling == handling and x.transformer_status_forwarding == forward,
              'the options')
        check(identical(x.port_arg_values, [] if values is None else [values]) and identical(x.supported_features, [] if features is None else [features]),
              'the options')
    check(raises(ValueError, b.create_port_api_options, z) and raises(ValueError, b.create_port_api_options, [z]), 'a port that does not exist is rejected')
    check(raises(TypeError, b.create_port_api_options, None) and raises(TypeError, b.create_port_api_options, 1), 'what is no port is rejected')
    check(len(b.port_api_options) == len(names), 'no other option')


def order_of_options(n1, n2, turn):
    assume(n1 != n2 and n1 != '*' and n2 != '*')
    p = top('P')
    s = put(p, component('C', [(0, n1), (1, n2)]))
    b = s.create_internal_behavior('B')
    b.create_port_api_options([n1, n2] if turn else '*')
    got = list(b.port_api_options.values())
    one, two = got[0].port, got[1].port
    check(str(one).lower() <= str(two).lower(), 'sorted by the names of their ports')


def no_place(n):
    import autosar.xml.element as el
    b = el.SwcInternalBehavior('B')
    check(raises(RuntimeError, b.create_port_api_options, n), 'a behavior without component')
    s = el.ApplicationSoftwareComponentType('C', internal_behavior=b)
    s.append_port(port_class(0)(n))
    check(raises(ValueError, b.create_port_api_options, n) and len(b.port_api_options) == 0, 'a component without package')
    b.create_runnable(n)
    check(raises(ValueError, b.create_init_event, n) and len(b.events) == 0, 'a component without workspace')
    x = b.create_init_event(n, n)
    check(x.name == n and identical(b.events, [x]), 'a name is enough')


def specs():
    out = []
    n, e1, e2 = ('n', 'ident'), ('e1', 'ident'), ('e2', 'ident')
    prefix, text, z = ('prefix', 'name'), ('text', 'name'), ('z', 'name')
    named = ('named', 'bool')
    for where, setting, kind, words in PREFIXES:
        for w in words:
            for form in (range(3) if w else (0,)):
                out.append(Spec('access: %s %s %d' % (where, w, form), data_access(where, setting, kind, w, form),
                                [n, e1, e2, prefix, text, ('whole', 'bool'), named, ('lone', 'bool')], engine=setup, samples=16))
    out.append(Spec('access: parameters', parameter_access, [n, e1, e2, prefix, text, named], engine=setup, samples=20))
    K12 = ('or', ('const', 1), ('const', 2))
    K02 = ('or', ('const', 0), ('const', 2))
    for later in (False, True):
        out.append(Spec('access: operations' + (', later' if later else ''), call_access(later),
                        [n, e1, e2, prefix, text, ('kind', K12), named, ('form', ('or', *[('const', i) for i in range(3 if later else 4)]))], engine=setup, samples=40))
    for kind, how in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1)):
        out.append(Spec('access: modes %d %d' % (kind, how), mode_access(kind, how), [n, ('m', 'ident'), prefix, text, named, ('whole', 'bool')], engine=setup, samples=20))
    out.append(Spec('access: wrong', wrong_access, [('a', 'name'), n, ('e', 'ident'), ('x', 'ident'), ('word', 'ident')], engine=setup, samples=10))
    out.append(Spec('access: several', several_accesses, [n, ('m', 'ident'), ('e', 'ident'), ('f', 'ident'), ('back', 'bool')], engine=setup, samples=10))
    for kind in range(4):
        for word in range(2):
            out.append(Spec('access: one after another %d %d' % (kind, word), one_after_another,
                            [n, ('m', 'ident'), ('e', 'ident'), ('word', ('const', word)), ('kind', ('const', kind)), ('back', 'bool')], engine=setup, samples=10))
    num = ('opt', ('or', 'int', 'float'))
    for nm, method, cls, setting in EVENTS:
        out.append(Spec('event: ' + nm, plain_event(method, cls, setting), [n, z, prefix, text, ('period', num), ('offset', num)], engine=setup, samples=20))
    for nm, method, cls, setting in (('data receive error', 'create_data_receive_error_event', 'DataReceiveErrorEvent', 'data_receive_error_event_prefix'),
                                     ('data received', 'create_data_received_event', 'DataReceivedEvent', 'data_receive_event_prefix')):
        out.append(Spec('event: ' + nm, data_event(method, cls, setting), [n, z, ('r1', 'name'), prefix, text, e1, e2, ('kind', K12)], engine=setup, samples=20))
    out.append(Spec('event: operation invoked', operation_event, [n, z, prefix, text, e1, e2, ('kind', K02)], engine=setup, samples=20))
    out.append(Spec('event: mode manager error', manager_event, [n, z, prefix, text, ('m', 'ident'), ('kind', K02)], engine=setup, samples=20))
    out.append(Spec('event: mode switch', switch_event, [n, z, prefix, text, ('m', 'ident'), ('d1', 'name'), ('d2', 'name'), ('kind', K12),
                                                         ('activation', ('opt', ('enum', 'ModeActivationKind'))), ('pair', 'bool')], engine=setup, samples=20))
    anyr = ('xs', ('found', ('named', 'RunnableEntity'), 2))
    out.append(Spec('any runnable', find_any_runnable, [anyr, n], engine=setup, samples=40))
    for kind in EVENTS_FOR:
        out.append(Spec('any runnable: ' + kind, any_runnable(kind), [anyr, n, ('m', 'name')], engine=setup, samples=20))
    out.append(Spec('events of the same name', unique_events, [n, ('r2', 'name'), prefix, text], engine=setup, samples=10))
    out.append(Spec('events that are not supported', not_yet, [n], engine=setup, samples=4))
    out.append(Spec('runnable', runnable, [('a', 'name'), n, ('m', 'ident'), ('text', 'word'), ('mode', ('or', ('const', 0), ('const', 1), ('const', 2))),
                                           ('concurrent', ('opt', 'bool')), ('interval', num), ('level', ('opt', ('enum', 'ReentrancyLevel')))], engine=setup, samples=30))
    out.append(Spec('exclusive areas', exclusive, [n, ('a1', 'name'), ('a2', 'name'), ('a3', 'name'), z, ('turn', 'bool')], engine=setup, samples=20))
    out.append(Spec('options of ports', port_options, [('n1', 'ident'), ('n2', 'ident'), z, ('which', ('or', *[('const', i) for i in range(5)])), ('take', ('opt', 'bool')),
                                                       ('indirect', ('opt', 'bool')), ('handling', ('opt', ('enum', 'DataTransformationErrorHandling'))),
                                                       ('values', ('opt', ('obj', 'PortDefinedArgumentValue'))), ('features', ('opt', ('obj', 'CommunicationBufferLocking'))),
                                                       ('forward', ('opt', ('enum', 'DataTransformationStatusForwarding')))], engine=setup, samples=40))
    out.append(Spec('order of the options', order_of_options, [('n1', 'ident'), ('n2', 'ident'), ('turn', 'bool')], engine=setup, samples=30))
    out.append(Spec('behavior without a place', no_place, [n], engine=setup, samples=5))
    return out
