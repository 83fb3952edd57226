"""P15: names that are made for parts of a runnable and for events are not in use."""
from . import Spec
from .api import check, identical, assume
from .domains import TABLE, APPEND


def setup(e):
    """Contract of make_unique_name_in_list as seen by its callers: some text that is the name of
    no element of the list (the names in the list may get a suffix; here they are kept)."""
    import autosar.xml.element as el
    from vf.values import SStr, StrVar, SList, Seg, Unsupported
    e.distinct_keys = True
    n = [0]

    def unique(e, args, kwargs):
        n[0] += 1
        r = SStr([StrVar('unique_%d' % n[0], True)])
        for x in e.list_entries(args[0]) if isinstance(args[0], SList) else []:
            if isinstance(x, Seg):
                raise Unsupported('unique name for a list of unknown length')
            used = (e.eq(e.getattr1(x[1], 'name'), r))
            e.fill_failures.append((e.b.NOT(e.b.AND(x[0], used)), 'new name'))
        return r
    f = getattr(el, 'make_unique_name_in_list', None)
    if f is not None:
        e.contracts[f] = unique


def setup_free(e):
    e.native[all_free] = lambda e, args, kwargs: None   # what setup_names assumes
    setup_names(e, True)


def all_free(xs, base):
    """No name in the list is the base, nor begins with it and '_'."""
    for x in xs:
        assume(x.name != base and not x.name.startswith(base + '_'))


def setup_names(e, free=False):
    """free: no name is the base, nor has the form.
    Texts of the form <base>_<digits>: a name either is the base, or has that form with a number
    (in canonical decimal notation or not), or is something else. Names are ASCII."""
    import ast
    import re
    import z3
    from vf.values import SStr, StrVar, SInt, IntText, Fn, U, Unsupported, NMethod
    from vf.bdd import TRUE, FALSE
    from vf.builtin_models import SMatch
    e.distinct_keys = True
    state = {}

    def number(n):
        """(is of the form, notation is canonical, the number) for a name."""
        if n.name not in state:
            i = SInt(z3.Int('number(%s)' % n.name))
            e.b.side.append(i.z >= 0)
            m, c, q = (e.b.new_var('%s(%s)' % (x, n.name)) for x in ('suffixed', 'canonical', 'base'))
            e.fill_failures.append((e.b.NOT(e.b.AND(m, q)), 'text theory'))
            state[n.name] = (m, c, i, q)
        return state[n.name]

    def kind(t):
        p = t.parts if isinstance(t, SStr) else (t,)
        if not p or not isinstance(p[0], StrVar):
            return None
        if p[0].name != 'base':
            return ('name', p[0]) if len(p) == 1 else None
        if len(p) == 1:
            return ('base',)
        if len(p) == 3 and p[1] == '_' and isinstance(p[2], IntText) and p[2].fmt == 'd':
            return ('num', p[2].i)
        if len(p) == 2 and isinstance(p[1], str) and re.fullmatch('_(0|[1-9][0-9]*)', p[1]):
            return ('num', int(p[1][1:]))
        return None

    def equal(e, a, b):
        x, y = kind(a), kind(b)
        if x is None or y is None or (x[0] == 'name' and y[0] == 'name'):
            return None
        if y[0] == 'name':
            x, y = y, x
        if x[0] == 'name':
            m, c, i, q = number(x[1])
            if y[0] == 'base':
                return q
            return e.b.AND(m, c, e.num_cmp('>=', y[1], 0), e.num_cmp('==', i, y[1]))
        if x[0] != y[0]:
            return FALSE
        return TRUE if x[0] == 'base' else e.num_cmp('==', x[1], y[1])
    e.streq_hook = equal

    class Pattern:
        pattern = 'base_digits'

    class PatternModel:
        pytype = re.Pattern

        @staticmethod
        def getattr(e, o, name):
            return NMethod(o, name)

        @staticmethod
        def truth(e, o):
            return TRUE

        @staticmethod
        def method(e, o, name, args, kwargs):
            def one(t):
                k = kind(t)
                if name != 'fullmatch' or k is None or k[0] != 'name':
                    raise Unsupported('pattern method ' + name)
                m, c, i, q = number(k[1])
                return e.simp(e.mkU([(m, Match(i)), (e.b.NOT(m), None)]))
            return e.over(args[0], one)

    class Match:
        def __init__(self, i):
            self.i = i

    class MatchModel(PatternModel):
        pytype = re.Match

        @staticmethod
        def method(e, o, name, args, kwargs):
            if name == 'group' and args == [1]:
                return SStr([Fn('digits', o.i)])
            raise Unsupported('match method ' + name)
    e.attr_models[Pattern] = PatternModel
    e.attr_models[Match] = MatchModel

    def compiled(e, t):
        p = t.parts
        if len(p) == 2 and isinstance(p[0], Fn) and p[0].fn == 're.escape' and p[1] in ('_(\\d+)', '_([0-9]+)') and kind(p[0].arg) == ('base',):
            return Pattern()
        raise Unsupported('symbolic regular expression')
    e.regex_compile_hook = compiled

    def invariant(e, get, *seen):
        """The loop of make_unique_name_in_list has remembered the highest number, whether a
        number and the number 0 are in use, and which element has the wanted name."""
        b = e.b
        has, zero = e.truth(get('has_index')), e.truth(get('has_zero_index'))
        unpatched = get('unpatched_elem')
        def imp(x, y):
            return b.OR(b.NOT(x), y)
        g = TRUE
        for z, s in zip(xs.z, seen):
            m, c, i, q = number(e.getattr1(z, 'name').parts[0])
            g = b.AND(g, imp(b.AND(s, m), b.AND(has, e.compare(ast.LtE(), i, get('highest_index')))))
            g = b.AND(g, imp(b.AND(s, q), e.is_(unpatched, z)))
            g = b.AND(g, imp(b.AND(s, m, c, e.num_cmp('==', i, 0)), zero))
        for h, x in (unpatched.alts if isinstance(unpatched, U) else [(TRUE, unpatched)]):
            if x is not None:
                g = b.AND(g, imp(h, number(e.getattr1(x, 'name').parts[0])[3]))
                for z, s in zip(xs.z, seen):
                    if x is z:
                        g = b.AND(g, imp(h, s))
        if free:
            g = b.AND(g, b.NOT(has), e.is_(unpatched, None))
        return b.AND(g, e.compare(ast.GtE(), get('highest_index'), 0))

    import autosar.xml.element as el
    from vf.loopinv import InvList
    from vf.symgen import run_init, isolated
    from vf.values import SObj
    made = []

    def element(name):
        o = SObj(el.Unit, e.new_oid(), TRUE, '%s_%d' % (name, len(made)))
        isolated(e, lambda: run_init(e, o, [SStr([StrVar('name of %s_%d' % (name, len(made)), True)])]))
        m, c, i, q = number(e.getattr1(o, 'name').parts[0])
        if free:
            e.fill_failures.append((e.b.NOT(e.b.OR(m, q)), 'free names'))
        for p in made:      # all names in the list are distinct
            e.fill_failures.append((e.b.NOT(e.b.AND(q, p)), 'distinct names'))
        made.append(q)
        return o
    zs = [element('element'), element('element')]
    e.fill_failures.append((e.b.NOT(e.eq(e.getattr1(zs[0], 'name'), e.getattr1(zs[1], 'name'))), 'distinct names'))
    ps = [e.b.new_var('is member %d' % i) for i in (1, 2)]
    variables = dict(has_index='bool', has_zero_index='bool', highest_index='nat', unpatched_elem='member?')
    xs = InvList(zs, ps, element, {'make_unique_name_in_list': (variables, invariant)})
    e.named_inputs = {'xs': xs}


def any_list(xs, base):
    import autosar.xml.element as el
    r = el.make_unique_name_in_list(xs, base)
    for x in xs:
        check(x.name != r, 'the name is new')
    for x in xs:
        for y in xs:
            if x is not y:
                check(x.name != y.name, 'the names in the list stay distinct')


def free_name(xs, base):
    import autosar.xml.element as el
    all_free(xs, base)
    check(el.make_unique_name_in_list(xs, base) == base, 'a free name is used')


def setup_naming(e):
    from . import p19
    setup(e)
    p19.naming(e)


POOL = ['a', 'a_0', 'a_1', 'a_2', 'a_9', 'a_10', 'a_01', 'a_x', 'a_1_2', 'xa_3', 'a_1x', 'a_', 'b', 'a_0_0', 'A', 'a.']
BASES = ['a', 'a_1', 'a_0', 'b', 'a_', 'a.', 'c', 'a_10']

# method, list, class of the part
LISTS = [('append_async_server_call_result_point', 'async_server_call_result_point', 'AsynchronousServerCallResultPoint'),
         ('append_data_read_access', 'data_read_access', 'VariableAccess'),
         ('append_data_receive_point_by_argument', 'data_receive_point_by_argument', 'VariableAccess'),
         ('append_data_receive_point_by_value', 'data_receive_point_by_value', 'VariableAccess'),
         ('append_data_send_point', 'data_send_point', 'VariableAccess'),
         ('append_data_write_access', 'data_write_access', 'VariableAccess'),
         ('append_internal_triggering_point', 'internal_triggering_point', 'InternalTriggeringPoint'),
         ('append_mode_switch_point', 'mode_switch_point', 'ModeSwitchPoint'),
         ('append_parameter_access', 'parameter_access', 'ParameterAccess'),
         ('append_read_local_variable', 'read_local_variable', 'VariableAccess'),
         ('append_write_local_variable', 'write_local_variable', 'VariableAccess'),
         ('append_server_call_point', 'server_call_point', 'AsynchronousServerCallPoint'),
         ('append_server_call_point', 'server_call_point', 'SynchronousServerCallPoint'),
         ('append_wait_point', 'wait_point', 'WaitPoint')]


def arrangements(pool, n):
    """All sequences of up to n distinct names of the pool."""
    out, last = [[]], [[]]
    for _ in range(n):
        last = [x + [y] for x in last for y in pool if y not in x]
        out = out + last
    return out


def is_suffixed(new, old):
    return new == old or (new.startswith(old + '_') and new[len(old) + 1:].isdigit())


def unique_name():
    import autosar.xml.element as el
    for names in arrangements(POOL, 3):
        for base in BASES:
            xs = [el.Unit(n) for n in names]
            keep = list(xs)
            r = el.make_unique_name_in_list(xs, base)
            now = [x.name for x in xs]
            ctx = ' [%s + %s]' % (','.join(names), base)
            check(identical(xs, keep), 'the list is kept' + ctx)
            check(r not in now, 'the name is new' + ctx)
            check(len(set(now)) == len(now), 'the names in the list stay distinct' + ctx)
            check(is_suffixed(r, base), 'the name is the wanted one, or one with a number' + ctx)
            for old, new in zip(names, now):
                check(new == old or (old == base and is_suffixed(new, old)), 'other names are kept' + ctx)
            if base not in names and not any(is_suffixed(n, base) for n in names):
                check(r == base, 'a free name is used' + ctx)


def many_names():
    """Asking again and again for the same name."""
    import autosar.xml.element as el
    for base in ('a', 'x_1', 'p.q', 'a_0'):
        xs = [el.Unit(n) for n in ('a_3', 'x_1_12', 'p_q_4')]
        for i in range(25):
            xs.append(el.Unit(el.make_unique_name_in_list(xs, base)))
            check(len({x.name for x in xs}) == len(xs), 'all names are distinct')


def parts(how, field, cls):
    def spec():
        import autosar.xml.element as el
        for names in arrangements(['a', 'a_0', 'a_1', 'a_5', 'b', 'a.', 'aX'], 4):
            r = el.RunnableEntity('r')
            xs = []
            for n in names + names[:2]:
                x = getattr(el, cls)(n)
                used = [y.name for y in xs]
                getattr(r, how)(x)
                xs.append(x)
                now = [y.name for y in xs]
                ctx = ' [%s]' % ','.join(names)
                check(identical(getattr(r, field), xs), 'the part is added at the end' + ctx)
                check(x.parent is r, 'the runnable is the parent of its parts' + ctx)
                check(len(set(now)) == len(now), 'the names of the parts are distinct' + ctx)
                if n not in used:
                    check(x.name == n and now[:-1] == used, 'a free name is kept' + ctx)
                else:
                    check(is_suffixed(x.name, n), 'a used name gets a number' + ctx)
    return spec


def any_part(how, field, cls):
    """For all names."""
    def spec(x, y):
        import autosar.xml.element as el
        r = el.RunnableEntity('r')
        a, b = x.name, y.name
        getattr(r, how)(x)
        check(identical(getattr(r, field), [x]), 'the part is added')
        check(x.name == a, 'a free name is kept')
        getattr(r, how)(y)
        check(identical(getattr(r, field), [x, y]), 'the part is added at the end')
        check(x.parent is r and y.parent is r, 'the runnable is the parent of its parts')
        if a != b:
            check(x.name == a and y.name == b, 'free names are kept')
        else:
            check(y.name != x.name, 'a used name is changed')
    return spec


def any_parts(how, field, cls):
    """For all parts before."""
    def spec(xs, y):
        import autosar.xml.element as el
        r = el.RunnableEntity('r')
        getattr(r, field).extend(xs)
        a = y.name
        used = any(x.name == a for x in xs)
        getattr(r, how)(y)
        check(identical(getattr(r, field), [*xs, y]), 'the part is added at the end')
        check(y.parent is r, 'the runnable is the parent of its parts')
        if not used:
            check(y.name == a, 'a free name is kept')
        for x in xs:
            check(x.name != y.name, 'the name is new')
    return spec


def other_lists(how, field, cls):
    """Names in other lists do not matter, and other lists are not touched."""
    def spec(x):
        import autosar.xml.element as el
        for h, f, c in LISTS:
            if f != field:
                r = el.RunnableEntity('r')
                y = getattr(el, c)(x.name)
                a = x.name
                getattr(r, h)(y)
                getattr(r, how)(x)
                check(x.name == a and y.name == a, 'a free name is kept')
                check(identical(getattr(r, field), [x]) and identical(getattr(r, f), [y]), 'other lists are kept')
    return spec


def wrong_part(how, field, cls):
    def spec(x, t):
        from .api import raises
        import autosar.xml.element as el
        r = el.RunnableEntity('r')
        for y in (None, t, 1, el.Unit(t), [x]):
            check(raises(TypeError, getattr(r, how), y), 'what is no such part is rejected')
        check(len(getattr(r, field)) == 0, 'nothing is added')
    return spec


# ---------------------------------------------------------------- events
def component():
    """A component with ports and a behavior, in a document."""
    import autosar.xml.element as el
    d = el.PackageCollection(behavior_settings=el.BehaviorSettings())
    p = d.create_package('P')
    mode = el.ModeDeclarationGroup('Modes', ['Off', 'On'])
    p.append(mode)
    sr = el.SenderReceiverInterface('SR', [el.VariableDataPrototype('D'), el.VariableDataPrototype('D2')])
    p.append(sr)
    cs = el.ClientServerInterface('CS', [el.ClientServerOperation('Op'), el.ClientServerOperation('Op2')])
    p.append(cs)
    ms = el.ModeSwitchInterface('MS')
    ms.create_mode_group('mg', mode.ref())
    p.append(ms)
    c = el.ApplicationSoftwareComponentType('C')
    p.append(c)
    c.create_p_port('SrP', sr)
    c.create_r_port('SrR', sr)
    c.create_p_port('CsP', cs)
    c.create_r_port('CsR', cs)
    c.create_r_port('MsR', ms)
    c.create_p_port('MsP', ms)
    b = c.create_internal_behavior('B')
    b.create_runnable('R')
    b.create_runnable('R2')
    return c, b


def ON_EXIT():
    import autosar.xml.enumeration as ar_enum
    return ar_enum.ModeActivationKind.ON_EXIT


EVENTS = {
    'BackgroundEvent': lambda b, n: b.create_background_event('R', n),
    'DataReceiveErrorEvent': lambda b, n: b.create_data_receive_error_event('R', 'SrR/D', n),
    'DataReceivedEvent': lambda b, n: b.create_data_received_event('R', 'SrR/D', n),
    'InitEvent': lambda b, n: b.create_init_event('R', n),
    'OperationInvokedEvent': lambda b, n: b.create_operation_invoked_event('R', 'CsP/Op', n),
    'SwcModeManagerErrorEvent': lambda b, n: b.create_swc_mode_manager_error_event('R', 'MsP', n),
    'SwcModeSwitchEvent': lambda b, n: b.create_swc_mode_mode_switch_event('R', 'MsR/On', ON_EXIT(), n),
    'TimingEvent': lambda b, n: b.create_timing_event('R', 0.5, event_name=n),
}


def settings(b, prefix='X'):
    d = b.root_collection()
    for k in ('background_event_prefix', 'data_receive_error_event_prefix', 'data_receive_event_prefix', 'init_event_prefix',
              'operation_invoked_event_prefix', 'swc_mode_manager_error_event_prefix', 'swc_mode_switch_event_prefix', 'timing_event_prefix'):
        setattr(d.behavior_settings, k, prefix)


def events(kind):
    def spec():
        import autosar.xml.element as el
        for names in arrangements(['a', 'a_0', 'a_1', 'a_7', 'b'], 3):
            c, b = component()
            xs = []
            for n in names:
                x = el.InitEvent(n)
                b.append_event(x)
                xs.append(x)
            for n in names[:2] + ['a', 'a']:
                used = [y.name for y in xs]
                x = EVENTS[kind](b, n)
                xs.append(x)
                now = [y.name for y in xs]
                ctx = ' [%s + %s]' % (','.join(used), n)
                check(type(x).__name__ == kind, 'the kind of the event' + ctx)
                check(identical(b.events, xs), 'the event is added at the end' + ctx)
                check(x.parent is b, 'the behavior is the parent of its events' + ctx)
                check(len(set(now)) == len(now), 'the names of the events are distinct' + ctx)
                check(is_suffixed(x.name, n), 'the name is the wanted one, or one with a number' + ctx)
                if n not in used and not any(is_suffixed(y, n) for y in used):
                    check(x.name == n and now[:-1] == used, 'a free name is used' + ctx)
    return spec


def any_events(kind):
    """For all names and all events before."""
    def spec(xs, n):
        c, b = component()
        b.events.extend(xs)
        used = any(x.name == n or x.name.startswith(n + '_') for x in xs)
        y = EVENTS[kind](b, n)
        check(type(y).__name__ == kind, 'the kind of the event')
        check(identical(b.events, [*xs, y]), 'the event is added at the end')
        check(y.parent is b, 'the behavior is the parent of its events')
        if not used:
            check(y.name == n, 'a free name is used')
        for x in xs:
            check(x.name != y.name, 'the name is new')
    return spec


def any_default(kind):
    """For all events before: the event that is given no name."""
    def spec(xs, prefix):
        c, b = component()
        settings(b, prefix)
        b.events.extend(xs)
        y = EVENTS[kind](b, None)
        check(identical(b.events, [*xs, y]), 'the event is added at the end')
        for x in xs:
            check(x.name != y.name, 'the name is new')
    return spec


def default_events(kind):
    def spec():
        c, b = component()
        settings(b)
        xs = []
        for i in range(12):
            xs.append(EVENTS[kind](b, None))
            check(len({x.name for x in xs}) == len(xs), 'the names of the events are distinct')
            check(identical(b.events, xs), 'the event is added at the end')
    return spec


def specs():
    import autosar.xml.element as el
    out = [Spec('make_unique_name_in_list', unique_name, [], concrete=True, bounded='lists of up to 3 names out of %d' % len(POOL)),
           Spec('any list', any_list, [('xs', ('given', ('list', ('named', 'Unit')))), ('base', ('given-name', 'base'))], engine=setup_names, hint=True),
           Spec('free name', free_name, [('xs', ('given', ('list', ('named', 'Unit')))), ('base', ('given-name', 'base'))], engine=setup_free, hint=True),
           Spec('many names', many_names, [], concrete=True, bounded='25 names')]
    k = dict(engine=setup, samples=40)
    for how, field, cls in LISTS:
        n = '%s(%s)' % (how, cls)
        if hasattr(el, cls) and hasattr(el.RunnableEntity, how):
            out.append(Spec('names: ' + n, parts(how, field, cls), [], concrete=True, bounded='up to 4 parts'))
            out.append(Spec('append: ' + n, any_part(how, field, cls), [('x', ('obj', cls)), ('y', ('obj', cls))], **k))
            out.append(Spec('append to any: ' + n, any_parts(how, field, cls), [('xs', ('found', ('named', cls), 2)), ('y', ('named', cls))], engine=setup_naming))
            out.append(Spec('other lists: ' + n, other_lists(how, field, cls), [('x', ('obj', cls))], **k))
            out.append(Spec('wrong part: ' + n, wrong_part(how, field, cls), [('x', ('obj', cls)), ('t', 'name')], **k))
    for kind in EVENTS:
        out.append(Spec('events: ' + kind, events(kind), [], concrete=True, bounded='up to 3 events before'))
        k = dict(engine=setup_naming, samples=40)
        out.append(Spec('any events: ' + kind, any_events(kind), [('xs', ('found', ('named', 'InitEvent'), 2)), ('n', 'ident')], **k))
        out.append(Spec('any default: ' + kind, any_default(kind), [('xs', ('found', ('named', 'InitEvent'), 2)), ('prefix', 'ident')], **k))
        out.append(Spec('default names: ' + kind, default_events(kind), [], concrete=True, bounded='12 events'))
    return out
