"""P11: an element has the values its constructor was given, in every documented form."""
import inspect

from . import Spec
from .api import check, equal, identical, raises, same
from .constraints import CONSTRAINTS
from .domains import TABLE, APPEND
from .roundtrip import setup

# parameters whose value is found under another name
ATTR = {'scale_constr': 'scale_constrs', ('MultilanguageLongName', 'long_name'): 'elements', ('MultiLanguageOverviewParagraph', 'paragraph'): 'elements',
        ('MultiLanguageParagraph', 'paragraph'): 'elements', ('MultiLanguageVerbatim', 'element'): 'elements',
        ('DocumentationBlock', 'element'): 'elements'}
# ... or as a list of one
LISTED = [('EmphasisText', 'elements'), ('MultilanguageLongName', 'long_name'), ('MultiLanguageOverviewParagraph', 'paragraph'),
          ('MultiLanguageParagraph', 'paragraph'), ('MultiLanguageVerbatim', 'element')]
DOMAIN = {('PositiveIntegerValue', 'value'): 'nat',
         
          ('SwDataDefPropsConditional', 'display_format'): None, ('NotAvailableValueSpecification', 'default_pattern'): ('opt', 'nat')}
# a list parameter that also takes a single element
SINGLE = '''
    Identifiable.annotations CollectableElement.annotations ARElement.annotations Code.artifact_descriptors
    Implementation.code_descriptors DocumentationBlock.element
    SwDataDefPropsConditional.annotations SwDataDefProps.variants ApplicationRecordDataType.elements
    DataTypeMappingSet.data_type_maps ApplicationValueSpecification.sw_axis_conts ModeDeclarationGroup.mode_declarations
    ModeDeclarationGroup.mode_transitions SenderReceiverInterface.data_elements SenderReceiverInterface.invalidation_policies
    NvDataInterface.data_elements ParameterInterface.parameters ClientServerOperation.arguments
    ClientServerOperation.possible_error_refs ClientServerInterface.operations ClientServerInterface.possible_errors
    ServerComSpec.transformation_com_spec_props ReceiverComSpec.transformation_com_spec_props
    ClientComSpec.transformation_com_spec_props PortPrototype.annotations ProvidePortPrototype.com_spec
    RequirePortPrototype.com_spec PRPortPrototype.provided_com_spec PRPortPrototype.required_com_spec SwComponentType.ports
    CompositionSwComponentType.components CompositionSwComponentType.connectors
    ArVariableInImplementationDataInstanceRef.context_data_prototype_refs
    VariableInAtomicSWCTypeInstanceRef.context_data_prototype_refs SwcImplementation.code_descriptors
    ExecutableEntity.activation_reasons ExecutableEntity.can_enter_leave ExecutableEntity.exclusive_area_nesting_order
    ExecutableEntity.runs_insides RunnableEntity.argument RunnableEntity.async_server_call_result_point
    RunnableEntity.data_read_access RunnableEntity.data_receive_point_by_argument RunnableEntity.data_receive_point_by_value
    RunnableEntity.data_send_point RunnableEntity.data_write_access RunnableEntity.external_triggering_point
    RunnableEntity.internal_triggering_point RunnableEntity.mode_access_point RunnableEntity.mode_switch_point
    RunnableEntity.parameter_access RunnableEntity.read_local_variable RunnableEntity.write_local_variable
    RunnableEntity.server_call_point RunnableEntity.wait_point RteEvent.disabled_modes BackgroundEvent.disabled_modes
    InitEvent.disabled_modes PortApiOption.port_arg_values PortApiOption.supported_features ExclusiveArea.annotations
    ArrayValueSpecification.elements RecordValueSpecification.fields
    InternalBehavior.data_type_mappings InternalBehavior.exclusive_areas SwcInternalBehavior.events SwcInternalBehavior.runnables
    '''.split()
# parameters that take one variant of data properties in place of a set
VARIANT = '''
    SwPointerTargetProps.sw_data_def_props AutosarDataType.sw_data_def_props ImplementationDataTypeElement.sw_data_def_props
    DataPrototype.sw_data_def_props ApplicationDataType.sw_data_def_props ApplicationCompositeDataType.sw_data_def_props
    ApplicationPrimitiveDataType.sw_data_def_props ParameterAccess.sw_data_def_props'''.split()


def element_class(name):
    import autosar.xml.element as ar_element
    return getattr(ar_element, name)


def kept(got, want):
    """The value is there; nothing given may be kept as None, an empty list or an empty mapping."""
    if want is None:
        return got is None or (isinstance(got, (list, dict)) and len(got) == 0)
    if isinstance(got, tuple) and isinstance(want, list):
        got = list(got)
    if got is None:
        return isinstance(want, list) and len(want) == 0
    return same(got, want)


def attr_of(cname, p):
    return ATTR.get((cname, p)) or ATTR.get(p, p)


def fidelity(cname, names, items):
    def spec(*args):
        cls = element_class(cname)
        kw = dict(zip(names, args))
        o = cls(**kw)
        if cname in CONSTRAINTS and not CONSTRAINTS[cname](o):
            return
        for p in names:
            want = kw[p]
            if (cname, p) in LISTED and want is not None:
                want = [want]
            check(kept(getattr(o, attr_of(cname, p)), want), 'the element has the %s given' % p)
    return spec


def one_value(cname, names, req, param):
    def spec(x, *args):
        kw = dict(zip(req, args))
        kw[param] = x
        o = element_class(cname)(**kw)
        for p in names:
            check(kept(getattr(o, attr_of(cname, p)), kw.get(p)), 'the element has the %s given' % p)
    return spec


def own_list(cname, param, req):
    def spec(xs, *args):
        cls = element_class(cname)
        kw = dict(zip(req, args))
        kw[param] = xs
        given = [*xs]
        a = cls(**kw)
        b = cls(**kw)
        check(identical(xs, given), 'the list that was given is left alone')
        x, y = getattr(a, attr_of(cname, param)), getattr(b, attr_of(cname, param))
        if isinstance(x, tuple):
            return
        x.append(None)
        check(len(x) == len(given) + 1 and len(y) == len(given) and len(xs) == len(given), 'each element has a list of its own')
    return spec


def left_out(cname, names, req):
    def spec(*args):
        cls = element_class(cname)
        a = cls(**dict(zip(req, args)))
        b = cls(**{p: (args[req.index(p)] if p in req else None) for p in names})
        check(same(a, b), 'what is left out is the same as None')
    return spec


def single(cname, param, req):
    def spec(x, *args):
        cls = element_class(cname)
        kw = dict(zip(req, args))
        kw[param] = x
        got = getattr(cls(**kw), attr_of(cname, param))
        check(len(got) == 1 and same(got[0], x), 'a single value is a list of one')
        kw[param] = [x]
        check(same(getattr(cls(**kw), attr_of(cname, param)), got), 'as if given as a list')
    return spec


def variant(cname, param, req):
    def spec(x, *args):
        import autosar.xml.element as ar_element
        kw = dict(zip(req, args))
        kw[param] = x
        got = getattr(element_class(cname)(**kw), param)
        check(type(got) is ar_element.SwDataDefProps, 'one variant becomes a set')
        check(len(got.variants) == 1 and got.variants[0] is x, 'of this variant')
    return spec


def desc_text(cname, req):
    def spec(text, language, *args):
        import autosar.xml.element as ar_element
        import autosar.xml.enumeration as ar_enum
        cls = element_class(cname)
        kw = dict(zip(req, args))
        for d, lang in ((text, ar_enum.Language.FOR_ALL), ((language, text), language)):
            got = cls(desc=d, **kw).desc
            check(type(got) is ar_element.MultiLanguageOverviewParagraph and len(got.elements) == 1, 'a text is a description in one language')
            check(got.elements[0].language is lang and same(got.elements[0].parts, [text]), 'the language and text given')
        check(raises(TypeError, cls, desc=5, **kw), 'a number is no description')
    return spec


def language_text(cname, pname, inner):
    def spec(language, text):
        cls = element_class(cname)
        got = cls(**{pname: (language, text)})
        check(len(got.elements) == 1 and type(got.elements[0]) is element_class(inner), 'a language and text become an element')
        check(got.elements[0].language is language and same(got.elements[0].parts, [text]), 'of this language with this text')
        x = element_class(inner)(language, text)
        got.append(x)
        check(len(got.elements) == 2 and got.elements[1] is x, 'more are added at the end')
        check(raises((TypeError, AssertionError), got.append, text), 'a text is no element')
    return spec


def text_parts(cname):
    def spec(language, text):
        o = element_class(cname)(language, text)
        check(same(o.parts, [text]), 'a text becomes the only part')
        check(o.language is language, 'the language is kept')
    return spec


def timeout(cname, pname, inner):
    def spec(x):
        got = getattr(element_class(cname)(**{pname: x}), pname)
        check(type(got) is element_class(inner) and same(got.timeout, x), 'a number is a timeout')
    return spec


def const(cname, pname):
    def spec(x):
        import autosar.xml.element as ar_element
        got = getattr(element_class(cname)(**{pname: x}), pname)
        check(type(got) is ar_element.CompuConst and same(got.value, x), 'a value becomes a constant')
    return spec


def mode_names(a, b, v, w):
    import autosar.xml.element as ar_element
    g = ar_element.ModeDeclarationGroup('G', [a, b])
    check([m.name for m in g.mode_declarations] == [a, b], 'a mode for each name')
    check([m.value for m in g.mode_declarations] == [None, None], 'without value')
    g = ar_element.ModeDeclarationGroup('G', [(a, v), (b, w)])
    check([m.name for m in g.mode_declarations] == [a, b] and [m.value for m in g.mode_declarations] == [v, w], 'a mode for each name and value')
    check([type(m) for m in g.mode_declarations] == [ar_element.ModeDeclaration] * 2, 'modes are mode declarations')
    check([m.parent for m in g.mode_declarations] == [g, g], 'the group is their parent')


def operation_errors(a, b):
    import autosar.xml.element as ar_element
    for given, want in ((a, [a]), ([a, b], [a, b]), (ar_element.ApplicationErrorRef(a), [a]), ([ar_element.ApplicationErrorRef(a), b], [a, b]), ([], [])):
        o = ar_element.ClientServerOperation('Op', possible_error_refs=given)
        check([r.value for r in o.possible_error_refs] == want, 'the errors given')
        check([type(r) for r in o.possible_error_refs] == [ar_element.ApplicationErrorRef] * len(want), 'are references to errors')


def areas(pname):
    def spec(a, b):
        import autosar.xml.element as ar_element
        ref, cond = ar_element.ExclusiveAreaRef, ar_element.ExclusiveAreaRefConditional
        for given, want in ((a, [a]), (ref(a), [a]), (cond(ref(a)), [a]), ([a, b], [a, b]), ([ref(a), ref(b)], [a, b]), ([cond(ref(a)), b], [a, b])):
            o = ar_element.RunnableEntity('R', **{pname: given})
            got = getattr(o, pname)
            check([type(x) for x in got] == [cond] * len(want), 'exclusive areas as conditional references')
            check([str(x.exclusive_area) for x in got] == want, 'to the areas given')
        check(raises(TypeError, ar_element.RunnableEntity, 'R', **{pname: 5}), 'a number is no exclusive area')
    return spec


def mapping_path(a):
    import autosar.xml.element as ar_element
    for given in (a, ar_element.DataTypeMappingSetRef(a), [ar_element.DataTypeMappingSetRef(a)]):
        b = ar_element.SwcInternalBehavior('B', data_type_mappings=given)
        check(len(b.data_type_mappings) == 1 and b.data_type_mappings[0].value == a, 'the mapping set given')
        check(type(b.data_type_mappings[0]) is ar_element.DataTypeMappingSetRef, 'as a reference')


def unit_name(a, b):
    import autosar.xml.element as ar_element
    u = ar_element.Unit(a, display_name=b)
    check(type(u.display_name) is ar_element.SingleLanguageUnitNames and same(u.display_name.parts, [b]), 'a text is a display name')


def data_element(cname):
    def spec(a):
        import autosar.xml.element as ar_element
        import autosar.xml.enumeration as ar_enum
        o = element_class(cname)(data_element_ref=ar_element.VariableDataPrototypeRef(a))
        check(type(o.data_element_ref) is ar_element.AutosarDataPrototypeRef, 'a reference to a variable is one to a data prototype')
        check(o.data_element_ref.value == a and o.data_element_ref.dest is ar_enum.IdentifiableSubTypes.VARIABLE_DATA_PROTOTYPE, 'to the same variable')
        check(raises(TypeError, element_class(cname), data_element_ref=a), 'a path alone is ambiguous')
    return spec


def group_label(lang, text, n):
    import autosar.xml.element as ar_element
    import autosar.xml.enumeration as ar_enum
    name = ar_element.LanguageLongName(lang, text)
    for label, language in ((text, ar_enum.Language.FOR_ALL), ((lang, text), lang), (name, lang), (ar_element.MultilanguageLongName(name), lang)):
        g = ar_element.ValueGroup(label, [n])
        check(type(g.label) is ar_element.MultilanguageLongName and len(g.label.elements) == 1, 'a label is a long name')
        check(g.label.elements[0].language is language and same(g.label.elements[0].parts, [text]), 'of the language and text given')
        check(same(g.values, [n]), 'the values are kept')
    check(raises(TypeError, ar_element.ValueGroup, n), 'a number is no label')


def group_values(n, m, s):
    import autosar.xml.element as ar_element
    inner = ar_element.ValueGroup(None, [m])
    want = [n, s, inner]
    for given in (want, ar_element.SwValues(want)):
        check(same(ar_element.ValueGroup(None, given).values, want), 'the values are kept in order')
    check(same(ar_element.SwValues(n).values, [n]) and same(ar_element.SwValues(s).values, [s]), 'a single value is a list of one')
    check(same(ar_element.SwValues(inner).values, [inner]), 'so is a single group')


def event_mode(cname, pname):
    def spec(a, b):
        import autosar.xml.element as ar_element
        got = getattr(element_class(cname)('E', **{pname: (a, b)}), pname)
        check(isinstance(got, (tuple, list)) and len(got) == 2 and got[0] is a and got[1] is b, 'two modes of a transition')
    return spec


def port_options(a, b, f, g):
    """The options are kept by the name of their port."""
    import autosar.xml.element as ar_element
    if a != b:
        kind = ar_element.ar_enum.IdentifiableSubTypes.P_PORT_PROTOTYPE
        x = ar_element.PortApiOption(port=ar_element.PortPrototypeRef('/C/' + a, kind), enable_take_address=f)
        y = ar_element.PortApiOption(port=ar_element.PortPrototypeRef('/C/' + b, kind), enable_take_address=g)
        o = ar_element.SwcInternalBehavior('B', port_api_options=[x, y])
        check(identical(list(o.port_api_options.values()), [x, y]), 'an option for each port')
        check(o.port_api_options[a] is x and o.port_api_options[b] is y, 'the options given')
        o = ar_element.SwcInternalBehavior('B', port_api_options=x)
        check(identical(list(o.port_api_options.values()), [x]) and o.port_api_options[a] is x, 'a single option')


# class of the event: attribute of the instance reference, its class, the attributes of that in the order of the arguments of make
MAKE = {
    'DataReceiveErrorEvent': ('data', 'RVariableInAtomicSwcInstanceRef', ['context_port', 'target_data_element']),
    'DataReceivedEvent': ('data', 'RVariableInAtomicSwcInstanceRef', ['context_port', 'target_data_element']),
    'ExternalTriggerOccurredEvent': ('trigger', 'RTriggerInAtomicSwcInstanceRef', ['context_port', 'target_trigger']),
    'OperationInvokedEvent': ('operation', 'POperationInAtomicSwcInstanceRef', ['context_port', 'target_provided_operation']),
    'SwcModeManagerErrorEvent': ('mode_group', 'PModeGroupInAtomicSwcInstanceRef', ['context_port', 'target_mode_group']),
    'SwcModeSwitchEvent': ('mode', 'RModeInAtomicSwcInstanceRef', ['context_port', 'context_mode_declaration_group_prototype', 'target_mode_declaration']),
}


def made_event(cname):
    attr, iname, parts = MAKE[cname]

    def spec(name, start, refs, activation, category, modes):
        import autosar.xml.element as ar_element
        switch = [activation] if cname == 'SwcModeSwitchEvent' else []
        x = getattr(ar_element, cname).make(name, start, *switch, *refs, category=category, disabled_modes=modes)
        check(type(x) is getattr(ar_element, cname) and x.name == name and equal(x.start_on_event, start) and x.category == category, 'the event')
        check(identical(x.disabled_modes, modes), 'its other arguments')
        if switch:
            check(x.activation is activation, 'when it is raised')
        i = getattr(x, attr)
        check(type(i) is getattr(ar_element, iname), 'an instance reference of its own')
        for p, r in zip(parts, refs):
            check(equal(getattr(i, p), r), 'its ' + p)
    return spec


SKIP = [('SwcInternalBehavior', 'port_api_options'), ('PackageCollection', 'packages')]


def required(ps):
    return [(n, d) for n, d in ps if not (isinstance(d, tuple) and d[0] in ('opt', 'list', 'mixed'))]


def specs():
    out = []
    for cname in TABLE:
        try:
            cls = element_class(cname)
        except AttributeError:
            continue
        if inspect.isabstract(cls):
            continue
        ps = []
        for p, d in TABLE[cname]:
            d = DOMAIN.get((cname, p), d)
            if d is not None and (cname, p) not in SKIP:
                ps.append((p, d))
        names = [p for p, _ in ps]
        rq = [(p, d) for p, d in required(ps)]
        if cname == 'RunnableEntity':
            rn = [p for p, _ in rq]
            for p, d in ps:
                if p not in rn:
                    out.append(Spec('value: %s.%s' % (cname, p), one_value(cname, names, rn, p), [('x', d)] + rq, samples=10, engine=setup))
        elif names:
            out.append(Spec('values: ' + cname, fidelity(cname, names, None), ps, samples=60, seconds=60, engine=setup))
        sig = inspect.signature(cls.__init__).parameters
        for p, d in ps:
            d = d[1] if isinstance(d, tuple) and d[0] == 'opt' else d
            if isinstance(d, tuple) and d[0] in ('list', 'list1') and (cname, p) not in LISTED:
                rq2 = [(n, y) for n, y in rq if n != p]
                out.append(Spec('own list: %s.%s' % (cname, p), own_list(cname, p, [n for n, _ in rq2]), [('xs', ('list1', d[1]))] + rq2, samples=5, engine=setup))
        none_ok = [p for p, d in ps if isinstance(d, tuple) and d[0] == 'opt' and (p not in sig or sig[p].default is None)]
        if none_ok:
            out.append(Spec('none: ' + cname, left_out(cname, [p for p, _ in rq] + none_ok, [p for p, _ in rq]), rq, samples=3))
        if 'desc' in names and cname not in ('CompuScale', 'ScaleConstraint'):
            rn = [p for p, _ in rq]
            out.append(Spec('desc: ' + cname, desc_text(cname, rn), [('text', 'str'), ('language', ('enum', 'Language'))] + rq, samples=5))
    for what, make in ((SINGLE, single), (VARIANT, variant)):
        for x in what:
            cname, p = x.split('.')
            try:
                if inspect.isabstract(element_class(cname)):
                    continue
            except AttributeError:
                continue
            d = dict(TABLE[cname])[p]
            d = d[1] if d[0] == 'opt' else d
            d = ('obj', 'SwDataDefPropsConditional') if make is variant else d[1]
            rq = [(n, y) for n, y in required(TABLE[cname]) if n != p]
            out.append(Spec('%s: %s' % (make.__name__, x), make(cname, p, [n for n, _ in rq]), [('x', d)] + rq, samples=10))
    lang = ('enum', 'Language')
    for c, p, i in (('MultilanguageLongName', 'long_name', 'LanguageLongName'), ('MultiLanguageOverviewParagraph', 'paragraph', 'LanguageOverviewParagraph'),
                    ('MultiLanguageParagraph', 'paragraph', 'LanguageParagraph'), ('MultiLanguageVerbatim', 'element', 'LanguageVerbatim')):
        out.append(Spec('language: ' + c, language_text(c, p, i), [('language', lang), ('text', 'str')], samples=20))
        out.append(Spec('text: ' + i, text_parts(i), [('language', lang), ('text', 'str')], samples=20))
    num = ('or', 'int', 'float')
    for c, p, i in (('SenderComSpec', 'transmission_acknowledge', 'TransmissionAcknowledgementRequest'),
                    ('QueuedSenderComSpec', 'transmission_acknowledge', 'TransmissionAcknowledgementRequest'),
                    ('NonqueuedSenderComSpec', 'transmission_acknowledge', 'TransmissionAcknowledgementRequest'),
                    ('ModeSwitchSenderComSpec', 'mode_switched_ack', 'ModeSwitchedAckRequest')):
        if not inspect.isabstract(element_class(c)):
            out.append(Spec('timeout: ' + c, timeout(c, p, i), [('x', num)], samples=20))
    for c, p in (('Computation', 'default_value'), ('CompuScale', 'inverse_value')):
        out.append(Spec('constant: ' + c, const(c, p), [('x', ('or', 'int', 'float', 'str'))], samples=20))
    for c in ('SenderComSpec', 'QueuedSenderComSpec', 'NonqueuedSenderComSpec', 'ReceiverComSpec', 'QueuedReceiverComSpec', 'NonqueuedReceiverComSpec'):
        if not inspect.isabstract(element_class(c)):
            out.append(Spec('data element: ' + c, data_element(c), [('a', 'str')], samples=10))
    out.append(Spec('names of modes', mode_names, [('a', 'str'), ('b', 'str'), ('v', 'nat'), ('w', 'nat')], samples=10))
    out.append(Spec('errors of an operation', operation_errors, [('a', 'str'), ('b', 'str')], samples=10))
    out.append(Spec('can_enter_leave', areas('can_enter_leave'), [('a', 'str'), ('b', 'str')], samples=10))
    out.append(Spec('runs_insides', areas('runs_insides'), [('a', 'str'), ('b', 'str')], samples=10))
    out.append(Spec('mapping set', mapping_path, [('a', 'str')], samples=10))
    out.append(Spec('unit name', unit_name, [('a', 'str'), ('b', 'str')], samples=10))
    out.append(Spec('label of a value group', group_label, [('lang', lang), ('text', 'str'), ('n', 'int')], samples=10))
    out.append(Spec('values of a value group', group_values, [('n', 'int'), ('m', 'int'), ('s', 'word')], samples=10))
    out.append(Spec('mode transition', event_mode('SwcModeSwitchEvent', 'mode'), [(x, ('obj', 'RModeInAtomicSwcInstanceRef')) for x in 'ab'], samples=10))
    for c, (_, i, parts) in MAKE.items():
        d = dict(TABLE[i])
        out.append(Spec('make: ' + c, made_event(c), [('name', 'str'), ('start', ('ref', 'RunnableEntityRef')), ('refs', ('tuple',) + tuple(d[p] for p in parts)),
                                                      ('activation', ('opt', ('enum', 'ModeActivationKind'))), ('category', ('opt', 'str')),
                                                      ('modes', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))], samples=20, engine=setup))
    out.append(Spec('port options', port_options, [('a', 'name'), ('b', 'name'), ('f', 'bool'), ('g', 'bool')], samples=10))
    return out
