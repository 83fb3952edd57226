"""P22: what is appended to an element is its last part; what does not belong there is rejected and changes nothing."""
from . import Spec
from .api import assume, check, identical, raises
from .domains import TABLE
from .p15 import setup_naming
from .strict import NATURAL, TAKES

NUMBER = ('int', 'float')
TEXT = ('str',)
VALUES = '''TextValueSpecification NumericalValueSpecification NotAvailableValueSpecification ArrayValueSpecification
    RecordValueSpecification ApplicationValueSpecification ConstantReference'''.split()
PROVIDED = 'ModeSwitchSenderComSpec QueuedSenderComSpec NonqueuedSenderComSpec NvProvideComSpec ParameterProvideComSpec ServerComSpec'.split()
REQUIRED = 'QueuedReceiverComSpec NonqueuedReceiverComSpec NvRequireComSpec ParameterRequireComSpec ModeSwitchReceiverComSpec ClientComSpec'.split()
EVENTS = '''AsynchronousServerCallReturnsEvent BackgroundEvent DataReceiveErrorEvent DataReceivedEvent DataSendCompletedEvent
    DataWriteCompletedEvent ExternalTriggerOccurredEvent InitEvent InternalTriggerOccurredEvent ModeSwitchedAckEvent
    OperationInvokedEvent SwcModeManagerErrorEvent SwcModeSwitchEvent TimingEvent TransformerHardErrorEvent'''.split()
P, R = True, False      # whether the parts have the element as their parent

# class, method, list, kinds of parts, whether they have a parent, whether other kinds raise TypeError
ROWS = [
    ('Code', 'append_artifact_descriptor', 'artifact_descriptors', ['AutosarEngineeringObject'], R, True),
    ('SwcImplementation', 'append_code_descriptor', 'code_descriptors', ['Code'], R, True),
    ('LanguageLongName', 'append', 'parts', ['str', 'EmphasisText', 'Subscript', 'Superscript', 'TechnicalTerm', 'IndexEntry'], R, True),
    ('LanguageOverviewParagraph', 'append', 'parts', ['str', 'Break', 'EmphasisText', 'Subscript', 'Superscript', 'TechnicalTerm', 'IndexEntry'], R, True),
    ('LanguageParagraph', 'append', 'parts', ['str', 'Break', 'EmphasisText', 'Subscript', 'Superscript', 'TechnicalTerm', 'IndexEntry'], R, True),
    ('LanguageVerbatim', 'append', 'parts', ['str', 'Break', 'EmphasisText', 'TechnicalTerm'], R, True),
    ('SingleLanguageUnitNames', 'append', 'parts', ['str', 'Subscript', 'Superscript'], R, True),
    ('MultilanguageLongName', 'append', 'elements', ['LanguageLongName'], R, False),
    ('MultiLanguageOverviewParagraph', 'append', 'elements', ['LanguageOverviewParagraph'], R, False),
    ('MultiLanguageParagraph', 'append', 'elements', ['LanguageParagraph'], R, False),
    ('MultiLanguageVerbatim', 'append', 'elements', ['LanguageVerbatim'], R, False),
    ('DocumentationBlock', 'append', 'elements', ['MultiLanguageParagraph', 'MultiLanguageVerbatim'], R, False),
    ('SwDataDefProps', 'append', 'variants', ['SwDataDefPropsConditional'], R, True),
    ('ImplementationDataTypeElement', 'append', 'sub_elements', ['ImplementationDataTypeElement'], P, True),
    ('ImplementationDataType', 'append', 'sub_elements', ['ImplementationDataTypeElement'], P, True),
    ('ApplicationRecordDataType', 'append', 'elements', ['ApplicationRecordElement'], P, True),
    ('DataTypeMappingSet', 'append', 'data_type_maps', ['DataTypeMap'], R, True),
    ('ValueList', 'append', 'values', ['int', 'float', 'NumericalValue'], R, True),
    ('SwValues', 'append', 'values', ['int', 'float', 'str', 'NumericalValue', 'ValueGroup'], R, True),
    ('ArrayValueSpecification', 'append', 'elements', VALUES, R, True),
    ('RecordValueSpecification', 'append', 'fields', VALUES, R, True),
    ('ModeDeclarationGroup', 'append_mode_declaratation', 'mode_declarations', ['ModeDeclaration'], P, True),
    ('ModeDeclarationGroup', 'append_mode_transition', 'mode_transitions', ['ModeTransition'], P, True),
    ('SenderReceiverInterface', 'append_data_element', 'data_elements', ['VariableDataPrototype'], P, True),
    ('SenderReceiverInterface', 'append_invalidation_policy', 'invalidation_policies', ['InvalidationPolicy'], R, True),
    ('NvDataInterface', 'append_data_element', 'data_elements', ['VariableDataPrototype'], P, True),
    ('ParameterInterface', 'append_parameter', 'parameters', ['ParameterDataPrototype'], P, True),
    ('ClientServerOperation', 'append_argument', 'arguments', ['ArgumentDataPrototype'], P, True),
    ('ClientServerOperation', 'append_possible_error_ref', 'possible_error_refs', ['ApplicationErrorRef'], R, True),
    ('ClientServerInterface', 'append_operation', 'operations', ['ClientServerOperation'], P, True),
    ('ClientServerInterface', 'append_possible_errors', 'possible_errors', ['ApplicationError'], P, True),
    ('ServerComSpec', 'append_transformation_com_spec_props', 'transformation_com_spec_props', ['EndToEndTransformationComSpecProps'], R, True),
    ('NonqueuedReceiverComSpec', 'append_transformation_com_spec_props', 'transformation_com_spec_props', ['EndToEndTransformationComSpecProps'], R, True),
    ('ClientComSpec', 'append_transformation_com_spec_props', 'transformation_com_spec_props', ['EndToEndTransformationComSpecProps'], R, True),
    ('ProvidePortPrototype', 'append_com_spec', 'com_spec', PROVIDED, R, True),
    ('RequirePortPrototype', 'append_com_spec', 'com_spec', REQUIRED, R, True),
    ('PRPortPrototype', 'append_com_spec', 'provided_com_spec', PROVIDED, R, False),
    ('PRPortPrototype', 'append_com_spec', 'required_com_spec', REQUIRED, R, False),
    ('PRPortPrototype', 'append_com_spec', None, PROVIDED + REQUIRED, R, True),
    ('ApplicationSoftwareComponentType', 'append_port', 'ports', ['ProvidePortPrototype', 'RequirePortPrototype', 'PRPortPrototype'], P, True),
    ('CompositionSwComponentType', 'append_component', 'components', ['SwComponentPrototype'], P, True),
    ('CompositionSwComponentType', 'append_connector', 'connectors', ['AssemblySwConnector', 'DelegationSwConnector', 'PassThroughSwConnector'], P, True),
    ('ArVariableInImplementationDataInstanceRef', 'append_context_data_protype_ref', 'context_data_prototype_refs', ['AbstractImplementationDataTypeElementRef'], R, True),
    ('VariableInAtomicSWCTypeInstanceRef', 'append_context_data_protype_ref', 'context_data_prototype_refs', ['ApplicationCompositeElementDataPrototypeRef'], R, True),
    ('RunnableEntity', 'append_activation_reason', 'activation_reasons', ['ExecutableEntityActivationReason'], R, True),
    ('RunnableEntity', 'append_can_enter_leave', 'can_enter_leave', ['ExclusiveAreaRefConditional'], R, True),
    ('RunnableEntity', 'append_exclusive_area_nesting_order', 'exclusive_area_nesting_order', ['ExclusiveAreaNestingOrderRef'], R, True),
    ('RunnableEntity', 'append_runs_insides', 'runs_insides', ['ExclusiveAreaRefConditional'], R, True),
    ('RunnableEntity', 'append_argument', 'argument', ['RunnableEntityArgument'], R, True),
    ('RunnableEntity', 'append_async_server_call_result_point', 'async_server_call_result_point', ['AsynchronousServerCallResultPoint'], P, True),
    ('RunnableEntity', 'append_data_read_access', 'data_read_access', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_data_receive_point_by_argument', 'data_receive_point_by_argument', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_data_receive_point_by_value', 'data_receive_point_by_value', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_data_send_point', 'data_send_point', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_data_write_access', 'data_write_access', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_external_triggering_point', 'external_triggering_point', ['ExternalTriggeringPoint'], R, True),
    ('RunnableEntity', 'append_internal_triggering_point', 'internal_triggering_point', ['InternalTriggeringPoint'], P, True),
    ('RunnableEntity', 'append_mode_access_point', 'mode_access_point', ['ModeAccessPoint'], R, True),
    ('RunnableEntity', 'append_mode_switch_point', 'mode_switch_point', ['ModeSwitchPoint'], P, True),
    ('RunnableEntity', 'append_parameter_access', 'parameter_access', ['ParameterAccess'], P, True),
    ('RunnableEntity', 'append_read_local_variable', 'read_local_variable', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_write_local_variable', 'write_local_variable', ['VariableAccess'], P, True),
    ('RunnableEntity', 'append_server_call_point', 'server_call_point', ['AsynchronousServerCallPoint', 'SynchronousServerCallPoint'], P, True),
    ('RunnableEntity', 'append_wait_point', 'wait_point', ['WaitPoint'], P, True),
    ('TimingEvent', 'append_disabled_mode', 'disabled_modes', ['RModeInAtomicSwcInstanceRef'], R, True),
    ('PortApiOption', 'append_port_arg_value', 'port_arg_values', ['PortDefinedArgumentValue'], R, True),
    ('PortApiOption', 'append_supported_feature', 'supported_features', ['CommunicationBufferLocking'], R, True),
    ('SwcInternalBehavior', 'append_data_type_mapping', 'data_type_mappings', ['DataTypeMappingSetRef'], R, True),
    ('SwcInternalBehavior', 'append_exclusive_area', 'exclusive_areas', ['ExclusiveArea'], P, True),
    ('SwcInternalBehavior', 'append_runnable', 'runnables', ['RunnableEntity'], P, True),
    ('SwcInternalBehavior', 'append_event', 'events', EVENTS, P, True),
]
# kinds that are converted to a part
ALSO = {('ClientServerOperation', 'append_possible_error_ref'): ['str'], ('RunnableEntity', 'append_can_enter_leave'): ['str', 'ExclusiveAreaRef'],
        ('RunnableEntity', 'append_runs_insides'): ['str', 'ExclusiveAreaRef']}
PLAIN = ['int', 'float', 'str', 'bool']


def domain(kind):
    if kind in PLAIN:
        return kind
    return ('ref' if kind.endswith('Ref') and kind not in INSTANCES else 'obj', kind)


INSTANCES = ('RModeInAtomicSwcInstanceRef',)


def some(kinds):
    ds = [domain(x) for x in kinds]
    return ds[0] if len(ds) == 1 else ('or', *ds)


def listed(v):
    return [] if v is None else [*v]


def appended(how, field, lists, owned):
    def spec(x, part, *was):
        for y in was:       # the part may have belonged to another element
            getattr(y, how)(part)
        before = [(n, listed(getattr(x, n))) for n in lists]
        getattr(x, how)(part)
        for n, old in before:
            if n == field:
                check(identical(getattr(x, n), [*old, part]), 'the part is the last one')
            else:
                check(identical(listed(getattr(x, n)), old), 'other lists are left alone')
        if owned:
            check(part.parent is x, 'the element is the parent of its part')
    return spec


def to_runnable(how, field, lists):
    def spec(xs, part):
        import autosar.xml.element as el
        x = el.RunnableEntity('r')
        getattr(x, field).extend(xs)
        getattr(x, how)(part)
        for n in lists:
            check(identical(listed(getattr(x, n)), [*xs, part] if n == field else []), 'the part is the last one, and other lists are left alone')
    return spec


def between_runnables(how, field, lists):
    def spec(part):
        import autosar.xml.element as el
        x, y = el.RunnableEntity('r'), el.RunnableEntity('s')
        getattr(y, how)(part)
        getattr(x, how)(part)
        for n in lists:
            check(identical(listed(getattr(x, n)), [part] if n == field else []), 'the part is the last one, and other lists are left alone')
        check(part.parent is x, 'the runnable is the parent of its part')
    return spec


def not_to_runnable(how, field, lists):
    def spec(xs, part):
        import autosar.xml.element as el
        x = el.RunnableEntity('r')
        getattr(x, field).extend(xs)
        check(raises(TypeError, getattr(x, how), part), 'what does not belong there is rejected')
        for n in lists:
            check(identical(listed(getattr(x, n)), xs if n == field else []), 'nothing is changed')
    return spec


def rejected(how, lists):
    def spec(x, part):
        before = [(n, listed(getattr(x, n))) for n in lists]
        check(raises(TypeError, getattr(x, how), part), 'what does not belong there is rejected')
        for n, old in before:
            check(identical(listed(getattr(x, n)), old), 'nothing is changed')
    return spec


POOL = PLAIN + sorted({k for r in ROWS for k in r[3] if k not in PLAIN} | {'Unit', 'Package', 'ExclusiveAreaRef', 'UnitRef', 'SwValues', 'ValueList'})


def classes(kinds):
    import autosar.xml.element as el
    basic = {'int': int, 'float': float, 'str': str, 'bool': bool}
    return tuple(basic.get(x) or getattr(el, x, None) for x in kinds)


def specs():
    import autosar.xml.element as el
    out = []
    for cname, how, field, kinds, owned, strict in ROWS:
        c = getattr(el, cname, None)
        if c is None or not callable(getattr(c, how, None)) or None in classes(kinds):
            continue
        lists = []
        for r in ROWS:
            d = getattr(el, r[0], None)
            if d is not None and r[2] and r[2] not in lists and (issubclass(c, d)):
                lists.append(r[2])
        name = '%s.%s' % (cname, how) + ('' if field is None or cname != 'PRPortPrototype' else ' ' + field)
        if cname == 'RunnableEntity':
            xs = ('xs', ('list', some(kinds)))
            if owned:       # any list of parts with names: P15
                out.append(Spec('move: ' + name, between_runnables(how, field, lists), [('part', some(kinds))], engine=setup_naming, samples=30))
            else:
                out.append(Spec('append: ' + name, to_runnable(how, field, lists), [xs, ('part', some(kinds))], engine=setup_naming, samples=30))
        elif field is not None:
            out.append(Spec('append: ' + name, appended(how, field, lists, owned), [('x', ('obj', cname)), ('part', some(kinds))], engine=setup_naming, samples=30))
            if owned:
                out.append(Spec('move: ' + name, appended(how, field, lists, owned), [('x', ('obj', cname)), ('part', some(kinds)), ('was', ('obj', cname))],
                                engine=setup_naming, samples=30))
        if strict:
            good = classes(kinds + ALSO.get((cname, how), []))
            wrong = [k for k in POOL if classes([k])[0] is not None and not issubclass(classes([k])[0], good)]
            part = ('part', ('or', ('const', None), *[domain(k) for k in wrong]))
            if cname == 'RunnableEntity':
                out.append(Spec('reject: ' + name, not_to_runnable(how, field, lists), [xs, part], engine=setup_naming, samples=60))
            else:
                out.append(Spec('reject: ' + name, rejected(how, lists), [('x', ('obj', cname)), part], engine=setup_naming, samples=60))
    return out + constructors()


def refused(cname, required, wrong, inside):
    def spec(*args):
        import autosar.xml.element as el
        given = dict(zip(required, args))
        for p, v in zip(wrong, args[len(required):]):
            rest = {q: x for q, x in given.items() if q != p}
            rest[p] = v
            check(raises(TypeError, getattr(el, cname), **rest), 'a wrong %s is rejected' % p)
        for p, v in zip(inside, args[len(required) + len(wrong):]):
            rest = {q: x for q, x in given.items() if q != p}
            rest[p] = [v]
            check(raises(TypeError, getattr(el, cname), **rest), 'a wrong part of %s is rejected' % p)
    return spec


def negative(cname, required, params):
    def spec(n, *args):
        import autosar.xml.element as el
        assume(n < 0)
        for p in params:
            rest = {q: x for q, x in zip(required, args) if q != p}
            rest[p] = n
            check(raises(ValueError, getattr(el, cname), **rest), 'a negative %s is rejected' % p)
    return spec


def wrong_text(cname, param):
    def spec(v):
        import autosar.xml.element as el
        check(raises(ValueError, getattr(el, cname), **{param: v}), 'a text out of the pattern is rejected')
    return spec


WRONG_TEXT = [('SwDataDefPropsConditional', 'alignment', ('', 'none', '-1', 'pointer', '*', 'unknown', '/A/B')),
              ('SwDataDefPropsConditional', 'display_format', ('', 'd', '%', '5d', '%.f', '%.', '%5', '%y', '% %'))]


def constructors():
    """What a parameter of a constructor does not take is rejected."""
    import inspect
    import autosar.xml.element as el
    out = []
    for cname, params in TABLE.items():
        c = getattr(el, cname, None)
        if c is None:
            continue
        own = inspect.signature(c.__init__).parameters
        required = [(q, d) for q, d in params if q in own and own[q].default is inspect.Parameter.empty]
        chosen = []
        for p, _ in params:
            takes = TAKES.get((cname, p))
            if takes is None or p not in own:
                continue
            kinds = [k for k in POOL if classes([k])[0] is not None]
            chosen.append((p, 'wrong_' + p, ('or', *[domain(k) for k in kinds if k not in takes])))
            if any(x.startswith('list:') for x in takes):
                chosen.append((p, 'part_' + p, ('or', *[domain(k) for k in kinds if 'list:' + k not in takes])))
        for i in range(0, len(chosen), 6):
            some_ = sorted(chosen[i:i + 6], key=lambda c: c[1], reverse=True)
            ps = [n for _, n, _ in some_]
            out.append(Spec('reject: %s(%s)' % (cname, ', '.join(ps)), refused(
                cname, [q for q, _ in required], [p for p, n, _ in some_ if n[0] == 'w'], [p for p, n, _ in some_ if n[0] == 'p']),
                required + [(n, d) for _, n, d in some_], engine=setup_naming, samples=60))
        ns = [p for p, _ in params if (cname, p) in NATURAL and p in own]
        if ns:
            out.append(Spec('negative: %s(%s)' % (cname, ', '.join(ns)), negative(cname, [q for q, _ in required], ns), [('n', 'int')] + required, engine=setup_naming, samples=60))
        for c2, p, texts in WRONG_TEXT:
            if c2 == cname and p in own:
                out.append(Spec('text: %s(%s)' % (cname, p), wrong_text(cname, p), [('v', ('or', *[('const', x) for x in texts]))], engine=setup_naming, samples=30))
    return out
