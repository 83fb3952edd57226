"""P14: the reference of an element is its path, of the right kind, and leads back to it."""
from . import Spec
from .api import assume, check
from .domains import TABLE, APPEND
from .p13 import attempt

# class, class of its references, destination
REFS = [
    ('CompuMethod', 'CompuMethodRef', 'COMPU_METHOD'),
    ('DataConstraint', 'DataConstraintRef', 'DATA_CONSTR'),
    ('Unit', 'UnitRef', 'UNIT'),
    ('SwBaseType', 'SwBaseTypeRef', 'SW_BASE_TYPE'),
    ('ImplementationDataTypeElement', 'AbstractImplementationDataTypeElementRef', 'IMPLEMENTATION_DATA_TYPE_ELEMENT'),
    ('ImplementationDataType', 'ImplementationDataTypeRef', 'IMPLEMENTATION_DATA_TYPE'),
    ('VariableDataPrototype', 'VariableDataPrototypeRef', 'VARIABLE_DATA_PROTOTYPE'),
    ('ParameterDataPrototype', 'ParameterDataPrototypeRef', 'PARAMETER_DATA_PROTOTYPE'),
    ('ArgumentDataPrototype', 'ArgumentDataPrototypeRef', 'ARGUMENT_DATA_PROTOTYPE'),
    ('ApplicationPrimitiveDataType', 'ApplicationDataTypeRef', 'APPLICATION_PRIMITIVE_DATA_TYPE'),
    ('ApplicationArrayElement', 'ApplicationArrayElementRef', 'APPLICATION_ARRAY_ELEMENT'),
    ('ApplicationArrayDataType', 'ApplicationDataTypeRef', 'APPLICATION_ARRAY_DATA_TYPE'),
    ('ApplicationRecordElement', 'ApplicationRecordElementRef', 'APPLICATION_RECORD_ELEMENT'),
    ('ApplicationRecordDataType', 'ApplicationDataTypeRef', 'APPLICATION_RECORD_DATA_TYPE'),
    ('DataTypeMappingSet', 'DataTypeMappingSetRef', 'DATA_TYPE_MAPPING_SET'),
    ('SwAddrMethod', 'SwAddrMethodRef', 'SW_ADDR_METHOD'),
    ('ConstantSpecification', 'ConstantRef', 'CONSTANT_SPECIFICATION'),
    ('Package', 'PackageRef', 'AR_PACKAGE'),
    ('ModeDeclaration', 'ModeDeclarationRef', 'MODE_DECLARATION'),
    ('ModeDeclarationGroup', 'ModeDeclarationGroupRef', 'MODE_DECLARATION_GROUP'),
    ('ModeDeclarationGroupPrototype', 'ModeDeclarationGroupPrototypeRef', 'MODE_DECLARATION_GROUP_PROTOTYPE'),
    ('SenderReceiverInterface', 'PortInterfaceRef', 'SENDER_RECEIVER_INTERFACE'),
    ('NvDataInterface', 'PortInterfaceRef', 'NV_DATA_INTERFACE'),
    ('ParameterInterface', 'PortInterfaceRef', 'PARAMETER_INTERFACE'),
    ('ApplicationError', 'ApplicationErrorRef', 'APPLICATION_ERROR'),
    ('ClientServerOperation', 'ClientServerOperationRef', 'CLIENT_SERVER_OPERATION'),
    ('ClientServerInterface', 'PortInterfaceRef', 'CLIENT_SERVER_INTERFACE'),
    ('ModeSwitchInterface', 'PortInterfaceRef', 'MODE_SWITCH_INTERFACE'),
    ('E2EProfileCompatibilityProps', 'E2EProfileCompatibilityPropsRef', 'E2E_PROFILE_COMPATIBILITY_PROPS'),
    ('ProvidePortPrototype', 'PortPrototypeRef', 'P_PORT_PROTOTYPE'),
    ('RequirePortPrototype', 'PortPrototypeRef', 'R_PORT_PROTOTYPE'),
    ('PRPortPrototype', 'PortPrototypeRef', 'PR_PORT_PROTOTYPE'),
    ('ApplicationSoftwareComponentType', 'SwComponentTypeRef', 'APPLICATION_SW_COMPONENT_TYPE'),
    ('SwComponentPrototype', 'SwComponentPrototypeRef', 'SW_COMPONENT_PROTOTYPE'),
    ('CompositionSwComponentType', 'SwComponentTypeRef', 'COMPOSITION_SW_COMPONENT_TYPE'),
    ('VariableAccess', 'VariableAccessRef', 'VARIABLE_ACCESS'),
    ('SwcImplementation', 'SwcImplementationRef', 'SWC_IMPLEMENTATION'),
    ('AsynchronousServerCallPoint', 'AsynchronousServerCallPointRef', 'ASYNCHRONOUS_SERVER_CALL_POINT'),
    ('AsynchronousServerCallResultPoint', 'AsynchronousServerCallResultPointRef', 'ASYNCHRONOUS_SERVER_CALL_RESULT_POINT'),
    ('ModeSwitchPoint', 'ModeSwitchPointRef', 'MODE_SWITCH_POINT'),
    ('RunnableEntity', 'RunnableEntityRef', 'RUNNABLE_ENTITY'),
    ('AsynchronousServerCallReturnsEvent', 'RteEventRef', 'ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT'),
    ('BackgroundEvent', 'RteEventRef', 'BACKGROUND_EVENT'),
    ('DataReceiveErrorEvent', 'RteEventRef', 'DATA_RECEIVE_ERROR_EVENT'),
    ('DataReceivedEvent', 'RteEventRef', 'DATA_RECEIVED_EVENT'),
    ('DataSendCompletedEvent', 'RteEventRef', 'DATA_SEND_COMPLETED_EVENT'),
    ('DataWriteCompletedEvent', 'RteEventRef', 'DATA_WRITE_COMPLETED_EVENT'),
    ('ExternalTriggerOccurredEvent', 'RteEventRef', 'EXTERNAL_TRIGGER_OCCURRED_EVENT'),
    ('InitEvent', 'RteEventRef', 'INIT_EVENT'),
    ('InternalTriggerOccurredEvent', 'RteEventRef', 'INTERNAL_TRIGGER_OCCURRED_EVENT'),
    ('ModeSwitchedAckEvent', 'RteEventRef', 'MODE_SWITCHED_ACK_EVENT'),
    ('OperationInvokedEvent', 'RteEventRef', 'OPERATION_INVOKED_EVENT'),
    ('SwcModeManagerErrorEvent', 'RteEventRef', 'SWC_MODE_MANAGER_ERROR_EVENT'),
    ('SwcModeSwitchEvent', 'RteEventRef', 'SWC_MODE_SWITCH_EVENT'),
    ('TimingEvent', 'RteEventRef', 'TIMING_EVENT'),
    ('TransformerHardErrorEvent', 'RteEventRef', 'TRANSFORMER_HARD_ERROR_EVENT'),
    ('ExclusiveArea', 'ExclusiveAreaRef', 'EXCLUSIVE_AREA'),
    ('SwcInternalBehavior', 'SwcInternalBehaviorRef', 'SWC_INTERNAL_BEHAVIOR'),
]

# container, constructor argument or method adding one, class of the part
PARTS = [
    ('ImplementationDataType', 'append', 'ImplementationDataTypeElement'),
    ('ImplementationDataTypeElement', 'append', 'ImplementationDataTypeElement'),
    ('ImplementationDataType', 'sub_elements', 'ImplementationDataTypeElement'),
    ('ImplementationDataTypeElement', 'sub_elements', 'ImplementationDataTypeElement'),
    ('ApplicationArrayDataType', 'element', 'ApplicationArrayElement'),
    ('ApplicationRecordDataType', 'elements', 'ApplicationRecordElement'),
    ('ApplicationRecordDataType', 'append', 'ApplicationRecordElement'),
    ('ModeDeclarationGroup', 'mode_declarations', 'ModeDeclaration'),
    ('ModeDeclarationGroup', 'append_mode_declaratation', 'ModeDeclaration'),
    ('ModeDeclarationGroup', 'mode_transitions', 'ModeTransition'),
    ('ModeDeclarationGroup', 'append_mode_transition', 'ModeTransition'),
    ('SenderReceiverInterface', 'data_elements', 'VariableDataPrototype'),
    ('SenderReceiverInterface', 'append_data_element', 'VariableDataPrototype'),
    ('NvDataInterface', 'data_elements', 'VariableDataPrototype'),
    ('NvDataInterface', 'append_data_element', 'VariableDataPrototype'),
    ('ParameterInterface', 'parameters', 'ParameterDataPrototype'),
    ('ParameterInterface', 'append_parameter', 'ParameterDataPrototype'),
    ('ClientServerOperation', 'arguments', 'ArgumentDataPrototype'),
    ('ClientServerOperation', 'append_argument', 'ArgumentDataPrototype'),
    ('ClientServerInterface', 'operations', 'ClientServerOperation'),
    ('ClientServerInterface', 'append_operation', 'ClientServerOperation'),
    ('ClientServerInterface', 'possible_errors', 'ApplicationError'),
    ('ClientServerInterface', 'append_possible_errors', 'ApplicationError'),
    ('ModeSwitchInterface', 'mode_group', 'ModeDeclarationGroupPrototype'),
    ('ApplicationSoftwareComponentType', 'ports', 'ProvidePortPrototype'),
    ('ApplicationSoftwareComponentType', 'ports', 'RequirePortPrototype'),
    ('ApplicationSoftwareComponentType', 'ports', 'PRPortPrototype'),
    ('ApplicationSoftwareComponentType', 'append_port', 'ProvidePortPrototype'),
    ('ApplicationSoftwareComponentType', 'append_port', 'RequirePortPrototype'),
    ('ApplicationSoftwareComponentType', 'append_port', 'PRPortPrototype'),
    ('ApplicationSoftwareComponentType', 'internal_behavior', 'SwcInternalBehavior'),
    ('CompositionSwComponentType', 'ports', 'ProvidePortPrototype'),
    ('CompositionSwComponentType', 'append_port', 'PRPortPrototype'),
    ('CompositionSwComponentType', 'components', 'SwComponentPrototype'),
    ('CompositionSwComponentType', 'append_component', 'SwComponentPrototype'),
    ('CompositionSwComponentType', 'connectors', 'AssemblySwConnector'),
    ('CompositionSwComponentType', 'append_connector', 'AssemblySwConnector'),
    ('CompositionSwComponentType', 'append_connector', 'DelegationSwConnector'),
    ('CompositionSwComponentType', 'append_connector', 'PassThroughSwConnector'),
    ('SwcInternalBehavior', 'runnables', 'RunnableEntity'),
    ('SwcInternalBehavior', 'append_runnable', 'RunnableEntity'),
    ('SwcInternalBehavior', 'exclusive_areas', 'ExclusiveArea'),
    ('SwcInternalBehavior', 'append_exclusive_area', 'ExclusiveArea'),
    ('RunnableEntity', 'append_async_server_call_result_point', 'AsynchronousServerCallResultPoint'),
    ('RunnableEntity', 'append_data_read_access', 'VariableAccess'),
    ('RunnableEntity', 'append_data_receive_point_by_argument', 'VariableAccess'),
    ('RunnableEntity', 'append_data_receive_point_by_value', 'VariableAccess'),
    ('RunnableEntity', 'append_data_send_point', 'VariableAccess'),
    ('RunnableEntity', 'append_data_write_access', 'VariableAccess'),
    ('RunnableEntity', 'append_internal_triggering_point', 'InternalTriggeringPoint'),
    ('RunnableEntity', 'append_mode_switch_point', 'ModeSwitchPoint'),
    ('RunnableEntity', 'append_parameter_access', 'ParameterAccess'),
    ('RunnableEntity', 'append_read_local_variable', 'VariableAccess'),
    ('RunnableEntity', 'append_write_local_variable', 'VariableAccess'),
    ('RunnableEntity', 'append_server_call_point', 'AsynchronousServerCallPoint'),
    ('RunnableEntity', 'append_server_call_point', 'SynchronousServerCallPoint'),
    ('RunnableEntity', 'append_wait_point', 'WaitPoint'),
]
EVENTS = ['AsynchronousServerCallReturnsEvent', 'BackgroundEvent', 'DataReceiveErrorEvent', 'DataReceivedEvent', 'DataSendCompletedEvent',
          'DataWriteCompletedEvent', 'ExternalTriggerOccurredEvent', 'InitEvent', 'InternalTriggerOccurredEvent', 'ModeSwitchedAckEvent',
          'OperationInvokedEvent', 'SwcModeManagerErrorEvent', 'SwcModeSwitchEvent', 'TimingEvent', 'TransformerHardErrorEvent']
PARTS += [('SwcInternalBehavior', 'append_event', x) for x in EVENTS] + [('SwcInternalBehavior', 'events', x) for x in EVENTS]

# containers whose parts are found by path: container, methods adding parts, classes
FIND = [('ImplementationDataType', 'append', 'ImplementationDataTypeElement'),
        ('ModeDeclarationGroup', 'append_mode_declaratation', 'ModeDeclaration'),
        ('ModeDeclarationGroup', 'append_mode_transition', 'ModeTransition'),
        ('ApplicationSoftwareComponentType', 'append_port', 'ProvidePortPrototype'),
        ('ApplicationSoftwareComponentType', 'append_port', 'RequirePortPrototype'),
        ('ApplicationSoftwareComponentType', 'append_port', 'PRPortPrototype'),
        ('CompositionSwComponentType', 'append_port', 'ProvidePortPrototype'),
        ('CompositionSwComponentType', 'append_component', 'SwComponentPrototype'),
        ('CompositionSwComponentType', 'append_connector', 'AssemblySwConnector')]


def setup(e):
    """Contract of update_ref_parts for an arbitrary package (induction hypothesis): it adds the
    names of the package and of what contains it, here as one text with slashes, followed by '' if
    the outermost container is a package collection, else by None."""
    import autosar.xml.element as el
    from vf.values import SStr, StrVar, U
    f = getattr(el.Identifiable, 'update_ref_parts', None)

    def contract(e, args, kwargs):
        o = args[0]
        if getattr(o, 'sym', ('',))[0] != 'package' or len(args) != 2 or o.fields.get('parent') is not None:
            return NotImplemented
        if 'path' not in o.ghost:
            o.ghost['path'] = (SStr([StrVar('path(%s)' % o.name, True)]), e.b.new_var('rooted(%s)' % o.name))
        path, g = o.ghost['path']
        e.list_append(args[1], path)
        e.list_append(args[1], e.mkU([(g, ''), (e.b.NOT(g), None)]))
        return None
    if f is not None:
        e.contracts[f] = contract


def make(cls, name):
    """An element of the class with the given name; other arguments are not needed, or None."""
    import inspect
    import autosar.xml.element as el
    c = getattr(el, cls)
    return c(name)


def reference(cls, ref_cls, dest):
    def spec(g, k, n):
        import autosar.xml.element as el
        import autosar.xml.enumeration as ar_enum
        p = el.Package(k)
        p.parent = g
        x = make(cls, n)
        check(x.ref() is None, 'an element that is in no package has no reference')
        x.parent = p
        r, q = x.ref(), p.ref()
        if q is None:
            check(r is None, 'an element that is in no document has no reference')
        else:
            check(type(r).__name__ == ref_cls, 'the reference is of the kind of the element')
            check(r.dest is getattr(ar_enum.IdentifiableSubTypes, dest), 'the destination is the kind of the element')
            check(str(r) == str(q) + '/' + n, 'the reference is the path of the element')
            check(r.value == str(q) + '/' + n, 'the reference is the path of the element')
    return spec


def moved(cls):
    """The reference is that of the present place and name, whatever it was before."""
    def spec(g, h, k, n, m):
        import autosar.xml.element as el
        p = el.Package(k)
        p.parent = g
        x = make(cls, n)
        x.parent = p
        x.ref()
        p.ref()
        p.parent = h
        q = p.ref()
        check(x.ref() is None if q is None else str(x.ref()) == str(q) + '/' + n, 'the reference of an element whose package is moved')
        x.name = m
        check(x.ref() is None if q is None else str(x.ref()) == str(q) + '/' + m, 'the reference of an element with another name')
        p.name = n
        q = p.ref()
        check(x.ref() is None if q is None else str(x.ref()) == str(q) + '/' + m, 'the reference of an element whose package has another name')
        o = el.Package(m)
        o.parent = g
        r = o.ref()
        x.parent = o
        check(x.ref() is None if r is None else str(x.ref()) == str(r) + '/' + m, 'the reference of a moved element')
        o.parent = None
        check(x.ref() is None, 'an element in a package that is in no document has no reference')
        c = el.PackageCollection()
        c.append(o)
        check(str(x.ref()) == '/' + m + '/' + m, 'the reference of an element whose package is added to a collection')
        check(x.root_collection() is c, 'the collection is found')
        x.parent = None
        check(x.ref() is None, 'an element that is in no package has no reference')
    return spec


def top(c, n):
    import autosar.xml.element as el
    p = el.Package(n)
    check(p.ref() is None, 'a package that is in no document has no reference')
    c.append(p)
    check(str(p.ref()) == '/' + n, 'the reference of a package is its path')
    check(type(p.ref()) is el.PackageRef, 'the reference of a package')
    check(p.root_collection() is c, 'the collection is found')


def package_level(cls):
    def spec(c, a, b, n):
        if c.find(a) is None:
            p = c.make_packages(a + '/' + b)
            x = make(cls, n)
            check(x.root_collection() is None, 'an element that is in no package')
            p.append(x)
            r = x.ref()
            check(str(r) == '/' + a + '/' + b + '/' + n, 'the reference is the path of the element')
            check(c.find(r) is x, 'the reference leads to the element')
            check(c.find(str(r)) is x, 'the path leads to the element')
            check(x.root_collection() is c, 'the collection is found')
    return spec


def existing_package(cls):
    def spec(c, a, n):
        p = c.find(a)
        if p is not None and p.find(n) is None:
            x = make(cls, n)
            p.append(x)
            r = x.ref()
            check(str(r) == '/' + a + '/' + n, 'the reference is the path of the element')
            check(c.find(r) is x, 'the reference leads to the element')
            check(x.root_collection() is c, 'the collection is found')
    return spec


def part(cls, how, item, method):
    def spec(g, k, n, x):
        import autosar.xml.element as el
        p = el.Package(k)
        p.parent = g
        c = getattr(el, cls)
        if method:
            o = make(cls, n)
            getattr(o, how)(x)
        else:
            o = c(n, **{how: x})
        check(x.parent is o, 'the container is the parent of the part')
        if hasattr(x, 'ref'):
            check(x.ref() is None, 'a part of an element that is in no document has no reference')
            o.parent = p
            r, q = x.ref(), p.ref()
            if q is None:
                check(r is None, 'a part of an element that is in no document has no reference')
            else:
                check(str(r) == str(q) + '/' + n + '/' + x.name, 'the reference of a part is the path of the part')
    return spec


def part_list(cls, how, item):
    def spec(n, xs):
        import autosar.xml.element as el
        o = getattr(el, cls)(n, **{how: xs})
        for x in xs:
            check(x.parent is o, 'the container is the parent of all its parts')
    return spec


def find_part(cls, how, item):
    def spec(c, a, n, m, k):
        import autosar.xml.element as el
        o = make(cls, n)
        x, y = make(item, m), make(item, k)
        if c.find(a) is None:
            getattr(o, how)(x)
            if m != k:
                getattr(o, how)(y)
            c.create_package(a).append(o)
            path = '/' + a + '/' + n + '/'
            check(c.find(path + m) is x, 'the path leads to the part')
            check(c.find(path + k) is (x if m == k else y), 'the path leads to the part')
            if hasattr(x, 'ref'):
                check(c.find(x.ref()) is x, 'the reference leads to the part')
            check(x.root_collection() is c, 'the collection is found')
    return spec


def find_any_part(cls, how, item):
    """Among any parts, wherever the container is."""
    def spec(c, a, n, xs, k):
        import autosar.xml.element as el
        o = make(cls, n)
        for x in xs:
            getattr(o, how)(x)
        if c.find(a) is None:
            c.create_package(a).append(o)
            r = c.find('/' + a + '/' + n + '/' + k)
            check(r is o.find(k), 'from the top as from the container')
            if r is None:
                for x in xs:
                    check(x.name != k, 'the part of the name is found')
            else:
                check(r.name == k and r.parent is o and any(x is r for x in xs), 'the part of the name')
    return spec


def find_no_part(cls, how, item):
    def spec(n, m, k):
        o = make(cls, n)
        getattr(o, how)(make(item, m))
        check((o.find(k) is None) == (k != m), 'nothing is found under another name')
    return spec


def nested_parts(n, z, *names):
    import autosar.xml.element as el
    for m in names:
        assume(z != m)
    t = el.ImplementationDataType(n)
    chain = [t]
    for m in names:
        x = el.ImplementationDataTypeElement(m)
        chain[-1].append(x)
        chain.append(x)
    d = el.PackageCollection([el.Package('P')])
    d.packages[0].append(t)
    for i, top in enumerate(chain):
        path = ''
        for x, m in zip(chain[i + 1:], names[i:]):
            for wrong in (path + z, path + z + '/' + m):
                check(top.find(wrong) is None, 'nothing is found under another name')
            path += m
            check(top.find(path) is x, 'the path from an element leads to the parts below it')
            if i == 0:
                check(d.find('/P/' + n + '/' + path) is x, 'the path leads to the part')
                check(str(x.ref()) == '/P/' + n + '/' + path, 'the reference is the path of the part')
                check(d.find(x.ref()) is x, 'the reference leads to the part')
                check(x.root_collection() is d, 'the collection is found')
            path += '/'


def specs():
    import inspect
    import autosar.xml.element as el
    k = dict(engine=setup, samples=40)
    out = []
    for c, r, d in REFS:
        if hasattr(el, c):
            out.append(Spec('reference: ' + c, reference(c, r, d), [('g', ('package',)), ('k', 'name'), ('n', 'name')], **k))
            out.append(Spec('moved: ' + c, moved(c), [('g', ('package',)), ('h', ('package',)), ('k', 'name'), ('n', 'name'), ('m', 'name')], **k))
            if issubclass(getattr(el, c), (el.ARElement, el.Package)):
                out.append(Spec('lookup: ' + c, package_level(c), [('c', ('collection', 'Document')), ('a', 'name'), ('b', 'name'), ('n', 'name')], **k))
                out.append(Spec('lookup in a package: ' + c, existing_package(c), [('c', ('collection', 'Document')), ('a', 'name'), ('n', 'name')], **k))
    for c in ('PackageCollection', 'Document', 'Workspace'):
        out.append(Spec('top: ' + c, lambda c, n: top(c, n) if c.find(n) is None else check(True, ''), [('c', ('collection', c)), ('n', 'name')], **k))
    for c, how, x in PARTS:
        if not hasattr(el, c) or not hasattr(el, x):
            continue
        cls = getattr(el, c)
        method = inspect.isfunction(getattr(cls, how, None))
        if how != 'sub_elements' and (method or how in inspect.signature(cls.__init__).parameters or 'kwargs' in inspect.signature(cls.__init__).parameters):
            out.append(Spec('part: %s.%s(%s)' % (c, how, x), part(c, how, x, method), [('g', ('package',)), ('k', 'name'), ('n', 'name'), ('x', ('obj', x))], **k))
        if not method and how.endswith('s'):
            out.append(Spec('parts: %s.%s(%s)' % (c, how, x), part_list(c, how, x), [('n', 'name'), ('xs', ('list', ('obj', x)))], **k))
    for c, how, x in FIND:
        if hasattr(el, c) and hasattr(el, x) and hasattr(getattr(el, c), how):
            out.append(Spec('find: %s.%s(%s)' % (c, how, x), find_part(c, how, x),
                            [('c', ('collection', 'Document')), ('a', 'name'), ('n', 'name'), ('m', 'name'), ('k', 'name')], **k))
            out.append(Spec('find any: %s.%s(%s)' % (c, how, x), find_any_part(c, how, x),
                            [('c', ('collection', 'Document')), ('a', 'name'), ('n', 'name'), ('xs', ('found', ('named', x), 2)), ('k', 'name')], **k))
            out.append(Spec('find not: %s.%s(%s)' % (c, how, x), find_no_part(c, how, x), [('n', 'name'), ('m', 'name'), ('k', 'name')], **k))
    out.append(Spec('find nested', nested_parts, [(x, 'name') for x in 'nzabcdef'], **k))
    return out
