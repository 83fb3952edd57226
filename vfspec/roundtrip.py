"""Round-trip specifications: writing an element and reading the text back gives an equal element."""
import inspect

from . import Spec
from .api import check, equal, silent
from .codecs import CODECS
from .domains import TABLE, APPEND


def setup(e):
    """Contract of make_unique_name_in_list (proved by P15): with names that are distinct, it
    returns some text and changes nothing."""
    import autosar.xml.element as el
    from vf.values import SStr, StrVar, SList
    e.distinct_keys = True      # members of one container have distinct names (precondition)
    n = [0]

    def unique(e, args, kwargs):
        n[0] += 1
        return SStr([StrVar('unique_%d' % n[0], True)])
    f = getattr(el, 'make_unique_name_in_list', None)
    if f is not None:
        e.contracts[f] = unique

    def find(e, args, kwargs):
        # searching the list that is being filled with elements of distinct names
        if e.loops and len(args) == 3 and isinstance(args[1], SList) and not args[1].entries:
            return None
        return NotImplemented
    import autosar.xml.base as base
    f = getattr(base.ARObject, '_find_by_name', None)
    if f is not None:
        e.contracts[f] = find


def public_elem(e):
    import autosar.xml
    text = autosar.xml.Writer().write_str_elem(e)
    got = autosar.xml.Reader().read_str_elem(text)
    check(got is not None, 'an element is read back')
    check(silent(), 'every element of the output is understood by the reader')
    check(equal(e, got), 'the element read back equals the element written')


def public_elem_tag(tag):
    def roundtrip(e):
        import autosar.xml
        text = autosar.xml.Writer().write_str_elem(e, tag)
        got = autosar.xml.Reader().read_str_elem(text)
        check(got is not None, 'an element is read back')
        check(silent(), 'every element of the output is understood by the reader')
        check(equal(e, got), 'the element read back equals the element written')
    return roundtrip


def private_elem(wname, rname, tag, kw):
    def roundtrip(e):
        import autosar.xml
        import lxml.etree
        w = autosar.xml.Writer()
        w._str_open()
        if tag is not None and kw:
            getattr(w, wname)(e, tag)
        else:
            getattr(w, wname)(e)
        text = w.fh.getvalue()
        root = lxml.etree.fromstring(text)
        if tag is not None:
            check(root.tag == tag, 'the element has the tag of its role')
        got = getattr(autosar.xml.Reader(), rname)(root)
        check(got is not None, 'an element is read back')
        check(silent(), 'every element of the output is understood by the reader')
        check(equal(e, got), 'the element read back equals the element written')
    return roundtrip


def codec_specs():
    """All (class, spec) pairs that the current tree supports."""
    import autosar.xml.writer as w
    import autosar.xml.reader as r
    out = []
    if not hasattr(w.Writer(), 'fh') or not hasattr(w.Writer, '_str_open'):
        return out      # the private interface changed: only the public entry points are checked
    for cname, wname, rname, takes, tags in CODECS:
        wf, rf = getattr(w.Writer, wname, None), getattr(r.Reader, rname, None)
        if not callable(wf) or not callable(rf):
            continue
        ps = list(inspect.signature(wf).parameters.values())[1:]
        req = [p for p in ps if p.default is p.empty]
        if len(req) != (2 if takes else 1):
            continue
        if len([p for p in list(inspect.signature(rf).parameters.values())[1:] if p.default is p.empty]) != 1:
            continue
        isref = cname not in TABLE and cname not in APPEND
        dom = ('ref' if isref else 'obj', cname)
        for tag in tags:
            nm = cname if len(tags) == 1 else '%s@%s' % (cname, tag)
            out.append((cname, Spec('codec:' + nm, private_elem(wname, rname, tag, bool(takes)), [('e', dom)], root='e',
                                    covers=(wname, rname), engine=setup)))
    return out


def doms(d):
    """Classes mentioned in a domain."""
    if isinstance(d, tuple):
        if d[0] in ('obj', 'ref'):
            yield d[1]
        elif d[0] not in ('const', 'enum'):
            for x in d[1:]:
                yield from doms(x)


def closure(classes):
    """The classes and everything their values can contain."""
    out, todo = set(), list(classes)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        ps = list(TABLE.get(c, []))
        if c in APPEND:
            ps = list(APPEND[c][0]) + [('items', APPEND[c][1])]
        for _, d in ps:
            todo += list(doms(d))
    return out


def public_specs(classes):
    """Through the public entry points, for the classes that have them."""
    import autosar.xml.writer as w
    import autosar.xml.reader as r
    try:
        ws, rs = w.Writer().switcher_all, r.Reader().switcher_all
    except AttributeError:
        return []
    out = []
    for cname, wname, rname, takes, tags in CODECS:
        if cname not in classes or cname not in ws or (cname not in TABLE and cname not in APPEND):
            continue
        for tag in tags or ():
            if tag not in rs:
                continue
            fn = public_elem_tag(tag) if takes else public_elem
            nm = cname if len(tags) == 1 else '%s@%s' % (cname, tag)
            out.append(Spec('public:' + nm, fn, [('e', ('obj', cname))], engine=setup, samples=20))
    return out


def make(classes):
    """Round-trip specifications of the classes and of everything they can contain."""
    cl = closure(classes)
    return [s for c, s in codec_specs() if c in cl] + public_specs(classes)


GROUPS = {
    'P01': """CompuRational CompuConst CompuScale Computation CompuMethod ScaleConstraint InternalConstraint PhysicalConstraint
        DataConstraintRule DataConstraint Unit SwBaseType SwBitRepresentation SwTextProps SwPointerTargetProps
        SwDataDefPropsConditional SwDataDefProps SymbolProps ImplementationDataTypeElement ImplementationDataType
        ApplicationPrimitiveDataType ApplicationArrayElement ApplicationArrayDataType ApplicationRecordElement
        ApplicationRecordDataType DataTypeMap DataTypeMappingSet ModeRequestTypeMap SwAddrMethod SingleLanguageUnitNames
        IndexDataTypeRef SwBaseTypeRef CompuMethodRef UnitRef DataConstraintRef""",
    'P02': """ValueList SwValues SwAxisCont SwValueCont TextValueSpecification NumericalValueSpecification
        NotAvailableValueSpecification ArrayValueSpecification RecordValueSpecification ApplicationValueSpecification
        ConstantSpecification ConstantReference""",
    'P03': """DataFilter VariableDataPrototype ParameterDataPrototype ArgumentDataPrototype ModeDeclaration ModeErrorBehavior
        ModeTransition ModeDeclarationGroup ModeDeclarationGroupPrototype InvalidationPolicy SenderReceiverInterface
        NvDataInterface ParameterInterface ApplicationError ClientServerOperation ClientServerInterface ModeSwitchInterface
        E2EProfileCompatibilityProps""",
    'P04': """EndToEndTransformationComSpecProps ModeSwitchedAckRequest TransmissionAcknowledgementRequest
        TransmissionComSpecProps ModeSwitchSenderComSpec QueuedSenderComSpec NonqueuedSenderComSpec NvProvideComSpec
        ParameterProvideComSpec ServerComSpec ReceptionComSpecProps QueuedReceiverComSpec NonqueuedReceiverComSpec
        NvRequireComSpec ParameterRequireComSpec ModeSwitchReceiverComSpec ClientComSpec ProvidePortPrototype
        RequirePortPrototype PRPortPrototype ApplicationSoftwareComponentType SwComponentPrototype AssemblySwConnector
        DelegationSwConnector PassThroughSwConnector CompositionSwComponentType""",
    'P05': """AutosarEngineeringObject Code SwcImplementation SwcInternalBehavior PModeGroupInAtomicSwcInstanceRef
        RModeGroupInAtomicSwcInstanceRef VariableAccess ParameterAccess RunnableEntity PortApiOption ExclusiveArea
        AsynchronousServerCallReturnsEvent BackgroundEvent DataReceiveErrorEvent DataReceivedEvent DataSendCompletedEvent
        DataWriteCompletedEvent ExternalTriggerOccurredEvent InitEvent InternalTriggerOccurredEvent ModeSwitchedAckEvent
        OperationInvokedEvent SwcModeManagerErrorEvent SwcModeSwitchEvent TimingEvent TransformerHardErrorEvent""",
    'P06': """MultiLanguageOverviewParagraph Break EmphasisText IndexEntry TechnicalTerm Subscript Superscript LanguageLongName
        MultilanguageLongName LanguageOverviewParagraph LanguageParagraph MultiLanguageParagraph LanguageVerbatim
        MultiLanguageVerbatim SingleLanguageUnitNames DocumentationBlock Annotation Package""",
}


def group(prop):
    return make(GROUPS[prop].split())
