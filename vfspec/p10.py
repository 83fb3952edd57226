"""P10: a reference holds a path and one of the kinds of elements it can point to, everywhere."""
from . import Spec
from .api import check, raises
from .codecs import CODECS
from .constraints import CONSTRAINTS, PROVIDED, REQUIRED
from .domains import TABLE, APPEND
from .enums import ENUMS
from .refs import REFS

DEST = {m: t[0] for m, t in ENUMS['IdentifiableSubTypes'].items()}
TEXTS = list(DEST.values())
TAGS = {c: (r, tags) for c, w, r, takes, tags in CODECS if c in REFS}
WRONG = (TypeError, ValueError)
# parameters that take references of their own class (or a documented other class) only
STRICT = '''ApplicationCompositeElementDataPrototype.type_ref ApplicationArrayElement.type_ref ApplicationRecordElement.type_ref
    SwAxisCont.unit_ref SwValueCont.unit_ref SenderComSpec.data_element_ref QueuedSenderComSpec.data_element_ref
    NonqueuedSenderComSpec.data_element_ref ReceiverComSpec.data_element_ref QueuedReceiverComSpec.data_element_ref
    NonqueuedReceiverComSpec.data_element_ref PortInCompositionTypeInstanceRef.component_ref
    PortInCompositionTypeInstanceRef.port_ref DelegationSwConnector.outer_port PassThroughSwConnector.provide_port
    PassThroughSwConnector.require_port ArVariableInImplementationDataInstanceRef.port_prototype_ref
    ArVariableInImplementationDataInstanceRef.root_variable_data_prototype_ref
    VariableInAtomicSWCTypeInstanceRef.context_data_prototype_refs AutosarVariableRef.local_variable_ref
    ExecutableEntity.exclusive_area_nesting_order RunnableEntity.exclusive_area_nesting_order InternalBehavior.data_type_mappings SwcInternalBehavior.data_type_mappings'''.split()


def ref_class(name):
    import autosar.xml.reference as ar_ref
    return getattr(ar_ref, name)


def make_dest(cname, default, names):
    def spec(path, dest):
        import autosar.xml.enumeration as ar_enum
        cls = ref_class(cname)
        if dest.name in names:
            r = cls(path, dest)
            check(r.value == path and r.dest is dest, 'the reference has the path and the kind given')
            check(str(r) == path, 'the text of a reference is its path')
        else:
            check(raises(ValueError, cls, path, dest), 'any other kind is rejected')
        if default:
            check(cls(path).dest is getattr(ar_enum.IdentifiableSubTypes, default), 'the kind can be left out')
            check(cls(path, None).dest is getattr(ar_enum.IdentifiableSubTypes, default), 'the kind can be None')
        else:
            check(raises(ValueError, cls, path, None), 'the kind cannot be None')
    return spec


def make_read(cname, names, rname, tag):
    def spec(path, other):
        import autosar.xml
        import autosar.xml.enumeration as ar_enum
        import lxml.etree
        read = getattr(autosar.xml.Reader(), rname)
        for name, text in DEST.items():
            root = lxml.etree.fromstring('<' + tag + ' DEST="' + text + '">' + path + '</' + tag + '>')
            if name in names:
                r = read(root)
                check(type(r) is ref_class(cname), 'a reference of the class is read')
                check(r.value == path, 'the path is read')
                check(r.dest is getattr(ar_enum.IdentifiableSubTypes, name), 'the kind is read')
            else:
                check(raises(Exception, read, root), 'a reference to another kind is rejected')
        if other not in TEXTS:
            root = lxml.etree.fromstring('<' + tag + ' DEST="' + other + '">' + path + '</' + tag + '>')
            check(raises(Exception, read, root), 'a reference to an unknown kind is rejected')
        root = lxml.etree.fromstring('<' + tag + '>' + path + '</' + tag + '>')
        check(raises(Exception, read, root), 'a reference to no kind is rejected')
    return spec


def element_class(name):
    import autosar.xml.element as ar_element
    return getattr(ar_element, name)


def value_of(o, param, is_list):
    v = getattr(o, param)
    return v[0] if is_list else v


def make_held(cname, names, param, refname, is_list):
    strict = '%s.%s' % (cname, param) in STRICT

    def spec(src, *args):
        cls = element_class(cname)
        kw = dict(zip(names, args))
        kw[param] = [src] if is_list else src
        if strict and type(src) is not ref_class(refname):
            if src.dest.name not in REFS[refname][1].split():
                check(raises(WRONG, cls, **kw), 'a reference to another kind of element is rejected')
        elif src.dest.name in REFS[refname][1].split():
            got = value_of(cls(**kw), param, is_list)
            check(type(got) is ref_class(refname), 'the element holds a reference of its own kind')
            check(got.value == src.value and got.dest is src.dest, 'with the same path and kind of element')
        else:
            check(raises(WRONG, cls, **kw), 'a reference to another kind of element is rejected')
    return spec


def make_text(cname, names, param, refname, is_list):
    strict = '%s.%s' % (cname, param) in STRICT

    def spec(path, *args):
        import autosar.xml.enumeration as ar_enum
        cls = element_class(cname)
        kw = dict(zip(names, args))
        kw[param] = [path] if is_list else path
        dests = REFS[refname][1].split()
        if strict:
            pass
        elif len(dests) == 1:
            got = value_of(cls(**kw), param, is_list)
            check(type(got) is ref_class(refname), 'a path becomes a reference')
            check(got.value == path and got.dest is getattr(ar_enum.IdentifiableSubTypes, dests[0]), 'with this path and the only possible kind')
        else:
            check(raises(WRONG, cls, **kw), 'a path alone is ambiguous')
        for bad in (5, 1.5, cls, object()):
            kw[param] = [bad] if is_list else bad
            check(raises(WRONG, cls, **kw), 'anything else is rejected')
    return spec


def target(d):
    """(reference class, is a list) of the domain of a parameter."""
    if d[0] == 'opt':
        d = d[1]
    if d[0] == 'ref':
        return d[1], False
    if d[0] in ('list', 'list1') and d[1][0] == 'ref':
        return d[1][1], True
    return None


def port_directions(r):
    check(r.is_provide_port_ref == (r.dest.name in PROVIDED), 'whether it refers to a port that provides')
    check(r.is_require_port_ref == (r.dest.name in REQUIRED), 'whether it refers to a port that requires')


def specs():
    out = [Spec('directions of ports', port_directions, [('r', ('ref', 'PortPrototypeRef'))], samples=40)]
    for cname, (default, names) in REFS.items():
        out.append(Spec('kinds: ' + cname, make_dest(cname, default, names.split()), [('path', 'str'), ('dest', ('enum', 'IdentifiableSubTypes'))], samples=90))
        import autosar.xml.reader as rd
        if cname in TAGS and callable(getattr(rd.Reader, TAGS[cname][0], None)):
            out.append(Spec('read: ' + cname, make_read(cname, names.split(), TAGS[cname][0], TAGS[cname][1][0]), [('path', 'plain'), ('other', 'plain')], samples=6))
    for cname, ps in TABLE.items():
        for param, d in ps:
            t = target(d) if isinstance(d, tuple) else None
            if t is None or t[0] not in REFS:
                continue
            req = [(n, x) for n, x in ps if n != param and not (isinstance(x, tuple) and x[0] in ('opt', 'list'))]
            rn = [n for n, _ in req]
            src = ('or',) + tuple(('ref', n) for n in REFS)
            out.append(Spec('held: %s.%s' % (cname, param), make_held(cname, rn, param, *t), [('src', src)] + req, samples=50))
            out.append(Spec('path: %s.%s' % (cname, param), make_text(cname, rn, param, *t), [('path', 'str')] + req, samples=10))
    return out
