import inspect

from . import Spec
from .api import check, equal, silent, assume
from .roundtrip import group, setup
from . import p16


def areas(e):
    # documents of older schema versions have no place for a conditional reference to nothing
    for x in e.can_enter_leave:
        assume(x.exclusive_area is not None)
    for x in e.runs_insides:
        assume(x.exclusive_area is not None)


def any_version(old):
    return lambda e, version: in_version(e, version, old)


def in_version(e, version, older):
    """A runnable in the notation of any schema version."""
    import autosar.xml
    import lxml.etree
    assume((version < 50) == older)
    areas(e)
    w = autosar.xml.Writer(version)
    w._str_open()
    w._write_runnable_entity(e)
    root = lxml.etree.fromstring(w.fh.getvalue())
    check(root.tag == 'RUNNABLE-ENTITY', 'the element has the tag of its role')
    for tag, old in (('CAN-ENTERS', False), ('RUNS-INSIDES', False), ('CAN-ENTER-EXCLUSIVE-AREA-REFS', True), ('RUNS-INSIDE-EXCLUSIVE-AREA-REFS', True)):
        if old != (version < 50):
            check(root.find(tag) is None, 'the notation is that of the schema version')
    got = autosar.xml.Reader(schema_version=version)._read_runnable_entity(root)
    check(silent(), 'every element of the output is understood by the reader')
    check(equal(e, got), 'the element read back equals the element written')


def in_document(old):
    return lambda e, version: document_of(e, version, old)


def document_of(e, version, older):
    """The same through a document of that version."""
    assume((version < 50) == older)
    import autosar.xml
    import autosar.xml.document as doc
    import autosar.xml.element as el
    areas(e)
    swc = el.ApplicationSoftwareComponentType('S', internal_behavior=el.SwcInternalBehavior('B', runnables=[e]))
    p = el.Package('P')
    p.append(swc)
    d = doc.Document([p], version)
    got = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(d, False))
    check(silent(), 'every element of the output is understood by the reader')
    check(got.schema_version == version, 'the schema version of the document')
    check(equal(d.packages, got.packages), 'the element read back equals the element written')


def specs():
    out = group('P05')
    import autosar.xml.writer as w
    import autosar.xml.reader as r
    if hasattr(w.Writer, '_str_open') and all(callable(getattr(c, n, None)) for c, n in ((w.Writer, '_write_runnable_entity'), (r.Reader, '_read_runnable_entity'))) and \
            'schema_version' in inspect.signature(r.Reader.__init__).parameters:
        for old in (False, True):
            out.append(Spec('schema versions %s 50' % ('before' if old else 'from'), any_version(old), [('e', ('obj', 'RunnableEntity')), ('version', 'nat')], engine=setup, samples=200))
            out.append(Spec('document of schema versions %s 50' % ('before' if old else 'from'), in_document(old), [('e', ('obj', 'RunnableEntity')), ('version', 'nat')], engine=p16.setup, samples=20))
    return out
