"""P16: a document that was written is read back; what cannot be read does not hide the rest."""
from . import Spec
from .api import check, equal, silent, raises, reread, document_of, Unreadable
from .domains import ELEMENTS
from . import roundtrip

VERSIONS = ('or',) + tuple(('const', v) for v in range(40, 58))
PACKAGES = ('list', ('obj', 'Package'))
GOOD = ('or', *[('obj', x) for x in ELEMENTS])
ANY = ('list', ('or', *[('obj', x) for x in ELEMENTS], ('bad',)))


def setup(e):
    roundtrip.setup(e)
    import autosar.xml.reader as r
    from vf import xmlmodel
    xmlmodel.install_namespaces(e, r.Reader)
    xmlmodel.install_files(e)
    xmlmodel.install_documents(e)


def setup_text(e):
    from vf import xmlmodel
    for c, m in ((xmlmodel.XNode, xmlmodel.XNodeModel), (xmlmodel.FirstOf, xmlmodel.FirstModel), (xmlmodel.Attrib, xmlmodel.AttribModel)):
        e.attr_models[c] = m
    xmlmodel.install_parser(e)


# ---------------------------------------------------------------- whole documents
def same_document(packages, version, got):
    import autosar.xml.document as doc
    check(isinstance(got, doc.Document), 'reading gives a document')
    check(silent(), 'everything in the document is understood')
    check(equal(packages, got.packages), 'the packages are those written, in their order')
    check(got.schema_version == version, 'the document is for the schema version it was written for')


def through_text(packages, version):
    import autosar.xml
    import autosar.xml.document as doc
    given = [*packages]
    d = doc.Document(packages, version)
    same_document(given, version, autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(d, False)))


def through_bare_text(packages, version):
    import autosar.xml
    import autosar.xml.document as doc
    d = doc.Document(packages, version)
    r = autosar.xml.Reader()
    same_document(d.packages, r.schema_version, r.read_str(autosar.xml.Writer().write_str(d)))


def through_file(packages, version):
    import autosar.xml
    import autosar.xml.document as doc
    d = doc.Document(packages, version)

    def write(path):
        autosar.xml.Writer().write_file(d, path)

    def read(path):
        return autosar.xml.Reader().read_file(path)
    same_document(d.packages, version, reread(write, read))


def used(packages, version, other):
    import autosar.xml
    import autosar.xml.document as doc
    w = autosar.xml.Writer()
    r = autosar.xml.Reader()
    first = r.read_str(w.write_str(doc.Document(other, 45), False))
    before = list(first.packages)
    d = doc.Document(packages, version)
    got = r.read_str(w.write_str(d, False))
    same_document(d.packages, version, got)
    check(first.schema_version == 45 and len(first.packages) == len(before), 'the document read before is left alone')
    check(got is not first, 'another document')


def contents(name, path, v1, v2, v3):
    """What is written in a different way for each version, by one writer and reader."""
    import autosar.xml
    import autosar.xml.document as doc
    import autosar.xml.element as el
    w = autosar.xml.Writer()
    r = autosar.xml.Reader()
    p = el.Package('P')
    p.append(el.ApplicationSoftwareComponentType(name, internal_behavior=el.SwcInternalBehavior(
        'B', runnables=[el.RunnableEntity('R', can_enter_leave=[path], runs_insides=[path])])))
    for v in (v1, v2, v3):
        got = r.read_str(w.write_str(doc.Document([p], v), False))
        check(got.schema_version == v, 'the document is for the schema version it was written for')
        check(silent(), 'everything in the document is understood')
        check(len(got.packages) == 1 and equal(got.packages[0].elements, p.elements), 'the contents are those written')


# ---------------------------------------------------------------- faulty elements
def remaining(items):
    import autosar.xml
    got = autosar.xml.Reader().read_str(document_of(items))
    check([p.name for p in got.packages] == ['P'], 'the package is read')
    check(equal([x for x in items if not isinstance(x, Unreadable)], got.packages[0].elements),
          'the elements that can be read are read, in their order')


def reported_first(bad, after):
    import autosar.xml
    items = [bad] + after
    got = autosar.xml.Reader().read_str(document_of(items))
    check(len(got.packages) == 1 and equal([x for x in after if not isinstance(x, Unreadable)], got.packages[0].elements),
          'the elements that can be read are read, in their order')
    check(not silent(), 'the element that cannot be read is reported')


def reported_last(before, bad):
    import autosar.xml
    items = before + [bad]
    got = autosar.xml.Reader().read_str(document_of(items))
    check(len(got.packages) == 1 and equal(before, got.packages[0].elements), 'the elements that can be read are read, in their order')
    check(not silent(), 'the element that cannot be read is reported')


def stops(before, bad, after):
    import autosar.xml
    from autosar.xml.exception import ParseError
    r = autosar.xml.Reader()
    check(raises(ParseError, r.read_str, document_of(before + [bad] + after), True), 'reading stops at the element that cannot be read')


NAME = '<SHORT-NAME>X</SHORT-NAME>'
SCALE = '<COMPU-METHOD>' + NAME + '<COMPU-INTERNAL-TO-PHYS><COMPU-SCALES><COMPU-SCALE>%s</COMPU-SCALE></COMPU-SCALES></COMPU-INTERNAL-TO-PHYS></COMPU-METHOD>'
VALUE = '<CONSTANT-SPECIFICATION>' + NAME + '<VALUE-SPEC>%s</VALUE-SPEC></CONSTANT-SPECIFICATION>'
FAULTY = {
    'element without name': '<UNIT><LONG-NAME/></UNIT>',
    'no number': '<UNIT>' + NAME + '<FACTOR-SI-TO-UNIT>abc</FACTOR-SI-TO-UNIT></UNIT>',
    'empty number': '<UNIT>' + NAME + '<FACTOR-SI-TO-UNIT/></UNIT>',
    'reference without destination': '<UNIT>' + NAME + '<PHYSICAL-DIMENSION-REF>/a</PHYSICAL-DIMENSION-REF></UNIT>',
    'reference to something else': '<UNIT>' + NAME + '<PHYSICAL-DIMENSION-REF DEST="UNIT">/a</PHYSICAL-DIMENSION-REF></UNIT>',
    'unknown destination': '<UNIT>' + NAME + '<PHYSICAL-DIMENSION-REF DEST="NOPE">/a</PHYSICAL-DIMENSION-REF></UNIT>',
    'unknown language': '<UNIT>' + NAME + '<LONG-NAME><L-4 L="XX">t</L-4></LONG-NAME></UNIT>',
    'missing language': '<UNIT>' + NAME + '<LONG-NAME><L-4>t</L-4></LONG-NAME></UNIT>',
    'no size': '<SW-BASE-TYPE>' + NAME + '<BASE-TYPE-SIZE>x</BASE-TYPE-SIZE></SW-BASE-TYPE>',
    'negative size': '<SW-BASE-TYPE>' + NAME + '<BASE-TYPE-SIZE>-1</BASE-TYPE-SIZE></SW-BASE-TYPE>',
    'unknown byte order': '<SW-BASE-TYPE>' + NAME + '<BYTE-ORDER>x</BYTE-ORDER></SW-BASE-TYPE>',
    'empty constant': SCALE % '<COMPU-CONST/>',
    'unknown interval': SCALE % '<LOWER-LIMIT INTERVAL-TYPE="X">1</LOWER-LIMIT>',
    'empty limit': SCALE % '<LOWER-LIMIT/>',
    'unknown value': VALUE % '<FOO/>',
    'no numerical value': VALUE % '<NUMERICAL-VALUE-SPECIFICATION><VALUE>x</VALUE></NUMERICAL-VALUE-SPECIFICATION>',
    'no truth value': '<SENDER-RECEIVER-INTERFACE>' + NAME + '<IS-SERVICE>maybe</IS-SERVICE></SENDER-RECEIVER-INTERFACE>',
    'data element without name': '<SENDER-RECEIVER-INTERFACE>' + NAME +
        '<DATA-ELEMENTS><VARIABLE-DATA-PROTOTYPE/></DATA-ELEMENTS></SENDER-RECEIVER-INTERFACE>',
    'unknown communication specification': '<APPLICATION-SW-COMPONENT-TYPE>' + NAME + '<PORTS><P-PORT-PROTOTYPE><SHORT-NAME>a</SHORT-NAME>'
        '<PROVIDED-COM-SPECS><FOO/></PROVIDED-COM-SPECS></P-PORT-PROTOTYPE></PORTS></APPLICATION-SW-COMPONENT-TYPE>',
    'no period': '<APPLICATION-SW-COMPONENT-TYPE>' + NAME + '<INTERNAL-BEHAVIORS><SWC-INTERNAL-BEHAVIOR><SHORT-NAME>B</SHORT-NAME><EVENTS>'
        '<TIMING-EVENT><SHORT-NAME>t</SHORT-NAME><PERIOD>x</PERIOD></TIMING-EVENT></EVENTS></SWC-INTERNAL-BEHAVIOR></INTERNAL-BEHAVIORS>'
        '</APPLICATION-SW-COMPONENT-TYPE>',
    'not an element of a package': '<DATA-FILTER/>',
    'no limit': '<DATA-CONSTR>' + NAME + '<DATA-CONSTR-RULES><DATA-CONSTR-RULE><INTERNAL-CONSTRS><LOWER-LIMIT>zz</LOWER-LIMIT></INTERNAL-CONSTRS>'
        '</DATA-CONSTR-RULE></DATA-CONSTR-RULES></DATA-CONSTR>',
    'initial mode without destination': '<MODE-DECLARATION-GROUP>' + NAME + '<INITIAL-MODE-REF>/x</INITIAL-MODE-REF></MODE-DECLARATION-GROUP>',
    'array element without name': '<APPLICATION-ARRAY-DATA-TYPE>' + NAME + '<ELEMENT/></APPLICATION-ARRAY-DATA-TYPE>',
}
HARMLESS = {'unknown element': ('<NO-SUCH-ELEMENT>%s</NO-SUCH-ELEMENT>' % NAME, True), 'comment': ('<!-- remark -->', False)}
HEAD = '<AUTOSAR><AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P</SHORT-NAME><ELEMENTS>'
TAIL = '</ELEMENTS><AR-PACKAGES><AR-PACKAGE><SHORT-NAME>Q</SHORT-NAME></AR-PACKAGE></AR-PACKAGES></AR-PACKAGE></AR-PACKAGES></AUTOSAR>'


def unit(name):
    import autosar.xml
    import autosar.xml.element as el
    return autosar.xml.Writer().write_str_elem(el.Unit(name))


def same_name(name):
    import autosar.xml
    import autosar.xml.element as el
    return autosar.xml.Writer().write_str_elem(el.CompuMethod(name))


def rest_of(text, a, z):
    import autosar.xml
    got = autosar.xml.Reader().read_str(text)
    check([p.name for p in got.packages] == ['P'], 'the package is read')
    p = got.packages[0]
    check([x.name for x in p.elements] == [a, z], 'the other elements are read, in their order')
    check([x.name for x in p.packages] == ['Q'], 'the packages after them are read')
    check(p.find(a) is p.elements[0] and p.find(z) is p.elements[1], 'the elements are found by their names')


def faulty(bad):
    def element(a, z):
        rest_of(HEAD + unit(a) + bad + unit(z) + TAIL, a, z)
        check(not silent(), 'the element that cannot be read is reported')
    return element


def faulty_stops(bad):
    def element(a, z):
        import autosar.xml
        from autosar.xml.exception import ParseError
        check(raises(ParseError, autosar.xml.Reader().read_str, HEAD + unit(a) + bad + unit(z) + TAIL, True), 'reading stops')
    return element


def harmless(other, noticed):
    def element(a, z):
        rest_of(HEAD + unit(a) + other + unit(z) + TAIL, a, z)
        check(silent() != noticed, 'reported when something is left out')
    return element


def used_name(a, z):
    rest_of(HEAD + unit(a) + same_name(a) + unit(z) + TAIL, a, z)
    check(not silent(), 'the second element of a name is reported')


def used_name_stops(a, z):
    import autosar.xml
    from autosar.xml.exception import DuplicateElement
    check(raises(DuplicateElement, autosar.xml.Reader().read_str,
                 HEAD + unit(a) + same_name(a) + unit(z) + TAIL, True), 'reading stops')


def two_names(fn):
    def element(a, z):
        from .api import assume
        assume(a != z and a != 'Q' and z != 'Q')
        fn(a, z)
    return element


# ---------------------------------------------------------------- the namespace
class Tag:
    """Stands for an element: something with a tag."""

    def __init__(self, tag):
        self.tag = tag


class Tree:
    def __init__(self, tags):
        self.tags = tags

    def iter(self):
        return self.tags


def namespace(local, foreign):
    import autosar.xml
    ns = 'http://autosar.org/schema/r4.0'
    tags = [Tag('{' + ns + '}' + x) for x in local]
    others = [Tag(x) for x in foreign]
    r = autosar.xml.Reader()
    r.xml_root = Tree(tags + others)
    r._clean_namespace(ns)
    check(equal([t.tag for t in tags], local), 'elements of the namespace have their local names')
    check(equal([t.tag for t in others], foreign), 'other elements keep theirs')


def specs():
    import autosar.xml.reader as r
    out = []

    def doc(nm, fn, version=VERSIONS, *more):
        out.append(Spec(nm, fn, [('packages', PACKAGES), ('version', version)] + list(more), engine=setup, samples=60))
    doc('document', through_text)
    doc('document of any version', through_text, 'nat')
    doc('bare document', through_bare_text)
    doc('file', through_file)
    doc('used reader and writer', used, VERSIONS, ('other', PACKAGES))
    out.append(Spec('contents for several versions', contents, [('name', 'name'), ('path', 'cpath')] + [(x, VERSIONS) for x in ('v1', 'v2', 'v3')], engine=setup, samples=30))
    out.append(Spec('faulty elements', remaining, [('items', ANY)], engine=setup, samples=100))
    out.append(Spec('faulty element first', reported_first, [('bad', ('bad',)), ('after', ANY)], engine=setup, samples=100))
    out.append(Spec('faulty element last', reported_last, [('before', ('list', GOOD)), ('bad', ('bad',))], engine=setup, samples=100))
    out.append(Spec('faulty element, stopping', stops, [('before', ('list', GOOD)), ('bad', ('bad',)), ('after', ANY)], engine=setup, samples=100))
    two = [('a', 'name'), ('z', 'name')]

    def text(nm, fn):
        out.append(Spec(nm, two_names(fn), two, text=True, engine=setup_text, samples=8))
    for nm, bad in FAULTY.items():
        text('text: ' + nm, faulty(bad))
        text('text: %s, stopping' % nm, faulty_stops(bad))
    for nm, (other, noticed) in HARMLESS.items():
        text('text: ' + nm, harmless(other, noticed))
    text('text: used name', used_name)
    text('text: used name, stopping', used_name_stops)
    if callable(getattr(r.Reader, '_clean_namespace', None)):
        out.append(Spec('namespace', namespace, [('local', ('list', 'name')), ('foreign', ('list', 'name'))], samples=40))
    from . import p06
    out += [x for x in p06.specs() if 'Package' in x.name]      # the contract of packages
    return out
