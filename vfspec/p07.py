"""P07: every text is written so that an XML parser reads it back; the output is well-formed."""
import inspect

from . import Spec
from .api import check, parsed, raises, written


def open_writer():
    import autosar.xml
    w = autosar.xml.Writer()
    w._str_open()
    return w


def text_of(items):
    return items[0] if len(items) == 1 else ''


def content(text):
    w = open_writer()
    w._add_content('TAG', text)
    check(parsed(w.fh.getvalue()) == ('TAG', (), (text,) if text else ()), 'element content is read back as written')


def content_attr(text, a, b):
    w = open_writer()
    w._add_content('TAG', text, [('A', a), ('B-C', b)])
    check(parsed(w.fh.getvalue()) == ('TAG', (('A', a), ('B-C', b)), (text,) if text else ()), 'content and attributes are read back as written')


def content_inline(text, a):
    w = open_writer()
    w._begin_line('P', [('A', a)])
    w._add_content('TAG', text, [('B', a)], inline=True)
    w._end_line('P')
    check(parsed(w.fh.getvalue(), True) == ('P', (('A', a),), (('TAG', (('B', a),), (text,) if text else ()),)), 'inline content is read back as written')


def mixed(t1, t2, t3):
    w = open_writer()
    w._begin_line('P')
    w._add_text(t1)
    w._add_content('E', t2, inline=True)
    w._add_text(t3)
    w._end_line('P')
    check(parsed(w.fh.getvalue(), True) == ('P', (), (t1, ('E', (), (t2,)), t3)), 'mixed content is read back as written')


def nested(t1, t2, a):
    w = open_writer()
    w._add_child('ROOT', [('A', a)])
    w._add_content('FIRST', t1)
    w._add_child('LIST')
    w._add_content('ITEM', t2)
    w._add_child('DEEP', [])
    w._add_content('X')
    w._leave_child()
    w._leave_child()
    w._begin_line('P', [('A', a), ('B', a)])
    w._add_text(t1)
    w._end_line('P')
    w._leave_child()
    check(parsed(w.fh.getvalue()) == (
        'ROOT', (('A', a),), (('FIRST', (), (t1,)), ('LIST', (), (('ITEM', (), (t2,)), ('DEEP', (), (('X', (), ()),)))), ('P', (('A', a), ('B', a)), (t1,)))),
        'nested elements are read back as written')


def deep(n):
    """At each of n levels there is something before and after the inner element."""
    def spec(t, a):
        w = open_writer()
        want = ('X', (), (t,))
        for i in range(n):
            w._add_child('L%d' % i, [('A', a)] if i % 2 else [])
            w._add_content('B', t)
        w._begin_line('X')
        w._add_text(t)
        w._end_line('X')
        for i in range(n - 1, -1, -1):
            w._add_content('E', t, [('A', a)])
            w._leave_child()
            want = ('L%d' % i, (('A', a),) if i % 2 else (), (('B', (), (t,)), want, ('E', (('A', a),), (t,))))
        check(parsed(w.fh.getvalue()) == want, 'nested elements are read back as written')
    return spec


def many_attributes(n):
    def spec(a, b):
        w = open_writer()
        attr = [('A%d' % i, a if i % 2 else b) for i in range(n)]
        w._add_content('TAG', a, attr)
        check(parsed(w.fh.getvalue()) == ('TAG', tuple(attr), (a,)), 'attributes are read back as written')
    return spec


def balance(t):
    """Leaving a child restores the state of the enclosing element."""
    w = open_writer()
    before = (w.indentation_level, w.indentation_str, len(w.tag_stack))
    w._add_child('A')
    w._add_content('B', t)
    w._leave_child()
    check((w.indentation_level, w.indentation_str, len(w.tag_stack)) == before, 'leaving an element restores the state')


def reopen(t1, t2):
    """A writer can be used again: nothing of the first document is left in the second."""
    w = open_writer()
    w._add_child('A')
    w._add_content('B', t1)
    w._str_open()
    w._add_child('C')
    w._add_content('D', t2)
    w._leave_child()
    check(parsed(w.fh.getvalue()) == ('C', (), (('D', (), (t2,)),)), 'a new document starts empty')


def public(make, path):
    """Through the public entry point: the text at `path` of the parsed output is the text given."""
    def spec(t):
        import autosar.xml
        import autosar.xml.element as ar_element
        import autosar.xml.enumeration as ar_enum
        r = parsed(autosar.xml.Writer().write_str_elem(*make(ar_element, ar_enum, t)), True)
        check(find(r, path) == t, 'the text is read back as written')
    return spec


def attributes(node):
    return dict(node[1])


def doc_of(n, m, t):
    import autosar.xml
    import autosar.xml.element as el
    d = autosar.xml.Document()
    p = d.create_package(n)
    p.create_package(m, category=t).append(el.Unit(n, uuid=t))
    p.append(el.SwBaseType('E' + m, category=t))
    return d


def tree_of(n, m, t):
    return ('AR-PACKAGES', (), (('AR-PACKAGE', (), (
        ('SHORT-NAME', (), (n,)),
        ('ELEMENTS', (), (('SW-BASE-TYPE', (), (('SHORT-NAME', (), ('E' + m,)), ('CATEGORY', (), (t,)))),)),
        ('AR-PACKAGES', (), (('AR-PACKAGE', (), (('SHORT-NAME', (), (m,)), ('CATEGORY', (), (t,)), ('ELEMENTS', (), (
            ('UNIT', (('UUID', t),), (('SHORT-NAME', (), (n,)),)),)))),)))),))


def root_checks(r, n, m, t, namespace=True):
    check(r[0] == 'AUTOSAR', 'the root element')
    check(r[2] == (tree_of(n, m, t),), 'the document is read back as written')
    if namespace:
        a = attributes(r)
        check(a['xmlns'] == 'http://autosar.org/schema/r4.0', 'the namespace of AUTOSAR')
        check(a['xmlns:xsi'] == 'http://www.w3.org/2001/XMLSchema-instance', 'the namespace of the schema location')
        check(a['xsi:schemaLocation'] == 'http://autosar.org/schema/r4.0 AUTOSAR_00051.xsd', 'the schema location')
    else:
        check(r[1] == (), 'no attributes')


def document(n, m, t):
    import autosar.xml
    root_checks(parsed(autosar.xml.Writer().write_str(doc_of(n, m, t), False)), n, m, t)
    root_checks(parsed(autosar.xml.Writer().write_str(doc_of(n, m, t))), n, m, t, False)


def document_file(n, m, t):
    import autosar.xml
    w = autosar.xml.Writer()
    d = doc_of(n, m, t)
    root_checks(parsed(written(lambda path: w.write_file(d, path))), n, m, t)


def documents(first):
    """Whatever the writer has written before, a document is written the same."""
    def spec(n, m, t, u):
        import autosar.xml
        import autosar.xml.element as el
        w = autosar.xml.Writer()
        first(w, doc_of(u, n, t), el)
        d = doc_of(n, m, t)
        root_checks(parsed(w.write_str(d)), n, m, t, False)
        root_checks(parsed(written(lambda path: w.write_file(d, path))), n, m, t)
        root_checks(parsed(w.write_str(d, skip_root_attr=False)), n, m, t)
        check(parsed(w.write_str_elem(el.Superscript(t)))[2] == (t,), 'an element after a document')
    return spec


def element_file(n, t):
    import autosar.xml
    import autosar.xml.element as el
    w = autosar.xml.Writer()
    for i in range(2):
        check(parsed(written(lambda path: w.write_file_elem(el.Unit(n, category=t), path))) ==
              ('UNIT', (), (('SHORT-NAME', (), (n,)), ('CATEGORY', (), (t,)))), 'the element is read back as written')


def failed(w, el):
    try:
        w.write_str_elem(None)
    except NotImplementedError:
        pass


def interrupted(write):
    """Writing ends inside the document, at an element of a kind that is never written."""
    def first(w, d, el):
        p = d.packages[0].packages[0]
        p.append(el.ARElement('X' + p.elements[0].name))
        check(raises(NotImplementedError, write, w, d), 'an element of unknown kind is not written')
    return first


FIRST = {
    'a document': lambda w, d, el: w.write_str(d),
    'a document with attributes': lambda w, d, el: w.write_str(d, skip_root_attr=False),
    'an element': lambda w, d, el: w.write_str_elem(d.packages[0]),
    'a file': lambda w, d, el: written(lambda path: w.write_file(d, path)),
    'an element file': lambda w, d, el: written(lambda path: w.write_file_elem(el.Unit('U'), path)),
    'part of a document': interrupted(lambda w, d: w.write_str(d)),
    'part of a file': interrupted(lambda w, d: written(lambda path: w.write_file(d, path))),
    'an object that cannot be written': lambda w, d, el: failed(w, el),
}


def find(node, path):
    for step in path:
        if isinstance(step, str) and step.startswith('@'):
            hits = [v for k, v in node[1] if k == step[1:]]
            return hits[0] if len(hits) == 1 else None
        if step == '#':
            texts = [x for x in node[2] if not isinstance(x, tuple)]
            return texts[0] if len(texts) == 1 else None
        hits = [x for x in node[2] if isinstance(x, tuple) and x[0] == step]
        if len(hits) != 1:
            return None
        node = hits[0]
    return None


PUBLIC = {
    'emphasis': (lambda el, en, t: (el.EmphasisText(t),), ['#']),
    'index entry': (lambda el, en, t: (el.IndexEntry(t),), ['#']),
    'technical term': (lambda el, en, t: (el.TechnicalTerm(t, tex_render=t, type=t),), ['#']),
    'technical term type': (lambda el, en, t: (el.TechnicalTerm('x', tex_render='y', type=t),), ['@TYPE']),
    'technical term rendering': (lambda el, en, t: (el.TechnicalTerm('x', tex_render=t),), ['@TEX-RENDER']),
    'superscript': (lambda el, en, t: (el.Superscript(t),), ['#']),
    'subscript': (lambda el, en, t: (el.Subscript(t),), ['#']),
    'long name': (lambda el, en, t: (el.MultilanguageLongName((en.Language.EN, t)), 'LONG-NAME'), ['L-4', '#']),
    'description': (lambda el, en, t: (el.MultiLanguageOverviewParagraph((en.Language.EN, t)), 'DESC'), ['L-2', '#']),
    'paragraph': (lambda el, en, t: (el.MultiLanguageParagraph((en.Language.EN, t)),), ['L-1', '#']),
    'verbatim': (lambda el, en, t: (el.MultiLanguageVerbatim((en.Language.EN, t)),), ['L-5', '#']),
    'package name': (lambda el, en, t: (el.Package(t),), ['SHORT-NAME', '#']),
    'package category': (lambda el, en, t: (el.Package('P', category=t),), ['CATEGORY', '#']),
    'uuid': (lambda el, en, t: (el.Package('P', uuid=t),), ['@UUID']),
    'scale label': (lambda el, en, t: (el.CompuScale(label=t),), ['SHORT-LABEL', '#']),
    'text constant': (lambda el, en, t: (el.CompuScale(content=el.CompuConst(t)),), ['COMPU-CONST', 'VT', '#']),
    'text value': (lambda el, en, t: (el.TextValueSpecification(value=t),), ['VALUE', '#']),
    'value label': (lambda el, en, t: (el.NumericalValueSpecification(label=t, value=1),), ['SHORT-LABEL', '#']),
    'reference': (lambda el, en, t: (el.SwDataDefPropsConditional(unit_ref=el.UnitRef(t)),), ['UNIT-REF', '#']),
    'native declaration': (lambda el, en, t: (el.SwBaseType('T', native_declaration=t),), ['NATIVE-DECLARATION', '#']),
    'unit display name': (lambda el, en, t: (el.Unit('T', display_name=t),), ['DISPLAY-NAME', '#']),
}


def specs():
    import autosar.xml.writer as w
    out = []
    names = ('_str_open', '_add_content', '_add_child', '_leave_child', '_begin_line', '_end_line', '_add_text')
    sig = [list(inspect.signature(getattr(w.Writer, n)).parameters)[1:] for n in names if hasattr(w.Writer, n)]
    if sig == [[], ['tag', 'content', 'attr', 'inline'], ['tag', 'attr'], [], ['tag', 'attr'], ['tag'], ['text']]:
        out += [
            Spec('content', content, [('text', 'str0')], text=True),
            Spec('content with attributes', content_attr, [('text', 'str0'), ('a', 'str0'), ('b', 'str0')], text=True),
            Spec('inline content', content_inline, [('text', 'str0'), ('a', 'str0')], text=True),
            Spec('mixed content', mixed, [('t1', 'str'), ('t2', 'str'), ('t3', 'str')], text=True),
            Spec('nested elements', nested, [('t1', 'str'), ('t2', 'str'), ('a', 'str0')], text=True),
            Spec('nested to 20 levels', deep(20), [('t', 'str'), ('a', 'str')], text=True, samples=10),
            Spec('nested to 80 levels', deep(80), [('t', 'str'), ('a', 'str')], text=True, samples=10),
            Spec('state restored', balance, [('t', 'str0')], text=True),
            Spec('writer reused', reopen, [('t1', 'str'), ('t2', 'str')], text=True),
        ]
        out += [Spec('%d attributes' % n, many_attributes(n), [('a', 'str'), ('b', 'str')], text=True) for n in range(0, 10)]
    nmt = [('n', 'name'), ('m', 'name'), ('t', 'str')]
    out += [Spec('document', document, nmt, text=True), Spec('document file', document_file, nmt, text=True),
            Spec('element file', element_file, [('n', 'name'), ('t', 'str')], text=True)]
    out += [Spec('document after ' + k, documents(f), nmt + [('u', 'name')], text=True, samples=30) for k, f in FIRST.items()]
    out += [Spec('public: ' + k, public(f, p), [('t', 'str')], text=True, samples=120) for k, (f, p) in PUBLIC.items()]
    return out
