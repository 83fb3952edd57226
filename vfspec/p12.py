"""P12: elements are written under the tags, attributes and order of the AUTOSAR schema."""
import inspect

from . import Spec
from .api import check, shaped, occurs, has_attribute
from .codecs import CODECS
from .domains import TABLE, APPEND
from .roundtrip import setup


def given(v):
    return v is not None and not (isinstance(v, list) and len(v) == 0)


def is_text(v):
    return isinstance(v, str)


def is_number(v):
    return isinstance(v, (int, float))


def is_rational(v):
    return type(v).__name__ == 'CompuRational'


def is_const(v):
    return type(v).__name__ == 'CompuConst'


def some(v):
    return bool(v)


# places that depend on the kind of a part
KINDS = {
    'CompuConst': [('value', is_text, 'VT'), ('value', is_number, 'V')],
    'CompuScale': [('content', is_rational, 'COMPU-RATIONAL-COEFFS'), ('content', is_const, 'COMPU-CONST')],
    'SwcInternalBehavior': [('port_api_options', some, 'PORT-API-OPTIONS')],
}


def writes(wname, tag, kw, shape, parts, kinds):
    def layout(e):
        import autosar.xml
        import lxml.etree
        w = autosar.xml.Writer()
        w._str_open()
        if tag is not None and kw:
            getattr(w, wname)(e, tag)
        else:
            getattr(w, wname)(e)
        root = lxml.etree.fromstring(w.fh.getvalue())
        check(tag is None or root.tag == tag, 'the element has the tag of its role')
        check(shaped(root, shape), 'tags, attributes and order of the schema')
        for name, place in parts:
            if place.startswith('@'):
                check(has_attribute(root, place[1:]) == given(getattr(e, name)), name + ' is written as attribute ' + place)
            else:
                check(occurs(root, place) == given(getattr(e, name)), name + ' is written as ' + place)
        for name, test, place in kinds:
            check(occurs(root, place) == test(getattr(e, name)), name + ' is written as ' + place)
    return layout


def probe(wname, tag, kw):
    """For tools/freeze_layout.py."""
    def layout(e):
        import autosar.xml
        import lxml.etree
        w = autosar.xml.Writer()
        w._str_open()
        if tag is not None and kw:
            getattr(w, wname)(e, tag)
        else:
            getattr(w, wname)(e)
        root = lxml.etree.fromstring(w.fh.getvalue())
        check(True, 'x')
        has_attribute(root, e)
    return layout


def specs():
    import autosar.xml.writer as w
    from .layout import LAYOUT
    out = []
    if not hasattr(w.Writer(), 'fh') or not hasattr(w.Writer, '_str_open'):
        return out
    for cname, wname, rname, takes, tags in CODECS:
        wf = getattr(w.Writer, wname, None)
        if not callable(wf):
            continue
        ps = list(inspect.signature(wf).parameters.values())[1:]
        if len([p for p in ps if p.default is p.empty]) != (2 if takes else 1):
            continue
        isref = cname not in TABLE and cname not in APPEND
        for tag in tags:
            if (cname, tag) not in LAYOUT:
                continue
            shape, parts = LAYOUT[cname, tag]
            nm = cname if len(tags) == 1 else '%s@%s' % (cname, tag)
            out.append(Spec('layout:' + nm, writes(wname, tag, bool(takes), shape, parts, KINDS.get(cname, [])), [('e', ('ref' if isref else 'obj', cname))],
                            root='e', covers=(wname,), engine=setup))
    return out
