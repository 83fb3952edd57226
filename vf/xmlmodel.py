"""Ghost XML documents: contracts of the writer's output primitives and of lxml's element API.

The writer's primitives are given contracts over a ghost document (a tree of XNode under
construction and a stack of open elements).  The reader side sees the same tree through the element
API of lxml (tag, text, tail, attrib, find, findall, iteration).  That an XML parser, given the
bytes the primitives write, yields this tree is property P07's obligation (proved there on the real
primitives), plus the trusted axiom that lxml implements XML 1.0.

Nodes written by a function under contract for an unopened object carry that object as payload; the
reader function under contract returns a decoded copy of it.
"""
import io
import lxml.etree as etree

from .bdd import TRUE, FALSE
from .values import *
from .engine import MISSING


class XNode:
    def __init__(self, e, tag):
        self.oid = e.new_oid()
        self.birth = e.pc
        self.tag = tag
        self.attrs = SDict(e.new_oid(), e.pc)
        self.items = e.new_list()
        self.items.xml = True
        self.parent = None
        self.payload = None
        self.writer = None
        self.fill = None
        self.ns = None          # namespace its subtree is in (xmlns declared here)
        self.nsdecl = None
        self.reject = None      # an element that cannot be read: guards of the exceptions
        self.block = False      # written on its own line (surrounded by white space)

    def __repr__(self):
        return 'XNode(%s%s)' % (self.tag, ':' + self.payload.cls.__name__ if self.payload is not None else '')


class Cons:
    __slots__ = ('node', 'below')

    def __init__(self, node, below):
        self.node = node
        self.below = below


class GhostFile:
    def __init__(self, e):
        self.root = XNode(e, '#document')
        self.stack = Cons(self.root, None)
        self.closed = FALSE

    def tops(self, e):
        return e.split(self.stack)

    def set_stack(self, e, v):
        self.stack = e.merge(e.pc, v, self.stack, TRUE)


class Doc:
    """The text of a finished ghost document."""

    def __init__(self, file):
        self.file = file


WS = SStr([Fn('ws', 'ws')])


# ---------------------------------------------------------------- contracts of the primitives
def ghost(e, w):
    fh = e.getattr1(w, 'fh') if isinstance(w, SObj) else None
    fh = e.simp(fh)
    return fh if isinstance(fh, GhostFile) else None


def bind(fn, args, kwargs, names):
    """Positional/keyword arguments by the contract's parameter names; None if it does not fit."""
    code = fn.__code__
    params = list(code.co_varnames[:code.co_argcount])[1:]
    vals = {}
    for p, v in zip(params, args[1:]):
        vals[p] = v
    if len(args) - 1 > len(params):
        return None
    for k, g, v in kwargs:
        if g != TRUE:
            return None
        vals[k] = v
    if any(k not in names for k in vals):
        return None
    return vals


def attr_entries(e, node, attr):
    """Record attributes given as a list of (name, value)."""
    if attr is None:
        return
    for g, a in e.split(attr):
        if a is None:
            continue
        pc0 = e.pc
        e.pc = g
        try:
            for en in e.list_entries(a):
                if isinstance(en, Seg):
                    raise Unsupported('attribute sequence')
                h = e.live(en[0])
                if h == FALSE:
                    continue
                e.pc = h
                for g2, t in e.split(en[1]):
                    e.pc = g2
                    if not isinstance(t, tuple) or len(t) != 2:
                        raise Unsupported('attribute %r' % (t,))
                    name, value = t
                    if not isinstance(name, str):
                        raise Unsupported('attribute name')
                    node.attrs.entries.append([name, e.rel(g2, node.birth), value])
                e.pc = g
        finally:
            e.pc = pc0


def to_text(e, v):
    """Text of an attribute value as formatted into the document (f-string semantics)."""
    return e.to_str(v)


def open_node(e, gf, tag, attr, block):
    out = []
    node = XNode(e, tag)
    node.block = block
    attr_entries(e, node, attr)
    pc0 = e.pc
    for en in node.attrs.entries:
        e.pc = e.b.AND(pc0, en[1])
        en[2] = to_text(e, en[2])
    e.pc = pc0
    for g, top in gf.tops(e):
        pc0 = e.pc
        e.pc = g
        node.parent = top.node
        e.list_append(top.node.items, node)
        e.pc = pc0
        out.append((g, Cons(node, top)))
    return node, out


def install_writer(e, writer_cls):
    """Contracts for the writer's output primitives (ensures: effect on the ghost document)."""
    e.native[io.StringIO] = lambda e, a, k: GhostFile(e)
    e.attr_models[GhostFile] = GhostFileModel
    e.attr_models[XNode] = XNodeModel
    e.attr_models[Doc] = DocModel
    e.attr_models[FirstOf] = FirstModel
    e.attr_models[Attrib] = AttribModel

    def contract(name, names):
        def deco(h):
            fn = None
            for c in writer_cls.__mro__:
                if name in c.__dict__:
                    fn = c.__dict__[name]
                    break
            if fn is None or not hasattr(fn, '__code__'):
                return h

            def handler(e, args, kwargs):
                gf = ghost(e, args[0])
                if gf is None:
                    return NotImplemented
                v = bind(fn, args, kwargs, names)
                if v is None:
                    return NotImplemented
                return h(e, gf, v)
            e.contracts[fn] = handler
            return h
        return deco

    def simple_tag(t):
        return isinstance(t, str)

    def lift_tag(e, gf, v, f):
        t = e.simp(v.get('tag'))
        if isinstance(t, U):
            return e.over(t, lambda x: f(e, gf, dict(v, tag=x)))
        if not isinstance(t, str):
            raise Unsupported('symbolic tag %r' % (t,))
        return f(e, gf, dict(v, tag=t))

    def push(e, gf, v, block):
        def f(e, gf, v):
            node, tops = open_node(e, gf, v['tag'], v.get('attr'), block)
            gf.set_stack(e, e.mkU(tops))
            return None
        return lift_tag(e, gf, v, f)

    @contract('_add_child', ('tag', 'attr'))
    def add_child(e, gf, v):
        return push(e, gf, v, True)

    @contract('_begin_line', ('tag', 'attr'))
    def begin_line(e, gf, v):
        return push(e, gf, v, True)

    def pop(e, gf, tag=None):
        alts = []
        for g, top in gf.tops(e):
            if top.below is None:
                raise Unsupported('end tag without start tag')
            if tag is not None:
                if top.node.tag != tag:
                    raise Unsupported('mismatched end tag %s/%s' % (top.node.tag, tag))
            alts.append((g, top.below))
        gf.set_stack(e, e.mkU(alts))

    @contract('_leave_child', ())
    def leave_child(e, gf, v):
        pop(e, gf)
        return None

    @contract('_end_line', ('tag',))
    def end_line(e, gf, v):
        t = e.simp(v['tag'])
        if not isinstance(t, str):
            raise Unsupported('symbolic tag')
        pop(e, gf, t)
        return None

    @contract('_add_content', ('tag', 'content', 'attr', 'inline'))
    def add_content(e, gf, v):
        def f(e, gf, v):
            inline = e.simp(v.get('inline', False))
            if not isinstance(inline, bool):
                raise Unsupported('symbolic inline flag')
            content = v.get('content', '')
            for g, c in e.split(content):
                if not isinstance(c, (str, SStr)):
                    e.throw_if(g, AssertionError)
            content = e.simp(content)
            node, tops = open_node(e, gf, v['tag'], v.get('attr'), not inline)
            for g, c in e.split(content):
                if c == '':
                    continue
                pc0 = e.pc
                e.pc = g
                e.list_append(node.items, c)
                e.pc = pc0
            return None
        return lift_tag(e, gf, v, f)

    def add_text(e, gf, v):
        text = v.get('text', v.get('content'))
        for g, c in e.split(text):
            if not isinstance(c, (str, SStr)):
                return NotImplemented
        for g, top in gf.tops(e):
            pc0 = e.pc
            e.pc = g
            e.list_append(top.node.items, e.simp(text))
            e.pc = pc0
        return None

    @contract('_add_inline_text', ('text',))
    def add_inline_text(e, gf, v):
        t = e.simp(v['text'])
        if not isinstance(t, str) or any(c in t for c in '&<>\r'):
            raise Unsupported('raw text written outside the primitives')
        return add_text(e, gf, v)

    contract('_add_text', ('text', 'content'))(add_text)

    @contract('_add_line', ('text',))
    def add_line(e, gf, v):
        t = e.simp(v['text'])
        if isinstance(t, str) and t.startswith('<?xml') and all(c.below is None for _, c in gf.tops(e)):
            return None
        raise Unsupported('raw line written outside the primitives')


class GhostFileModel:
    pytype = io.StringIO

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def truth(e, o):
        return TRUE

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name == 'getvalue':
            for g, top in o.tops(e):
                if top.below is not None:
                    raise Unsupported('document text taken with open elements')
            return Doc(o)
        if name in ('close', '__exit__'):
            o.closed = e.b.OR(o.closed, e.pc)
            return None
        if name == '__enter__':
            return o
        if name == 'flush':
            return None
        if name == 'write':
            raise Unsupported('raw output outside the primitives')
        raise Unsupported('file.%s' % name)


class DocModel:
    pytype = str

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def truth(e, o):
        return TRUE

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name == 'encode':
            return o
        raise Unsupported('document text method %s' % name)


# ---------------------------------------------------------------- element API
def ensure(e, n):
    if n.fill is not None:
        f = n.fill
        n.fill = None
        n.payload_done = True
        f(n)


def is_node(v):
    return isinstance(v, XNode)


def filter_nodes(e, entries, pred=None):
    out = []
    for en in entries:
        if isinstance(en, Seg):
            sub = filter_nodes(e, en.entries, pred)
            if sub:
                out.append(Seg(en.src, sub))
        else:
            g, v = en
            if is_node(v) and (pred is None or pred(v)):
                out.append((g, v))
    return out


def children(e, n):
    ensure(e, n)
    return filter_nodes(e, e.list_entries(n.items))


def text_entries_before_node(e, n):
    """Alternatives (guard, text or None) of the character data before the first child element."""
    ensure(e, n)
    active = [(TRUE, None)]
    done = []
    for en in e.list_entries(n.items):
        if not active:
            break
        if isinstance(en, Seg):
            first = en.entries[0] if en.entries else None
            cover = FALSE
            for x in en.entries:
                if isinstance(x, Seg):
                    raise Unsupported('text of nested mixed content')
                if not is_node(x[1]):
                    break
                if x[1].block:
                    active = [(g, ws(v)) for g, v in active]
                cover = e.b.OR(cover, x[0])
            ne = en.src.nonempty
            if not e.b.implies(e.b.AND(e.pc, ne), cover):
                raise Unsupported('text before a generic element')
            nxt = []
            for g, v in active:
                a, b = e.b.AND(g, ne), e.b.DIFF(g, ne)
                if a != FALSE:
                    done.append((a, v))
                if b != FALSE:
                    nxt.append((b, v))
            active = nxt
            continue
        h, x = en
        nxt = []
        for g, v in active:
            a, b = e.b.AND(g, h), e.b.DIFF(g, h)
            if a != FALSE:
                if is_node(x):
                    done.append((a, ws(v) if x.block else v))
                else:
                    nxt.append((a, x if v is None else e.concat([v, x])))
            if b != FALSE:
                nxt.append((b, v))
        active = nxt
    return e.simp(e.mkU([(g, v) for g, v in done + active]))


def ws(v):
    return WS if v is None else mkstr([v, WS]) if not isinstance(v, U) else v


def find_pos(entries, n):
    for i, en in enumerate(entries):
        if isinstance(en, Seg):
            r = find_pos(en.entries, n)
            if r is not None:
                return [(entries, i)] + r
        elif en[1] is n:
            return [(entries, i)]
    return None


def tail_of(e, n):
    if n.parent is None:
        return None
    path = find_pos(n.parent.items.entries, n)
    if path is None:
        raise Unsupported('tail of a detached element')
    done = []
    entries, i = path[-1]
    active = [(TRUE, None)]

    def walk(ents, active):
        for en in ents:
            if not active:
                break
            if isinstance(en, Seg):
                raise Unsupported('tail before a generic sequence')
            h, x = en
            nxt = []
            for g, v in active:
                a, b = e.b.AND(g, h), e.b.DIFF(g, h)
                if a != FALSE:
                    if is_node(x):
                        done.append((a, ws(v) if x.block else v))
                    else:
                        nxt.append((a, x if v is None else e.concat([v, x])))
                if b != FALSE:
                    nxt.append((b, v))
            active = nxt
        return active
    own = entries[i][0]
    rest = entries[i + 1:]
    # entries for other alternatives of the same element are excluded by the element's own guard
    active = [(own, None)]
    active = walk(rest, active)
    if len(path) > 1:
        if len(path) > 2:
            raise Unsupported('tail in nested generic sequence')
        seg = path[0][0][path[0][1]]
        # next iteration must start with an element
        cover = FALSE
        for x in seg.entries:
            if isinstance(x, Seg) or not is_node(x[1]):
                break
            cover = e.b.OR(cover, x[0])
        if not e.b.implies(e.b.AND(e.pc, seg.src.nonempty), cover):
            raise Unsupported('tail followed by text of the next element')
        # after the last iteration the parent must contain no further text
        for x in path[0][0][path[0][1] + 1:]:
            if isinstance(x, Seg) or not is_node(x[1]):
                raise Unsupported('text after a generic sequence')
    out = done + active
    return e.simp(e.mkU([a for a in out]))


class Attrib:
    def __init__(self, node):
        self.node = node


class AttribModel:
    """lxml's _Attrib: a read-only mapping view."""
    pytype = dict

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def truth(e, o):
        return e.truth1(o.node.attrs)

    @staticmethod
    def contains(e, o, key):
        return e.contains(o.node.attrs, key)

    @staticmethod
    def getitem(e, o, key):
        return e.getitem(o.node.attrs, key)

    @staticmethod
    def iterate(e, o):
        return e.list_entries(o.node.attrs)

    @staticmethod
    def length(e, o):
        from . import builtin_models
        return builtin_models.length(e, o.node.attrs)

    @staticmethod
    def method(e, o, name, args, kwargs):
        from . import builtin_models
        return builtin_models.dict_method(e, o.node.attrs, name, args, kwargs)


class FirstModel:
    pytype = etree._Element

    @staticmethod
    def getattr(e, o, name):
        if name == 'tag':
            return o.tag
        raise Unsupported('%s of the first element of an arbitrary sequence' % name)


class XNodeModel:
    pytype = etree._Element

    @staticmethod
    def getattr(e, o, name):
        if name == 'tag':
            ns = namespace(o)
            return o.tag if ns is None or not isinstance(o.tag, str) or o.tag.startswith('{') else '{%s}%s' % (ns, o.tag)
        if name == 'attrib':
            ensure(e, o)
            return Attrib(o)
        if name == 'text':
            return text_entries_before_node(e, o)
        if name == 'tail':
            return tail_of(e, o)
        if name == 'sourceline':
            return SStr([Fn('repr', 'sourceline')])
        if name in ('find', 'findall', 'get', 'iter', 'iterchildren', 'getchildren', 'findtext', 'items', 'keys', 'values'):
            return NMethod(o, name)
        raise Unsupported('element attribute %s' % name)

    @staticmethod
    def truth(e, o):
        raise Unsupported('truth value of an element')

    @staticmethod
    def length(e, o):
        from . import builtin_models
        l = e.new_list()
        l.entries = children(e, o)
        return builtin_models.length(e, l)

    @staticmethod
    def iterate(e, o):
        return children(e, o)

    @staticmethod
    def getitem(e, o, i):
        l = e.new_list()
        l.entries = children(e, o)
        return e.getitem(l, i)

    @staticmethod
    def select(e, entries, step):
        return filter_nodes(e, entries, (lambda n: isinstance(n.tag, str)) if step == '*' else lambda n: n.tag == step and namespace(n) is None)

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name in ('findall', 'find', 'findtext', 'iterchildren'):
            path = e.simp(args[0]) if args else '*'
            if not isinstance(path, str):
                raise Unsupported('symbolic path')
            if path.startswith('./'):
                path = path[2:]
            steps = path.split('/')
            if any(not s or not s.replace('-', '').replace('_', '').isalnum() and s != '*' for s in steps):
                raise Unsupported('path %r' % path)
            cur = XNodeModel.select(e, children(e, o), steps[0])
            for s in steps[1:]:
                nxt = []

                def expand(ents, g):
                    for en in ents:
                        if isinstance(en, Seg):
                            raise Unsupported('nested path through a generic sequence')
                        h = e.b.AND(g, en[0])
                        if e.live(h) == FALSE:
                            continue
                        for c in XNodeModel.select(e, children(e, en[1]), s):
                            if isinstance(c, Seg):
                                nxt.append(e.guard_seg(c, h))
                            else:
                                nxt.append((e.b.AND(h, c[0]), c[1]))
                expand(cur, TRUE)
                cur = nxt
            if name in ('findall', 'iterchildren'):
                l = e.new_list()
                l.entries = cur
                return l
            # first match
            alts, rest = [], TRUE
            for en in cur:
                if isinstance(en, Seg):
                    raise Unsupported('first of a generic sequence')
                g = e.b.AND(rest, en[0])
                if g != FALSE:
                    alts.append((g, en[1]))
                rest = e.b.DIFF(rest, en[0])
            alts.append((rest, None))
            r = e.simp(e.mkU(alts))
            if name == 'findtext':
                return e.over(r, lambda n: None if n is None else text_entries_before_node(e, n))
            return r
        if name == 'get':
            ensure(e, o)
            from . import builtin_models
            return builtin_models.dict_method(e, o.attrs, 'get', args, kwargs)
        if name == 'getchildren':
            l = e.new_list()
            l.entries = children(e, o)
            return l
        if name in ('items', 'keys', 'values'):
            ensure(e, o)
            from . import builtin_models
            return builtin_models.dict_method(e, o.attrs, name, args, kwargs)
        if name == 'iter':
            l = e.new_list()
            out = []

            def rec(n, g):
                out.append((g, n))
                for en in children(e, n):
                    if isinstance(en, Seg):
                        raise Unsupported('iteration over a generic subtree')
                    rec(en[1], e.b.AND(g, en[0]))
            rec(o, TRUE)
            l.entries = out
            return l
        raise Unsupported('element method %s' % name)


def tree(e, t):
    """Element of a parsed literal text."""
    n = XNode(e, t[0])
    for k, v in t[1]:
        n.attrs.entries.append([k, TRUE, v])
    for x in t[2]:
        if isinstance(x, tuple):
            x = tree(e, x)
            x.parent = n
        n.items.entries.append((TRUE, x))
    return n


def namespace(n):
    while n is not None:
        if n.ns is not None:
            return n.ns
        n = n.parent
    return None


def namespaces(e, root):
    """What a parser does with the namespace declarations of the root element."""
    if root.nsdecl is None:
        default, prefixes, rest = None, {}, []
        for k, g, v in root.attrs.entries:
            if k == 'xmlns' or k.startswith('xmlns:'):
                if g != TRUE or not isinstance(v, str):
                    raise Unsupported('conditional namespace')
                if k == 'xmlns':
                    default = v
                else:
                    prefixes[k[6:]] = v
            else:
                rest.append([k, g, v])
        for x in rest:
            p, colon, local = x[0].partition(':')
            if colon and p != 'xml' and not x[0].startswith('{'):
                if p not in prefixes:
                    e.throw(etree.XMLSyntaxError, 'Namespace prefix %s is not defined' % p)
                x[0] = '{%s}%s' % (prefixes[p], local)
        root.attrs.entries[:] = rest
        root.nsdecl = (default,)
    root.ns = root.nsdecl[0]
    return root


def install_namespaces(e, reader_cls):
    """Contract of Reader._clean_namespace(ns): afterwards no tag carries the namespace ns."""
    fn = getattr(reader_cls, '_clean_namespace', None)
    if fn is None:
        return

    def handler(e, args, kwargs):
        if len(args) != 2 or kwargs or not isinstance(args[1], str):
            return NotImplemented
        root = e.simp(e.getattr1(args[0], 'xml_root'))
        roots = [n for g, n in root.alts] if isinstance(root, U) else [root]
        if not all(isinstance(n, XNode) for n in roots):
            return NotImplemented
        for n in roots:
            if n.ns == args[1]:
                n.ns = None
        return None
    e.contracts[fn] = handler


def install_documents(e):
    """api.document_of: a document whose elements stand for arbitrary (also unreadable) ones."""
    from vfspec import api
    import autosar.xml

    def document_of(e, args, kwargs):
        gf = GhostFile(e)
        w = e.new_obj(autosar.xml.Writer)
        w.birth = TRUE
        w.fields['fh'] = gf
        wfns = {}
        for c in e.codec_list:
            if not c.takes:
                wfns.setdefault(c.cls, c.wfn)

        def down(tag):
            node, tops = open_node(e, gf, tag, None, True)
            gf.set_stack(e, e.mkU(tops))
            return node
        down('AUTOSAR')
        down('AR-PACKAGES')
        down('AR-PACKAGE')
        node, _ = open_node(e, gf, 'SHORT-NAME', None, True)
        e.list_append(node.items, 'P')
        down('ELEMENTS')

        def put(v):
            def one(x):
                if not isinstance(x, SObj):
                    raise Unsupported('document of %r' % (x,))
                if x.cls is api.Unreadable:
                    node, _ = open_node(e, gf, 'UNIT', None, True)
                    node.reject = x.sym[1]
                elif x.cls not in wfns or e.contracts[wfns[x.cls]](e, [w, x], []) is NotImplemented:
                    raise Unsupported('document of %s' % x.cls.__name__)
            return e.over(v, one)
        for en in e.list_entries(args[0]):
            if isinstance(en, Seg):
                e.exec_generic(en, put, None, ())
            else:
                pc0 = e.pc
                e.pc = e.b.AND(pc0, en[0])
                put(en[1])
                e.pc = pc0
        for _ in range(4):
            gf.set_stack(e, e.mkU([(g, top.below) for g, top in gf.tops(e)]))
        return Doc(gf)
    e.contracts[api.document_of] = document_of

    def reread(e, args, kwargs):
        path = SStr([StrVar('scratch.path', True)])
        e.call(args[0], [path], [])
        return e.call(args[1], [path], [])
    e.contracts[api.reread] = reread


def install_files(e):
    """Files written through the output primitives and parsed again."""
    import os
    from vfspec import api
    files = []
    configs = []

    class TomlFile:
        def __init__(self, content):
            self.content = content

    class TomlFileModel:
        @staticmethod
        def getattr(e, o, name):
            return NMethod(o, name)

        @staticmethod
        def truth(e, o):
            return TRUE

        @staticmethod
        def method(e, o, name, args, kwargs):
            if name == '__enter__':
                return o
            if name in ('__exit__', 'close'):
                return None
            raise Unsupported('file.%s' % name)
    e.attr_models[TomlFile] = TomlFileModel

    def configured(e, a, k):
        v = StrVar('configuration', True)
        path = SStr([v])
        configs.append((path, a[0]))
        return e.call(a[1], [path], [])

    def load(e, a, k):
        if len(a) != 1 or k or not isinstance(a[0], TomlFile):
            raise Unsupported('tomllib.load')
        return a[0].content
    import tomllib
    e.native[tomllib.load] = load
    e.contracts[api.configured] = configured

    def open_(e, a, k):
        kw = {n: v for n, g, v in k}
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        enc = kw.get('encoding')
        if mode == 'rb' and any(a[0] is p for p, c in configs):
            return TomlFile([c for p, c in configs if p is a[0]][-1])
        if mode != 'w' or not isinstance(enc, str) or enc.lower().replace('_', '-') not in ('utf-8', 'utf8') or e.loops:
            raise Unsupported('open()')
        f = GhostFile(e)
        f.closed = FALSE
        files.append((e.pc, a[0], f))
        return f

    class TreeFile:
        pass

    class TreeModel:
        @staticmethod
        def getattr(e, o, name):
            return NMethod(o, name)

        @staticmethod
        def truth(e, o):
            return TRUE

        @staticmethod
        def method(e, o, name, args, kwargs):
            if name == 'getroot':
                return o.root
            if name != 'parse' or len(args) != 1 or kwargs:
                raise Unsupported('ElementTree.%s' % name)
            o.root = parse_file(e, args[0])
            return o.root

    def parse_file(e, path):
        """The latest file whose path this is; what the paths of the others are is decided under the path condition."""
        left, alts = TRUE, []
        for c, p, f in reversed(files):
            g = e.b.AND(left, c, e.eq(p, path))
            if e.live(g) == FALSE:
                continue
            if e.live(e.b.DIFF(g, f.closed)) != FALSE:
                raise Unsupported('file read while open')
            alts.append((g, Doc(f)))
            left = e.b.DIFF(left, g)
            if e.live(left) == FALSE:
                break
        e.throw_if(left, FileNotFoundError, 'No such file')
        return e.native[etree.fromstring](e, [e.simp(e.mkU(alts))], [])

    def exists(e, a, k):
        g = FALSE
        for c, p, f in files:
            g = e.b.OR(g, e.b.AND(c, e.eq(p, a[0])))
        return e.from_guard(g)

    def in_directory(e, a, k):
        v = StrVar('directory', True)
        v.ident = True          # as a directory: nothing is known about it but that no '/' follows
        return e.call(a[0], [SStr(['/', v])], [])

    def count_files(e, a, k):
        alts = [(TRUE, [])]     # under each guard: different paths
        for c, p, f in files:
            new = []
            for g, seen in alts:
                old = FALSE
                for q in seen:
                    old = e.b.OR(old, e.eq(p, q))
                for h, s in ((e.b.AND(g, e.b.DIFF(c, old)), seen + [p]), (e.b.DIFF(g, e.b.DIFF(c, old)), seen)):
                    if e.live(h) != FALSE:
                        new.append((h, s))
            alts = new
        out = {}
        for g, seen in alts:
            out[len(seen)] = e.b.OR(out.get(len(seen), FALSE), g)
        return e.simp(e.mkU([(g, n) for n, g in out.items()]))
    e.native[os.path.isfile] = exists
    e.native[os.path.exists] = exists
    e.contracts[api.in_directory] = in_directory
    e.contracts[api.count_files] = count_files

    def mktree(e, a, k):
        if a or k:
            raise Unsupported('ElementTree()')
        return TreeFile()

    def parse(e, a, k):
        t = TreeFile()
        t.root = parse_file(e, a[0])
        return t
    e.attr_models[TreeFile] = TreeModel
    e.native[open] = open_
    e.native[etree.ElementTree] = mktree
    e.native[etree.parse] = parse


def install_parser(e):
    def fromstring(e, a, k):
        def f(d):
            if isinstance(d, (str, SStr)):
                from . import textmodel
                return tree(e, textmodel.Parser(e, d).document())
            if not isinstance(d, Doc):
                raise Unsupported('parsing %r' % (d,))
            roots = children(e, d.file.root)
            alts, cov = [], FALSE
            for en in roots:
                if isinstance(en, Seg):
                    raise Unsupported('generic root')
                both = e.b.AND(cov, en[0])
                e.throw_if(both, etree.XMLSyntaxError, 'Extra content at the end of the document')
                alts.append((e.b.DIFF(en[0], cov), en[1]))
                cov = e.b.OR(cov, en[0])
            e.throw_if(e.b.NOT(cov), etree.XMLSyntaxError, 'Document is empty')
            return e.over(e.simp(e.mkU(alts)), lambda n: namespaces(e, n))
        return e.over(a[0], f)
    e.native[etree.fromstring] = fromstring
    e.native[etree.XML] = fromstring

    def mkbytes(e, a, k):
        def f(d):
            if isinstance(d, (Doc, str, SStr)):
                return d
            raise Unsupported('bytes()')
        return e.over(a[0], f)
    e.native[bytes] = mkbytes


# ---------------------------------------------------------------- codec contracts
class Codec:
    """writer function / reader function / class triple under contract."""

    def __init__(self, cls, wfn, rfn, tag, tags):
        self.cls, self.wfn, self.rfn, self.tag, self.tags = cls, wfn, rfn, tag, tags


def params_of(fn):
    c = fn.__code__
    return list(c.co_varnames[:c.co_argcount])


def install_codecs(e, codecs, skip=()):
    """Contracts of the per-class writer and reader functions.

    requires: the argument is exactly of the class.  ensures (writer): exactly one element, with
    the codec's tag, representing the object, is appended to the element being written.
    ensures (reader): given such an element, returns an equal object and reports nothing.
    Both are applied only to objects no code has looked into; each codec's own obligation (P01-P06)
    discharges the contract."""
    from autosar.xml.exception import ParseError
    e.codec_list = codecs
    by_w, by_r = {}, {}
    for c in codecs:
        if c.wfn is not None:
            by_w.setdefault(c.wfn, []).append(c)
        if c.rfn is not None:
            by_r.setdefault(c.rfn, []).append(c)
    for wfn, cs in by_w.items():
        def mk(wfn, cs):
            ps = params_of(wfn)

            def handler(e, args, kwargs):
                if e.codec_off:
                    return NotImplemented
                gf = ghost(e, args[0])
                if gf is None or len(args) < 2:
                    return NotImplemented
                kw = {k: v for k, g, v in kwargs if g == TRUE}
                if len(kw) != len(kwargs):
                    return NotImplemented
                vals = dict(zip(ps, args))
                vals.update(kw)
                elem = e.simp(vals.get(ps[1]))
                if isinstance(elem, U):
                    return e.over(elem, lambda x: e.call(BMethod(wfn, args[0]), [x] + list(args[2:]), kwargs))
                if getattr(e,'dbg',0): print('W', wfn.__name__, elem, getattr(elem,'virgin',None), getattr(elem,'opened_at',''))
                if not isinstance(elem, SObj) or not getattr(elem, 'virgin', False):
                    return NotImplemented
                c = next((c for c in cs if c.cls is elem.cls), None)
                if c is None or elem is e.codec_root:
                    return NotImplemented
                tag = c.tag
                block = True
                for p in ps[2:]:
                    if p == 'tag' and p in vals:
                        tag = e.simp(vals[p])
                    elif p == 'inline':
                        inl = e.simp(vals.get(p, default_of(wfn, p)))
                        if not isinstance(inl, bool):
                            return NotImplemented
                        block = not inl
                    elif p in vals:
                        return NotImplemented
                if not isinstance(tag, str) or (c.tags is not None and tag not in c.tags):
                    return NotImplemented
                node, tops = open_node(e, gf, tag, None, block)
                node.payload = elem
                node.codec = c

                def fill(n):
                    # the contract does not apply to what this code does with the element: look
                    # at what the writer really writes
                    tmp = GhostFile(e)
                    w = e.new_obj(args[0].cls)
                    w.copy_of = args[0]
                    w.birth = TRUE
                    w.fields['fh'] = tmp
                    elem.virgin = False

                    def run():
                        e.call(BMethod(wfn, w), [elem] + list(args[2:]), kwargs)
                    from .symgen import isolated
                    ok = isolated(e, run)
                    if ok != TRUE:
                        e.fill_failures.append((ok, tag))
                    ks = filter_nodes(e, tmp.root.items.entries)
                    if len(ks) != 1 or isinstance(ks[0], Seg) or ks[0][0] != TRUE:
                        raise Unsupported('element written in pieces')
                    m = ks[0][1]
                    n.attrs, n.items = m.attrs, m.items
                    for x in flat_nodes(m.items.entries):
                        x.parent = n
                node.fill = fill
                return None
            return handler
        e.contracts[wfn] = mk(wfn, cs)
    for rfn, cs in by_r.items():
        def mkr(rfn, cs):
            def handler(e, args, kwargs):
                if e.codec_off or len(args) != 2 or kwargs:
                    return NotImplemented
                n = e.simp(args[1])
                if isinstance(n, U):
                    return e.over(n, lambda x: e.call(BMethod(rfn, args[0]), [x], []))
                if isinstance(n, XNode) and n.reject is not None:
                    import autosar.xml.element as el
                    for g, exc in zip(n.reject, (ParseError, KeyError, ValueError, TypeError)):
                        e.throw_if(g, exc, 'unreadable')
                    return e.instantiate(el.DataFilter, [], [])
                if not isinstance(n, XNode) or n.payload is None or n.fill is None:
                    return NotImplemented
                if n.codec not in cs:
                    return NotImplemented
                d = e.new_obj(n.payload.cls)
                d.copy_of = n.payload
                d.fields['parent'] = None
                e.decoded += 1
                return d
            return handler
        e.contracts[rfn] = mkr(rfn, cs)
    e.codec_off = False
    e.codec_root = None
    e.decoded = 0
    e.fill_failures = []


def flat_nodes(entries):
    for en in entries:
        if isinstance(en, Seg):
            yield from flat_nodes(en.entries)
        elif is_node(en[1]):
            yield en[1]


def default_of(fn, p):
    import inspect
    return inspect.signature(fn).parameters[p].default


# ---------------------------------------------------------------- deep equality
def is_text(v):
    return v is None or isinstance(v, (str, SStr))


class Same:
    def __init__(self, e, ignored=('parent', 'default_pattern_format')):
        self.e = e
        self.ignored = ignored
        self.diffs = []       # (guard of difference, path)
        self.depth = 0

    def no(self, g, path):
        self.diffs.append((self.e.b.AND(self.e.pc, g), path))

    def number(self, v):
        if isinstance(v, SObj) and v.cls.__name__ in ('NumericalValue', 'PositiveIntegerValue'):
            return self.e.getattr1(v, 'value')
        return v

    def same(self, a, b, path):
        """Guard (under pc) that a and b are deeply equal."""
        e = self.e
        if a is b:
            return TRUE
        a, b = self.number(a), self.number(b)
        if isinstance(a, U) or isinstance(b, U):
            g = FALSE
            for h, x in e.split(a):
                pc0 = e.pc
                e.pc = h
                try:
                    for k, y in e.split(b):
                        pc1 = e.pc
                        e.pc = k
                        g = e.b.OR(g, e.b.AND(k, self.same(x, y, path)))
                        e.pc = pc1
                except Dead:
                    pass
                e.pc = pc0
            return g
        r = self.same1(a, b, path)
        if r != TRUE and not isinstance(a, (SObj, SList, list, tuple)):
            self.no(e.b.NOT(r), path + ': %r / %r' % (short(a), short(b)))
        return r

    def same1(self, a, b, path):
        e = self.e
        import enum
        if isinstance(a, (bool, enum.Enum)) or isinstance(b, (bool, enum.Enum)):
            return TRUE if a is b else FALSE
        if is_text(a) and is_text(b):
            if a is None:
                a = ''
            if b is None:
                b = ''
            return e.eq(a, b)
        num = (int, float, SInt, SFloat)
        if isinstance(a, num) and isinstance(b, num):
            return e.eq(a, b)
        seq = (SList, list, tuple)
        if isinstance(a, seq) and isinstance(b, seq):
            return self.lists(e.list_entries(a), e.list_entries(b), path)
        if isinstance(a, SObj) and isinstance(b, SObj):
            return self.objs(a, b, path)
        if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
            return self.dicts(a, b, path)
        if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
            raise Unsupported('comparison of opaque values')
        return FALSE

    def dicts(self, a, b, path):
        """Dictionaries filled element by element; keys are derived from the values."""
        e = self.e
        if all(isinstance(x, SDict) and not x.entries for x in (a, b)):
            return self.lists(e.list_entries(a.tail) if a.tail else [], e.list_entries(b.tail) if b.tail else [], path)
        if all(isinstance(x, dict) or not x.tail for x in (a, b)):
            ea = [(TRUE, k, v) for k, v in a.items()] if isinstance(a, dict) else [(g, k, v) for k, g, v in a.entries]
            eb = [(TRUE, k, v) for k, v in b.items()] if isinstance(b, dict) else [(g, k, v) for k, g, v in b.entries]
            return self.lists([(g, (k, v)) for g, k, v in ea], [(g, (k, v)) for g, k, v in eb], path)
        raise Unsupported('dictionary comparison')

    def root(self, o):
        while o.copy_of is not None and set(o.fields) <= {'parent'}:
            o = o.copy_of
        return o

    def objs(self, a, b, path):
        e = self.e
        if self.root(a) is self.root(b):
            return TRUE
        if a.cls is not b.cls:
            self.no(TRUE, '%s: class %s / %s' % (path, a.cls.__name__, b.cls.__name__))
            return FALSE
        self.depth += 1
        if self.depth > 25:
            raise Unsupported('comparison depth')
        from vfspec.api import public_names
        names = public_names(a.cls, list(e.field_names(a)) + list(e.field_names(b)), self.ignored)
        g = TRUE
        for n in names:
            if isinstance(getattr(a.cls, n, None), property):
                x, y = e.getattr1(a, n), e.getattr1(b, n)
            else:
                x, y = e.read_field_raw(a, n), e.read_field_raw(b, n)
            if x is UNDEF:
                x = None
            if y is UNDEF:
                y = None
            g = e.b.AND(g, self.same(undef_none(x), undef_none(y), path + '.' + n))
        self.depth -= 1
        return g

    def lists(self, ea, eb, path):
        e = self.e
        ra, rb = runs(ea), runs(eb)
        # drop Segs that emit nothing
        if len(ra) != len(rb):
            ra, rb = [x for x in ra if x[0] == 'p' or x[1].entries], [x for x in rb if x[0] == 'p' or x[1].entries]
        g = TRUE
        if [x[0] for x in ra] != [x[0] for x in rb]:
            # shapes differ: equal only when the unmatched parts are empty
            sa = [x for x in ra if x[0] == 's']
            sb = [x for x in rb if x[0] == 's']
            if not sb or not sa:
                for side in (sa, sb):
                    for s in side:
                        g = e.b.AND(g, e.b.NOT(e.seq_nonempty([s[1]])))
                pa = [y for x in ra if x[0] == 'p' for y in x[1]]
                pb = [y for x in rb if x[0] == 'p' for y in x[1]]
                g2 = self.plain(pa, pb, path)
                self.no(e.b.NOT(g), path + ': sequence lost')
                return e.b.AND(g, g2)
            raise Unsupported('comparison of differently shaped sequences')
        for x, y in zip(ra, rb):
            if x[0] == 'p':
                g = e.b.AND(g, self.plain(x[1], y[1], path))
            else:
                s, t = x[1], y[1]
                if s.src is not t.src:
                    raise Unsupported('sequences over different sources')
                pc0 = e.pc
                e.pc = e.b.AND(pc0, s.src.nonempty)
                if e.pc != FALSE:
                    inner = self.lists(s.entries, t.entries, path + '[]')
                    g = e.b.AND(g, e.b.OR(e.b.NOT(s.src.nonempty), inner))
                e.pc = pc0
        return g

    def plain(self, a, b, path):
        """Equality of two guarded finite sequences."""
        e = self.e
        a = self.expand(a)
        b = self.expand(b)
        if len(a) == len(b) and all(e.b.AND(e.pc, x[0]) == e.b.AND(e.pc, y[0]) for x, y in zip(a, b)):
            g = TRUE
            for i, (x, y) in enumerate(zip(a, b)):
                pc0 = e.pc
                e.pc = e.b.AND(pc0, x[0])
                if e.pc != FALSE:
                    r = self.same(x[1], y[1], '%s[%d]' % (path, i))
                    g = e.b.AND(g, e.b.OR(e.b.NOT(x[0]), r))
                e.pc = pc0
            return g
        pa, pb = self.positions(a), self.positions(b)
        g = TRUE
        for k in range(max(len(pa), len(pb))):
            x = pa[k] if k < len(pa) else []
            y = pb[k] if k < len(pb) else []
            gx = e.b.OR(*[h for h, _ in x]) if x else FALSE
            gy = e.b.OR(*[h for h, _ in y]) if y else FALSE
            diff = e.b.OR(e.b.DIFF(gx, gy), e.b.DIFF(gy, gx))
            d = e.live(diff)
            if d != FALSE:
                self.no(d, '%s[%d]: presence' % (path, k))
                g = e.b.AND(g, e.b.NOT(d))
            both = e.live(e.b.AND(gx, gy))
            if both != FALSE:
                pc0 = e.pc
                e.pc = both
                r = self.same(e.mkU(x), e.mkU(y), '%s[%d]' % (path, k))
                e.pc = pc0
                g = e.b.AND(g, e.b.OR(e.b.NOT(both), r))
        return g

    def expand(self, entries):
        """Split entries holding unions into entries per alternative; drop dead ones."""
        e = self.e
        out = []
        for g, v in entries:
            l = e.live(g)
            if l == FALSE:
                continue
            out.append((e.b.AND(g, TRUE), v))
        return out

    def positions(self, entries):
        e = self.e
        cnt = [e.pc]
        pos = []
        for g, v in entries:
            new = [FALSE] * (len(cnt) + 1)
            for k, h in enumerate(cnt):
                if h == FALSE:
                    continue
                m = e.b.AND(h, g)
                if m != FALSE:
                    while len(pos) <= k:
                        pos.append([])
                    pos[k].append((m, v))
                    new[k + 1] = e.b.OR(new[k + 1], m)
                new[k] = e.b.OR(new[k], e.b.DIFF(h, g))
            cnt = new
        return pos


def undef_none(v):
    if isinstance(v, U):
        return U([(g, None if x is UNDEF else x) for g, x in v.alts])
    return v


def runs(entries):
    out = []
    for en in entries:
        if isinstance(en, Seg):
            if not out or out[-1][0] == 's':
                out.append(('p', []))
            out.append(('s', en))
        else:
            if not out or out[-1][0] == 's':
                out.append(('p', []))
            out[-1][1].append(en)
    if not out or out[-1][0] == 's':
        out.append(('p', []))
    return out


def short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + '...'


class Identical(Same):
    """Lists of the same objects."""

    def objs(self, a, b, path):
        return TRUE if a is b else FALSE
