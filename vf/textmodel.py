"""Text mode: the output file is a text (not the abstract tree of xmlmodel), and the parser is a
symbolic XML parser over texts with unknown parts.  Used to discharge the contracts of the writer
primitives that xmlmodel.install_writer assumes.

An unknown part x appears in the output as h(x), where h is the chain of str.replace calls applied
to it.  Every link replaces one character, so h is a homomorphism on texts: h(c1..cn) =
h(c1)..h(cn), and h is the identity on all characters except those the links mention.  Hence
"for every x, the parser reads h(x) back as x" reduces to finitely many characters, which are
checked one by one: those mentioned by a link, those special to XML, and one representative."""
import io

from lxml import etree

from .bdd import TRUE, FALSE
from .values import *

PATH = 'f.arxml'
DIRECTORY = '/d'
SPECIAL = ['&', '<', '>', '"', "'", '\t', '\n', '\r', ' ', 'a', ';', '#', ']']
ENTITY = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"', '&apos;': "'"}


class TextFile:
    def __init__(self, path=None):
        self.buf = ''
        self.path = path
        self.closed = FALSE


class TextFileModel:
    pytype = io.StringIO

    @staticmethod
    def getattr(e, o, name):
        return NMethod(o, name)

    @staticmethod
    def truth(e, o):
        return TRUE

    @staticmethod
    def method(e, o, name, args, kwargs):
        if name == 'getvalue':
            return o.buf
        if name == 'close':
            o.closed = e.b.OR(o.closed, e.pc)
            return None
        if name == 'flush':
            return None
        if name == 'write':
            if e.loops:
                raise Unsupported('output in a generic loop (text mode)')
            e.throw_if(o.closed, ValueError, 'I/O operation on closed file.')
            new = e.concat([o.buf, args[0]])
            o.buf = e.merge(e.pc, new, o.buf, TRUE)
            return None
        raise Unsupported('file.%s' % name)


def chain_of(p):
    """(variable part, [(old, new), ...]) of a part of a text."""
    links = []
    while isinstance(p, Fn) and p.fn == 'replace':
        s, old, new = p.arg
        links.insert(0, (old, new))
        if not isinstance(s, SStr) or len(s.parts) != 1:
            raise Unsupported('replace on a compound text')
        p = s.parts[0]
    return p, links


def image(links, c):
    for old, new in links:
        c = c.replace(old, new)
    return c


def decode_char(text, where):
    """What the parser makes of text (the image of one character) in a text or attribute context;
    None if it is not well-formed there."""
    out, i = '', 0
    while i < len(text):
        c = text[i]
        if c == '&':
            j = text.find(';', i)
            if j < 0:
                return None
            ref = text[i:j + 1]
            if ref in ENTITY:
                out += ENTITY[ref]
            elif ref.startswith('&#x'):
                out += chr(int(ref[3:-1], 16))
            elif ref.startswith('&#'):
                out += chr(int(ref[2:-1]))
            else:
                return None
            i = j + 1
            continue
        if c == '<' or (where == 'attr"' and c == '"') or (where == "attr'" and c == "'"):
            return None
        if c == '\r':
            c = '\n' if where == 'text' else ' '
        elif c in '\t\n' and where != 'text':
            c = ' '
        out += c
        i += 1
    return out


def hole(e, p, where):
    """The parser's reading of an unknown part; raises (symbolically) for the texts it rejects or changes."""
    v, links = chain_of(p)
    if isinstance(v, (IntText, FloatText)):
        return SStr([v])
    if not isinstance(v, StrVar):
        raise Unsupported('text function %r in the output' % (v,))
    for old, new in links:
        if len(old) != 1:
            raise Unsupported('replacement of %r' % old)
    if v.plain:
        if links:
            raise Unsupported('replacement in a plain text')
        return SStr([v])
    chars = list(SPECIAL) + [c for old, _ in links for c in old if old not in SPECIAL] + ['\x85', '\u2028', '\u00e9', '0']
    bad = []
    for c in chars:
        if decode_char(image(links, c), where) != c:
            bad.append(c)
    if where == 'text' and decode_char(image(links, '>'), where) == '>' and image(links, '>') == '>':
        bad.append(']]>')
    for c in bad:
        # the witness: a text containing that character
        w = 'a%sb' % c
        e.throw_if(e.eq(SStr([v]), w), etree.XMLSyntaxError, 'text not preserved: %r' % c)
    return SStr([v])


class Parser:
    def __init__(self, e, s):
        self.e = e
        parts = s.parts if isinstance(s, SStr) else (s,) if s else ()
        self.toks = []
        for p in parts:
            if isinstance(p, str):
                self.toks += list(p)
            else:
                self.toks.append(p)
        self.i = 0

    def bad(self, why):
        self.e.throw(etree.XMLSyntaxError, why)

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def at(self, s):
        return self.toks[self.i:self.i + len(s)] == list(s)

    def space(self):
        while isinstance(self.peek(), str) and self.peek() in ' \t\r\n':
            self.i += 1

    def name(self):
        out = ''
        while isinstance(self.peek(), str) and (self.peek().isalnum() or self.peek() in '-_:.'):
            out += self.peek()
            self.i += 1
        if not isinstance(self.peek(), str):
            if self.peek() is None:
                self.bad('end of text in a tag')
            raise Unsupported('unknown text in a tag')
        if not out:
            self.bad('name expected')
        return out

    def document(self):
        if self.at('<?xml'):
            while not self.at('?>'):
                if self.peek() is None:
                    self.bad('declaration')
                self.i += 1
            self.i += 2
        self.space()
        r = self.element()
        self.space()
        if self.peek() is not None:
            self.bad('content after the root')
        return r

    def element(self):
        if self.peek() != '<':
            self.bad('element expected')
        self.i += 1
        tag = self.name()
        attrs = []
        while True:
            sp = self.i
            self.space()
            if self.at('/>'):
                self.i += 2
                return (tag, tuple(attrs), ())
            if self.at('>'):
                self.i += 1
                break
            if sp == self.i:
                self.bad('space expected')
            n = self.name()
            if any(a[0] == n for a in attrs):
                self.bad('duplicate attribute')
            if not self.at('='):
                self.bad('= expected')
            self.i += 1
            q = self.peek()
            if not isinstance(q, str) or q not in '"\'':
                self.bad('quote expected')
            self.i += 1
            val = []
            lit = ''
            while True:
                c = self.peek()
                if c is None:
                    self.bad('end of text in an attribute')
                self.i += 1
                if isinstance(c, str):
                    if c == q:
                        break
                    lit += c
                else:
                    val += [self.lit(lit, 'attr' + q), hole(self.e, c, 'attr' + q)]
                    lit = ''
            val.append(self.lit(lit, 'attr' + q))
            attrs.append((n, mkstr(val)))
        items, cur, lit = [], [], ''
        while True:
            c = self.peek()
            if c is None:
                self.bad('end of text in %s' % tag)
            if not isinstance(c, str):
                cur += [self.lit(lit, 'text'), hole(self.e, c, 'text')]
                lit = ''
                self.i += 1
                continue
            if c != '<':
                lit += c
                self.i += 1
                continue
            cur.append(self.lit(lit, 'text'))
            lit = ''
            t = mkstr(cur)
            cur = []
            if t != '':
                items.append(t)
            if self.at('</'):
                self.i += 2
                if self.name() != tag:
                    self.bad('mismatched end tag')
                self.space()
                if not self.at('>'):
                    self.bad('> expected')
                self.i += 1
                return (tag, tuple(attrs), tuple(items))
            if self.at('<!--'):
                self.i += 4
                while not self.at('-->'):
                    if self.peek() is None:
                        self.bad('end of text in a comment')
                    if not isinstance(self.peek(), str):
                        raise Unsupported('unknown text in a comment')
                    self.i += 1
                self.i += 3
                items.append((etree.Comment, (), ()))
                continue
            items.append(self.element())

    def lit(self, text, where):
        r = decode_char(text, where)
        if r is None or (where == 'text' and ']]>' in text):
            self.bad('literal text')
        return r


def strip(items):
    """Without the layout: white space between the children of an element."""
    if any(isinstance(x, tuple) for x in items):
        items = tuple(x for x in items if not (isinstance(x, str) and x.strip() == ''))
    return tuple((x[0], x[1], strip(x[2])) if isinstance(x, tuple) else x for x in items)


def install(e):
    from . import engine
    from vfspec import api
    e.native[io.StringIO] = lambda e, a, k: TextFile()
    e.attr_models[TextFile] = TextFileModel

    files = {}

    def fopen(e, args, kwargs):
        kw = dict(zip(('file', 'mode', 'buffering', 'encoding'), args))
        kw.update({k: v for k, g, v in kwargs})
        path = kw.pop('file')
        if not isinstance(path, str) or not (path == PATH or path.startswith(DIRECTORY + '/')) or kw.pop('mode', 'r') != 'w' or str(kw.pop('encoding', None)).lower() not in ('utf-8', 'utf8') or kw:
            raise Unsupported('open(%r, %r)' % (args, kwargs))
        f = TextFile(path)
        files[path] = f if path not in files else e.merge(e.pc, f, files[path], TRUE)
        return f
    e.native[open] = fopen

    def written(e, args, kwargs):
        path = PATH if len(args) < 2 else DIRECTORY + '/' + args[1]
        files.clear()
        e.call(args[0], [PATH if len(args) < 2 else DIRECTORY], [])
        f = files.get(path)
        if f is None and files or len(files) > 1:
            e.throw_if(TRUE, OSError, 'the file is not there, or more than that')
        if f is None or isinstance(f, U):
            raise Unsupported('file that may not be opened')
        # what is not flushed may not be in the file yet
        e.throw_if(e.b.NOT(f.closed), OSError, 'the file is not closed')
        return f.buf
    e.contracts[api.written] = written

    def parsed(e, args, kwargs):
        mixed = len(args) > 1 and args[1]

        def f(s):
            if not isinstance(s, (str, SStr)):
                raise Unsupported('parsing %r' % (s,))
            r = Parser(e, s).document()
            return r if mixed else strip((r,))[0]
        return e.over(args[0], f)
    e.contracts[api.parsed] = parsed
