"""Meaning of the layout primitives (api.shaped, api.occurs) on ghost documents."""
from .bdd import TRUE, FALSE
from .values import *
from .engine import MISSING
from .xmlmodel import XNode, children


def shaped(e, node, spec):
    """Guard under which the element has only the attributes and children spec lists, in its order."""
    b = e.b
    attrs, kids = spec
    bad = FALSE
    for k, g, v in node.attrs.entries:
        if not isinstance(k, str):
            raise Unsupported('attribute name')
        if k not in attrs:
            bad = b.OR(bad, g)
    if kids is None:
        return b.NOT(bad)
    mixed, tags = kids
    order = [t[0] for t in tags]
    table = {t[0]: t[1] for t in tags}
    many = {t[0] for t in tags if t[2]}
    seen = []       # (guard, index)

    def one(g, n, seg):
        nonlocal bad
        if n.tag not in table:
            bad = b.OR(bad, g)
            return
        sub = table[n.tag]
        if n.payload is None or n.fill is None:
            if sub is not None:
                bad = b.OR(bad, b.DIFF(g, shaped(e, n, sub)))
        i = order.index(n.tag)
        if not mixed:
            for h, j, s in seen:
                if j > i or (j == i and n.tag not in many):
                    bad = b.OR(bad, b.AND(g, h))
        elif n.tag not in many:
            for h, j, s in seen:
                if j == i:
                    bad = b.OR(bad, b.AND(g, h))
        seen.append((g, i, seg))
        if seg and n.tag not in many:
            bad = b.OR(bad, g)

    def walk(entries, g, seg):
        for en in entries:
            if isinstance(en, Seg):
                n0 = len(seen)
                walk(en.entries, b.AND(g, en.src.nonempty), True)
                # the elements of one iteration precede those of the next
                if not mixed:
                    now = seen[n0:]
                    for h, i, _ in now:
                        for k, j, _ in now:
                            if i > j:
                                # two different elements of the sequence may take the two forms
                                raise_order(h, k)
            else:
                one(b.AND(g, en[0]), en[1], seg)

    def raise_order(h, k):
        nonlocal bad
        bad = b.OR(bad, b.OR(h, k) if b.AND(h, k) == FALSE else b.AND(h, k))
    walk(children(e, node), TRUE, False)
    return b.NOT(bad)


def occurs(e, node, path):
    """Guard under which the element has a descendant at the path."""
    b = e.b
    g = FALSE
    for en in children(e, node):
        if isinstance(en, Seg):
            some = FALSE
            for x in en.entries:
                if isinstance(x, Seg):
                    raise Unsupported('nested sequence')
                if x[1].tag == path[0]:
                    if len(path) > 1:
                        raise Unsupported('path through a sequence')
                    some = b.OR(some, x[0])
            some = b.AND(some, en.src.nonempty)
            if some != FALSE and e.live(b.DIFF(en.src.nonempty, some)) != FALSE:
                raise Unsupported('some element of a sequence')
            g = b.OR(g, some)
        elif en[1].tag == path[0]:
            g = b.OR(g, en[0] if len(path) == 1 else b.AND(en[0], occurs(e, en[1], path[1:])))
    return g


def has_attr(e, node, name):
    g = FALSE
    for k, h, v in node.attrs.entries:
        if k == name:
            g = e.b.OR(g, h)
    return g


def install(e):
    from vfspec import api

    def on(f):
        def contract(e, args, kwargs):
            pc = e.pc
            alts = []
            for g, n in e.split(args[0]):
                if not isinstance(n, XNode):
                    raise Unsupported('layout of %r' % (n,))
                alts.append((g, e.from_guard(f(e, n, args[1]))))
            return e.simp(e.mkU(alts))
        return contract
    e.contracts[api.shaped] = on(shaped)
    e.contracts[api.occurs] = on(lambda e, n, p: occurs(e, n, p.split('/')))
    e.contracts[api.has_attribute] = on(has_attr)
