"""P13: packages form a consistent tree: unique names, parents, lookup by path."""
from . import Spec
from .api import check, raises, identical


def setup(e):
    """Contracts of find and make_packages for the part of a path that is not looked into (the
    induction hypothesis of the proofs about paths), and distinct names within one list."""
    import autosar.xml.element as el
    from vf.values import SStr, StrVar, SObj, U, mkstr
    from vf.bdd import TRUE, FALSE
    from vf.symgen import run_init, isolated
    e.distinct_keys = True
    found, blocked = {}, {}

    def opaque(args):
        return len(args) == 2 and isinstance(args[1], SStr) and any(isinstance(q, StrVar) and not q.ident for q in args[1].parts) \
            and not any(isinstance(q, str) for q in args[1].parts) and isinstance(args[0], SObj)

    def fresh(cls, name):
        o = SObj(cls, e.new_oid(), TRUE, name)
        isolated(e, lambda: run_init(e, o, [SStr([StrVar(name, True)])]))
        return o

    def state(o, path):
        k = (o.oid, path.parts)
        if k not in found:
            if hasattr(o, 'content'):
                gs = e.choice(4, 'found(%s)' % o.name)
                found[k] = e.mkU(list(zip(gs, [None, None, fresh(el.Package, 'found_package'), fresh(el.Unit, 'found_element')])))
                blocked[k] = gs[0]
            else:
                found[k] = None
        return found[k]

    def find(e, args, kwargs):
        if not opaque(args):
            return NotImplemented
        return state(args[0], args[1])

    def make(e, args, kwargs):
        if not opaque(args):
            return NotImplemented
        o, path = args
        old = state(o, path)
        new = fresh(el.Package, 'made_package')
        bad = blocked.get((o.oid, path.parts), FALSE)      # an element is in the way below
        alts = []
        for g, x in (old.alts if isinstance(old, U) else [(TRUE, old)]):
            if x is None:
                alts.append((g, new))
            elif issubclass(x.cls, el.Package):
                alts.append((g, x))
            else:
                bad = e.b.OR(bad, g)
        # where nothing can be made, what is found stays as it is
        found[(o.oid, path.parts)] = e.merge(e.b.NOT(bad), e.mkU(alts), old, TRUE)
        e.throw_if(bad, KeyError, 'not a package')
        return e.simp(e.mkU(alts))
    for n, h in (('find', find), ('make_packages', make)):
        f = el.Package.__dict__.get(n)
        if f is not None:
            e.contracts[f] = h


def tree(p, k):
    """What can be seen of a package."""
    return p.find(k), len(p.packages), len(p.elements)


def item(el, kind, name):
    return el.Package(name) if kind == 'Package' else getattr(el, kind)(name)


def append_item(kind):
    def spec(p, k, n):
        import autosar.xml.element as el
        import autosar.xml.exception as ar_exception
        x = item(el, kind, n)
        q = el.Package('Q')
        q.append(x)
        before = tree(p, k)
        old = p.find(n)
        if old is None:
            p.append(x)
            check(p.find(n) is x, 'an appended item is found by its name')
            check(x.parent is p, 'the package is the parent of the item')
            check(x.name == n, 'the name is kept')
            npk, nel = (1, 0) if kind == 'Package' else (0, 1)
            if k != n:
                check(p.find(k) is before[0], 'other items are found as before')
            check((len(p.packages), len(p.elements)) == (before[1] + npk, before[2] + nel), 'one item is added')
            check((p.packages if kind == 'Package' else p.elements)[-1] is x, 'the item is added at the end')
        else:
            check(raises(ar_exception.DuplicateElement, p.append, x), 'a second item of the same name is rejected')
            check(tree(p, k) == before, 'the package is unchanged')
            check(p.find(n) is old, 'the package is unchanged')
            check(x.parent is q and x.name == n and q.find(n) is x, 'the rejected item is unchanged')
    return spec


def create(p, k, n):
    before = tree(p, k)
    old = p.find(n)
    if old is None:
        x = p.create_package(n)
        check(x.name == n and x.parent is p and p.find(n) is x, 'the new package is part of the package')
        if k != n:
            check(p.find(k) is before[0], 'other items are found as before')
        check((len(p.packages), len(p.elements)) == (before[1] + 1, before[2]), 'one package is added')
        check(p.packages[-1] is x, 'the package is added at the end')
    else:
        check(raises(ValueError, p.create_package, n), 'a second item of the same name is rejected')
        check(tree(p, k) == before, 'the package is unchanged')
        check(p.find(n) is old, 'the package is unchanged')


def create_in(c, k, n):
    before = (c.find(k), len(c.packages))
    old = c.find(n)
    if old is None:
        x = c.create_package(n)
        check(x.name == n and x.parent is c and c.find(n) is x, 'the new package is part of the collection')
        check(c.find('/' + n) is x, 'the new package is found by its absolute path')
        if k != n:
            check(c.find(k) is before[0], 'other packages are found as before')
        check(len(c.packages) == before[1] + 1 and c.packages[-1] is x, 'the package is added at the end')
    else:
        check(raises(ValueError, c.create_package, n), 'a second package of the same name is rejected')
        check((c.find(k), len(c.packages)) == before and c.find(n) is old, 'the collection is unchanged')


def append_in(c, k, n):
    import autosar.xml.element as el
    x = el.Package(n)
    q = el.PackageCollection([x])
    before = (c.find(k), len(c.packages))
    old = c.find(n)
    if old is None:
        c.append(x)
        check(x.name == n and x.parent is c and c.find(n) is x and c.find('/' + n) is x, 'the package is part of the collection')
        if k != n:
            check(c.find(k) is before[0], 'other packages are found as before')
        check(len(c.packages) == before[1] + 1 and c.packages[-1] is x, 'the package is added at the end')
    else:
        check(raises(ValueError, c.append, x), 'a second package of the same name is rejected')
        check(x.parent is q and x.name == n and q.find(n) is x, 'the rejected package is unchanged')
        check((c.find(k), len(c.packages)) == before and c.find(n) is old, 'the collection is unchanged')


def wrong_item(p, t):
    import autosar.xml.element as el
    before = tree(p, t)
    for x in (None, t, 1, el.UnitRef('/a'), el.ModeDeclaration('x'), [el.Unit('u')]):
        check(raises(TypeError, p.append, x), 'what is no package or element is rejected')
    check(tree(p, t) == before, 'the package is unchanged')


def wrong_package(c, t):
    import autosar.xml.element as el
    before = (c.find(t), len(c.packages))
    for x in (None, t, 1, el.Unit('u'), [el.Package('p')]):
        check(raises(TypeError, c.append, x), 'what is no package is rejected')
    check((c.find(t), len(c.packages)) == before, 'the collection is unchanged')


def find_step(p, n, rest):
    """A path leads to what its rest leads to from the item of its first name."""
    import autosar.xml.element as el
    x = p.find(n)
    check(p.find('/' + n) is x, 'a leading slash is ignored')
    if x is None:
        check(p.find(n + '/' + rest) is None, 'nothing is found below what is not there')
    elif isinstance(x, el.Package):
        check(p.find(n + '/' + rest) is x.find(rest), 'the rest of a path is looked up in the package of its first name')
        check(p.find('/' + n + '/' + rest) is x.find(rest), 'a leading slash is ignored')
    elif isinstance(x, el.Unit):
        check(p.find(n + '/' + rest) is None, 'nothing is found below an element without parts')


def find_by_ref(c, n, m):
    import autosar.xml.element as el
    check(c.find(el.PackageRef('/' + n)) is c.find(n), 'a reference leads to the same as its path')
    check(c.find(el.UnitRef('/' + n + '/' + m)) is c.find(n + '/' + m), 'a reference leads to the same as its path')
    check(raises(TypeError, c.find, None), 'what is no path is rejected')
    check(raises(TypeError, c.find, 1), 'what is no path is rejected')


def attempt(c, path):
    try:
        return c.make_packages(path)
    except KeyError:
        return None


def make_step(p, n, rest):
    import autosar.xml.element as el
    x = p.find(n)
    if x is None or isinstance(x, el.Package):
        path = n + '/' + rest
        old = p.find(path)
        if old is None or isinstance(old, el.Package):
            r = attempt(p, path)
            y = p.find(n)
            if r is None:
                check(old is None and x is not None and y is x, 'only an element in the way stops making packages')
                return
            check(isinstance(y, el.Package) and y.parent is p and y.name == n, 'the first package of the path is there')
            if x is not None:
                check(y is x, 'an existing package is used')
            if old is not None:
                check(r is old, 'an existing package is returned')
            check(isinstance(r, el.Package), 'a package is returned')
            check(p.find(path) is r, 'the package is found under its path')
            check(p.make_packages(path) is r, 'a package is made only once')
        else:
            check(raises(KeyError, p.make_packages, path), 'an element is in the way')
    else:
        before = tree(p, n)
        check(raises(KeyError, p.make_packages, n + '/' + rest), 'an element is in the way')
        check(tree(p, n) == before, 'the package is unchanged')


def make_one(p, k, n):
    import autosar.xml.element as el
    before = tree(p, k)
    x = p.find(n)
    if x is None:
        r = p.make_packages(n)
        check(isinstance(r, el.Package) and r.name == n and r.parent is p and p.find(n) is r, 'the package is made')
        check(len(p.packages) == before[1] + 1 and p.packages[-1] is r and len(p.elements) == before[2], 'one package is added')
        if k != n:
            check(p.find(k) is before[0], 'other items are found as before')
    elif isinstance(x, el.Package):
        check(p.make_packages(n) is x, 'an existing package is returned')
        check(tree(p, k) == before, 'the package is unchanged')
    else:
        check(raises(KeyError, p.make_packages, n), 'an element is in the way')
        check(tree(p, k) == before, 'the package is unchanged')
    check(raises(ValueError, p.make_packages, '/' + n), 'the path is relative to the package')


def make_in(c, n, rest):
    import autosar.xml.element as el
    x = c.find(n)
    path = n + '/' + rest
    old = c.find(path)
    if old is None or isinstance(old, el.Package):
        r = attempt(c, path)
        y = c.find(n)
        if r is None:
            check(old is None and x is not None and y is x, 'only an element in the way stops making packages')
            return
        check(isinstance(y, el.Package) and y.parent is c and y.name == n, 'the first package of the path is there')
        if x is not None:
            check(y is x, 'an existing package is used')
        if old is not None:
            check(r is old, 'an existing package is returned')
        check(isinstance(r, el.Package), 'a package is returned')
        check(c.find(path) is r and c.find('/' + path) is r, 'the package is found under its path')
        check(c.make_packages('/' + path) is r, 'a package is made only once')


def make_several(c, a, b):
    r = c.make_packages('/' + a, b)
    check(isinstance(r, list) and len(r) == 2 and r[0].name == a and r[1].name == b, 'a package for each path')
    check(r[0] is c.find(a) and r[1] is c.find(b), 'the packages are in the collection')
    check(c.make_packages(b) is r[1], 'a single package for a single path')


def order(make):
    def spec(xs):
        import autosar.xml.element as el
        p = make(el)
        for x in xs:
            p.append(x)
        check(identical(p.packages if isinstance(p, el.PackageCollection) else p.elements, xs), 'the items are kept in order')
        for x in xs:
            check(x.parent is p, 'the package is the parent of all its items')
    return spec


def constructed(xs):
    import autosar.xml.element as el
    given = [*xs]
    c = el.PackageCollection(xs)
    check(identical(c.packages, given), 'the packages are kept in order')
    check(identical(xs, given), 'the list that was given is left alone')
    for x in given:
        check(x.parent is c, 'the collection is the parent of all its packages')


def select(xs, a, b):
    import autosar.xml.element as el
    p = el.Package('P')
    for x in xs:
        p.append(x)
    check(identical(list(p.filter(a, b)), [x for x in xs if x.name in (a, b)]), 'the elements of the given names, in order')
    check(list(p.filter()) == [], 'no names, no elements')


def select_regex(pattern):
    def spec(xs):
        import re
        import autosar.xml.element as el
        p = el.Package('P')
        for x in xs:
            p.append(x)
        want = [x for x in xs if re.match(pattern, x.name)]
        check(identical(list(p.filter_regex(pattern)), want), 'the elements whose names match, in order')
        check(identical(list(p.filter_regex(re.compile(pattern))), want), 'the elements whose names match, in order')
        check(raises(TypeError, list_of, p, 1), 'what is no pattern is rejected')
    return spec


def list_of(p, pattern):
    return list(p.filter_regex(pattern))


def history(ops):
    """Any sequence of operations, compared with a plain dictionary of paths."""
    import autosar.xml
    import autosar.xml.element as el
    doc = autosar.xml.Document()
    model = {}
    for op, a, b in ops:
        if op == 0:
            if a in model:
                check(raises(ValueError, doc.create_package, a), 'duplicate rejected')
            else:
                model[a] = doc.create_package(a)
        elif op == 1 and a in model:
            x = el.Unit(b)
            if (a + '/' + b) in model:
                check(raises(Exception, model[a].append, x), 'duplicate rejected')
            else:
                model[a].append(x)
                model[a + '/' + b] = x
        elif op == 2:
            if isinstance(model.get(a + '/' + b), el.Unit):
                check(raises(KeyError, doc.make_packages, a + '/' + b), 'an element is in the way')
            else:
                x = doc.make_packages('/' + a + '/' + b)
                check(model.get(a + '/' + b, x) is x, 'made once')
                model[a + '/' + b] = x
                model[a] = doc.find(a)
        elif op == 3 and a in model:
            x = el.Package(b)
            if (a + '/' + b) in model:
                check(raises(Exception, model[a].append, x), 'duplicate rejected')
            else:
                model[a].append(x)
                model[a + '/' + b] = x
    for k, x in model.items():
        check(doc.find(k) is x and doc.find('/' + k) is x, 'everything is found')
        check(x.name == k.split('/')[-1], 'the name is the last part of the path')
        check(x.parent is (model[k.split('/')[0]] if '/' in k else doc), 'the parent is what contains the item')
        check(str(x.ref()) == '/' + k, 'the reference is the path')
    n = 0
    for p in doc.packages:
        n += 1 + len(p.packages) + len(p.elements)
        check(model.get(p.name) is p, 'nothing else is there')
        for x in p.packages + p.elements:
            check(model.get(p.name + '/' + x.name) is x, 'nothing else is there')
    check(n == len(model), 'everything is there')


PKG = ('package',)
OP = ('or', ('const', 0), ('const', 1), ('const', 2), ('const', 3))


def specs():
    k = dict(engine=setup, samples=150)
    out = [Spec('append %s' % x, append_item(x), [('p', PKG), ('k', 'name'), ('n', 'name')], **k)
           for x in ('Package', 'Unit', 'CompuMethod', 'ApplicationSoftwareComponentType', 'SenderReceiverInterface', 'ConstantSpecification')]
    out += [Spec('create package', create, [('p', PKG), ('k', 'name'), ('n', 'name')], **k),
            Spec('wrong item', wrong_item, [('p', PKG), ('t', 'name')], **k),
            Spec('find in package', find_step, [('p', PKG), ('n', 'name'), ('rest', 'path')], **k),
            Spec('make packages in package', make_step, [('p', PKG), ('n', 'name'), ('rest', 'path')], **k),
            Spec('make one package', make_one, [('p', PKG), ('k', 'name'), ('n', 'name')], **k)]
    for c in ('PackageCollection', 'Document', 'Workspace'):
        d = ('collection', c)
        out += [Spec('%s: create package' % c, create_in, [('c', d), ('k', 'name'), ('n', 'name')], **k),
                Spec('%s: append' % c, append_in, [('c', d), ('k', 'name'), ('n', 'name')], **k),
                Spec('%s: wrong item' % c, wrong_package, [('c', d), ('t', 'name')], **k),
                Spec('%s: find' % c, find_step, [('p', d), ('n', 'name'), ('rest', 'path')], **k),
                Spec('%s: find by reference' % c, find_by_ref, [('c', d), ('n', 'name'), ('m', 'name')], **k),
                Spec('%s: make packages' % c, make_in, [('c', d), ('n', 'name'), ('rest', 'path')], **k),
                Spec('%s: make several packages' % c, make_several, [('c', d), ('a', 'name'), ('b', 'name')], **k)]
    named = lambda c: ('list', ('named', c))
    out += [Spec('order of elements', order(lambda el: el.Package('P')), [('xs', named('Unit'))], **k),
            Spec('order of packages', order(lambda el: el.PackageCollection()), [('xs', named('Package'))], **k),
            Spec('constructed collection', constructed, [('xs', named('Package'))], **k),
            Spec('select by name', select, [('xs', named('Unit')), ('a', 'name'), ('b', 'name')], **k)]
    out += [Spec('select by pattern %s' % r, select_regex(r), [('xs', named('Unit'))], **k) for r in ('A', 'A_', '.*_0$', 'x')]
    out.append(Spec('history', history, [('ops', ('many', ('tuple', OP, 'name', 'name'), 12))], bounded=True, samples=150))
    return out
