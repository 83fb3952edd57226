"""P17: the workspace: packages by role and by key, templates, settings, documents and their configuration."""
from . import Spec
from autosar.xml import template
from .api import check, assume, equal, identical, raises, in_directory, count_files, is_file, configured
from .domains import ELEMENTS
from .p16 import VERSIONS

ROLES = ('ApplicationDataType', 'BaseType', 'ComponentType', 'CompuMethod', 'DataConstraint', 'ImplementationDataType', 'ModeDeclaration',
         'PortInterface', 'Unit', 'Constant')
MEMBERS = ('APPLICATION_DATA_TYPE', 'BASE_TYPE', 'COMPONENT_TYPE', 'COMPU_METHOD', 'DATA_CONSTRAINT', 'IMPLEMENTATION_DATA_TYPE',
           'MODE_DECLARATION', 'PORT_INTERFACE', 'UNIT', 'CONSTANT')
SETTINGS = ('background_event_prefix', 'data_read_access_prefix', 'data_receive_error_event_prefix', 'data_receive_event_prefix',
            'data_receive_point_prefix', 'data_send_point_prefix', 'data_write_access_prefix', 'external_triggering_point_prefix',
            'init_event_prefix', 'internal_triggering_point_prefix', 'mode_access_point_prefix', 'mode_switch_point_prefix',
            'operation_invoked_event_prefix', 'parameter_access_prefix', 'read_local_variable_prefix', 'server_call_point_prefix',
            'swc_mode_manager_error_event_prefix', 'swc_mode_switch_event_prefix', 'timing_event_prefix', 'wait_point_prefix',
            'write_local_variable_prefix')
NAMED = ('or', *[('named', x) for x in ELEMENTS])
GOOD = ('or', *[('obj', x) for x in ELEMENTS])
BASES = ('or', ('const', None), ('const', '/'), 'name', ('tuple', 'cpath'))


def setup(e):
    from . import p16
    p16.setup(e)


# ---------------------------------------------------------------- namespaces
def base_of(base):
    """Base reference of a namespace: none, root, a package below the root, a path (1-tuple)."""
    if base is None or base == '/':
        return base
    return '/' + (base[0] if isinstance(base, tuple) else base)


def under(name, base, rel):
    """Path of a package with the relative path rel."""
    base = base_of(base)
    if base is None:
        base = '/' + name
    return (base if base != '/' else '') + '/' + rel


def workspace():
    import autosar.xml.workspace as w
    return w.Workspace()


def roles(name, base, rel, rel2, own):
    import autosar.xml.enumeration as en
    ws = workspace()
    ws.create_namespace(name, {'BaseType': rel, 'Unit': './' + rel2, '!' + own: rel2, 'Constant': '/' + rel, 'CompuMethod': '.'}, base_of(base))
    get = ws.get_package_ref_by_role
    check(get(name, en.PackageRole.BASE_TYPE) == under(name, base, rel), 'a path is below the base of the namespace')
    check(get(name, en.PackageRole.UNIT) == under(name, base, rel2), 'the path is normalised')
    check(get(name, own) == under(name, base, rel2), 'a role of the user is known under its name')
    check(get(name, en.PackageRole.CONSTANT) == '/' + rel, 'an absolute path is not below the base')
    check(get(name, en.PackageRole.COMPU_METHOD) == (base_of(base) or '/' + name), 'the base itself')
    check(raises(ValueError, get, name, en.PackageRole.PORT_INTERFACE), 'a role that is not mapped is rejected')
    check(raises(ValueError, get, name, 'BaseType') or own == 'BaseType', 'no role of the user')
    check(raises(TypeError, get, name, None) and raises(TypeError, get, name, 1), 'what is no role is rejected')
    check(ws.get_namespace(name).name == name, 'the namespace is found by its name')


def role(i):
    def spec(name, rel, key):
        import autosar.xml.enumeration as en
        ws = workspace()
        ws.create_namespace(name, {key: rel})
        for j, m in enumerate(MEMBERS):
            r = getattr(en.PackageRole, m)
            if i == j:
                check(ws.get_package_ref_by_role(name, r) == '/' + name + '/' + rel, 'the role is mapped')
            else:
                check(raises(ValueError, ws.get_package_ref_by_role, name, r), 'other roles are not')
    return spec


def wrong_role(name, rel):
    ws = workspace()
    check(raises(KeyError, ws.create_namespace, name, {'NoSuchRole': rel}), 'an unknown role is rejected')


def several(a, b, rel, rel2):
    import autosar.xml.enumeration as en
    assume(a != b)
    ws = workspace()
    check(raises(KeyError, ws.get_namespace, a), 'no namespace')
    ws.create_namespace(a, {'BaseType': rel, 'Unit': rel})
    check(raises(KeyError, ws.get_namespace, b) and raises(KeyError, ws.get_package_ref_by_role, b, en.PackageRole.BASE_TYPE), 'no such namespace')
    ws.create_namespace(b, {'BaseType': rel2})
    get = ws.get_package_ref_by_role
    check(get(a, en.PackageRole.BASE_TYPE) == '/' + a + '/' + rel, 'a namespace keeps its packages')
    check(get(b, en.PackageRole.BASE_TYPE) == '/' + b + '/' + rel2, 'each namespace has its packages')
    check(raises(ValueError, get, b, en.PackageRole.UNIT), 'each namespace has its roles')
    ws.create_namespace(a, {'BaseType': rel2})
    check(get(a, en.PackageRole.BASE_TYPE) == '/' + a + '/' + rel2, 'a namespace can be replaced')
    check(raises(ValueError, get, a, en.PackageRole.UNIT), 'the packages of the replaced namespace are not kept')
    check(len(ws.packages) == 0, 'no package is made')


# ---------------------------------------------------------------- packages by key
def package_map(k1, k2, a, b, c):
    import autosar.xml.element as el
    assume(k1 != k2)
    ws = workspace()
    check(raises(RuntimeError, ws.get_package, k1) and raises(RuntimeError, ws.add_element, k1, el.Unit('U'))
          and raises(RuntimeError, ws.find_element, k1, 'U'), 'there is no package map yet')
    ws.create_package_map({k1: a + '/' + b, k2: '/' + c})
    p, q = ws.get_package(k1), ws.get_package(k2)
    check(ws.find('/' + a + '/' + b) is p and ws.find(c) is q, 'the packages are made')
    check(p.name == b and q.name == c and p.parent.name == a and q.parent is ws, 'at their paths')
    check(len(ws.packages) == (1 if a == c else 2), 'other packages are not made')
    check(raises(KeyError, ws.get_package, k1 + k2), 'unknown key')


def package_map_add(k1, k2, a, b, x, y):
    import autosar.xml.element as el
    assume(k1 != k2 and a != b)
    ws = workspace()
    ws.create_package_map({k1: a, k2: b})
    check(ws.find_element(k1, 'X') is None, 'an empty package')
    ws.add_element(k1, x)
    ws.add_element(k2, y)
    p, q = ws.get_package(k1), ws.get_package(k2)
    check(x.parent is p and y.parent is q, 'the package is the parent of the element')
    check(len(p.elements) == 1 and p.elements[0] is x and len(q.elements) == 1 and q.elements[0] is y, 'the element is added to its package')
    check(ws.find_element(k1, x.name) is x and ws.find_element(k2, y.name) is y, 'the element is found')
    check(ws.find('/' + a + '/' + x.name) is x, 'the element is found by its path')
    check(x.name == y.name or ws.find_element(k1, y.name) is None, 'in its package only')
    check(raises(ValueError, ws.add_element, k1, el.Unit(x.name)), 'a used name is rejected')
    check(raises(KeyError, ws.add_element, k1 + k2, el.Unit('V')) and raises(KeyError, ws.find_element, k1 + k2, 'V'), 'unknown key')


def package_map_new(k1, k2, a, b):
    assume(k1 != k2)
    ws = workspace()
    p = ws.make_packages(a)
    ws.create_package_map({k1: a})
    check(ws.get_package(k1) is p, 'an existing package is used')
    ws.create_package_map({k2: b})
    check(ws.get_package(k2) is ws.find(b), 'a new map')
    check(raises(KeyError, ws.get_package, k1), 'replaces the old one')
    check(ws.find(a) is p, 'the packages are still there')


# ---------------------------------------------------------------- templates
class Maker(template.ElementTemplate):
    """Makes the given elements, one at each call; remembers what it was given."""

    def __init__(self, elems, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.elems = elems
        self.calls = []

    def create(self, package, workspace, dependencies, **kwargs):
        self.calls.append((package, workspace, dependencies, kwargs))
        return self.elems[len(self.calls) - 1]


class Free(template.GenericTemplate):
    def __init__(self, result):
        self.result = result
        self.calls = []

    def apply(self, workspace, **kwargs):
        self.calls.append((workspace, kwargs))
        return self.result


def namespace(ws, name, a, b):
    ws.create_namespace(name, {'BaseType': a, '!other': b}, '/')


def make(ws, t, path, x, **kwargs):
    """Applying the template for the first time gives x, in the package."""
    y = ws.apply(t, **kwargs)
    p = ws.find(path)
    check(y is x, 'the element that was made is returned')
    check(p is not None and x.parent is p and p.find(x.name) is x, 'it is in the package')
    check(len(t.calls) == 1 and t.calls[0][0] is p and t.calls[0][1] is ws, 'it is made for the package and the workspace')
    return p


def element_template(ns, a, b, x, y, own):
    import autosar.xml.enumeration as en
    ws = workspace()
    namespace(ws, ns, a, b)
    role, path = ('other', b) if own else (en.PackageRole.BASE_TYPE, a)
    t = Maker([x, y], x.name, ns, role)
    check(t.ref(ws) == '/' + path + '/' + x.name, 'the reference of the element is known before')
    check(ws.find(path) is None, 'nothing is made yet')
    p = make(ws, t, path, x, colour=b)
    check(t.calls[0][2] is None, 'there are no dependencies')
    check(len(t.calls[0][3]) == 1 and t.calls[0][3]['colour'] == b, 'arguments are passed on')
    check(len(p.elements) == 1 and len(p.packages) == 0 and len(ws.packages) == 1, 'nothing else is made')
    check(ws.apply(t) is x and len(t.calls) == 1 and len(p.elements) == 1, 'an element is made only once')
    check(str(x.ref()) == t.ref(ws), 'the reference is the one that was predicted')


def existing(ns, a, b, x, y):
    import autosar.xml.enumeration as en
    ws = workspace()
    namespace(ws, ns, a, b)
    p = ws.make_packages(a)
    p.append(x)
    t = Maker([y], x.name, ns, en.PackageRole.BASE_TYPE)
    check(ws.apply(t) is x and len(t.calls) == 0 and len(p.elements) == 1, 'an existing element is used')


def kept_out(ns, a, b, x, y):
    import autosar.xml.enumeration as en
    ws = workspace()
    namespace(ws, ns, a, b)
    t = Maker([x, y], x.name, ns, en.PackageRole.BASE_TYPE, append_to_package=False)
    check(ws.apply(t) is x, 'the element that was made is returned')
    p = ws.find(a)
    check(p is not None and len(p.elements) == 0, 'it is not put into the package')
    check(x.parent is None, 'nor is the package its parent')
    check(ws.apply(t) is y and len(t.calls) == 2, 'so that another one is made')


def no_element(ns, a, b, n):
    import autosar.xml.enumeration as en
    ws = workspace()
    namespace(ws, ns, a, b)
    check(raises(TypeError, ws.apply, Maker([None], n, ns, en.PackageRole.BASE_TYPE)), 'no element')
    check(raises(TypeError, ws.apply, Maker([n], n, ns, en.PackageRole.BASE_TYPE)), 'not an element')
    check(raises(KeyError, ws.apply, Maker([None], n, ns + 'x', en.PackageRole.BASE_TYPE)), 'no such namespace')
    check(raises(ValueError, ws.apply, Maker([None], n, ns, en.PackageRole.UNIT)), 'no such package')
    check(len(ws.find(a).elements) == 0, 'nothing is added')


def generic_template(a, x):
    ws = workspace()
    t = Free(x)
    check(ws.apply(t, colour=a) is x, 'what the template returns is returned')
    check(len(t.calls) == 1 and t.calls[0][0] is ws and len(t.calls[0][1]) == 1 and t.calls[0][1]['colour'] == a, 'arguments are passed on')
    check(raises(NotImplementedError, ws.apply, x) and raises(NotImplementedError, ws.apply, None), 'what is no template is rejected')


def dependencies(ns, a, b, x, y, z):
    import autosar.xml.enumeration as en
    assume(x.name != y.name and a != b)
    ws = workspace()
    namespace(ws, ns, a, b)
    s = Maker([x, x], x.name, ns, en.PackageRole.BASE_TYPE)
    t = Maker([y, y], y.name, ns, en.PackageRole.BASE_TYPE, [s])
    u = Maker([z, z], z.name, ns, 'other', [s, t])
    p = make(ws, u, b, z)
    q = ws.find(a)
    check(identical(q.elements, [x, y]) and len(p.elements) == 1, 'what the element depends on is made first, once')
    check(len(s.calls) == 1 and s.calls[0][2] is None, 'it depends on nothing')
    d = t.calls[0][2]
    check(len(t.calls) == 1 and len(d) == 1 and d[s.ref(ws)] is x, 'the template is given what it depends on')
    d = u.calls[0][2]
    check(len(d) == 2 and d[s.ref(ws)] is x and d[t.ref(ws)] is y, 'by its references')
    check(ws.apply(t) is y and ws.apply(s) is x and ws.apply(u) is z and len(s.calls) == 1, 'nothing is made again')
    other = workspace()
    namespace(other, ns, a, b)
    check(other.apply(u) is z, 'the element that was made is returned')
    check(identical(other.find(a).elements, [x, y]) and identical(other.find(b).elements, [z]), 'what the element depends on is made in another workspace as well')
    check(raises(TypeError, ws.apply, Maker([z], z.name, ns, 'other', [Free(None)])), 'it only can depend on elements')


# ---------------------------------------------------------------- documents
def read(d, f):
    import os
    import autosar.xml
    path = os.path.join(d, f)
    check(is_file(path), 'the document is written')
    return autosar.xml.Reader().read_file(path)


def rooted(d, how):
    """A workspace that writes below d: 0 set when it is made, 1 set later, 2 not at all."""
    import autosar.xml.workspace as w
    ws = w.Workspace(document_root=d) if how == 0 else w.Workspace()
    if how == 1:
        ws.set_document_root(d)
    return ws


def at(d, f, how):
    import os
    return os.path.join(d, f) if how == 2 else f


def one_document(p, q, f, version, how, path, many):
    """A document with a package at the top."""
    assume(p.name != q.name)

    def run(d):
        ws = rooted(d, how)
        ws.append(q)
        ws.append(p)
        ref = ('/' if path else '') + p.name
        ws.create_document(at(d, f + '.arxml', how), [ref] if many else ref)
        check(count_files(d) == 0, 'nothing is written yet')
        for i in range(2):
            ws.write_documents(version)
            got = read(d, f + '.arxml')
            check(count_files(d) == 1, 'nothing else is written')
            check(got.schema_version == version, 'for the schema version')
            check(equal(got.packages, [p]), 'the document has the package')
            check(identical(ws.packages, [q, p]) and p.parent is ws and q.parent is ws, 'the workspace still has its packages')
            check(ws.find(p.name) is p and ws.find(q.name) is q, 'they are found in it')
    in_directory(run)


def two_packages(p, q, r, f, version, turn):
    """A document with two packages."""
    assume(p.name != q.name and p.name != r.name and q.name != r.name)

    def run(d):
        ws = rooted(d, 0)
        for x in (p, q, r):
            ws.append(x)
        x, y = (q, p) if turn else (p, q)
        ws.create_document(f + '.arxml', [x.name, '/' + y.name, '/' + x.name])
        ws.write_documents(version)
        check(equal(read(d, f + '.arxml').packages, [x, y]), 'the document has the packages, each once, in the order they are given')
        check(identical(ws.packages, [p, q, r]) and p.parent is ws and q.parent is ws and r.parent is ws, 'the workspace still has its packages')
    in_directory(run)


def two_documents(p, q, f, g, version):
    """Documents with a package each, or none."""
    assume(p.name != q.name and f != g)

    def run(d):
        ws = rooted(d, 0)
        ws.append(p)
        ws.append(q)
        ws.create_document(f + '.arxml', '/' + p.name)
        ws.create_document(g + '.arxml', ['/' + q.name])
        ws.create_document(f + g + '.arxml')
        ws.write_documents(version)
        ws.write_documents()
        check(count_files(d) == 3, 'all documents are written')
        a, b, c = read(d, f + '.arxml'), read(d, g + '.arxml'), read(d, f + g + '.arxml')
        check(equal(a.packages, [p]) and equal(b.packages, [q]) and len(c.packages) == 0, 'each document has its packages')
        check(a.schema_version == 51 and b.schema_version == 51 and c.schema_version == 51, 'for the latest schema version')
        check(identical(ws.packages, [p, q]) and p.parent is ws and q.parent is ws, 'the workspace still has its packages')
    in_directory(run)


def nested(p, q, a, b, u, f, version, depth):
    """A document with a package inside other packages: it has these without their other parts."""
    import autosar.xml.element as el
    assume(p.name != q.name and a != b and u.name not in (p.name, q.name, a, b))

    def run(d):
        ws = rooted(d, 0)
        parent = ws.make_packages(a + '/' + b if depth else a)
        parent.append(p)
        parent.append(q)
        parent.append(u)
        ref = '/' + a + ('/' + b if depth else '') + '/'
        ws.create_document(f + '.arxml', [ref + q.name, ref + p.name])
        for i in range(2):
            ws.write_documents(version)
            got = read(d, f + '.arxml')
            check(len(got.packages) == 1 and got.packages[0].name == a and len(got.packages[0].elements) == 0, 'the outer package is in the document, without its elements')
            x = got.packages[0]
            if depth:
                check(len(x.packages) == 1 and x.packages[0].name == b and len(x.packages[0].elements) == 0, 'so is the inner one')
                x = x.packages[0]
            check(equal(x.packages, [q, p]), 'the packages are at their place, in the order they are given')
            check(identical(parent.packages, [p, q]) and identical(parent.elements, [u]), 'the package in the workspace is unchanged')
            check(p.parent is parent and q.parent is parent and parent.parent is (ws.find(a) if depth else ws), 'and still their parent')
            check(ws.find(ref + p.name) is p, 'the package is found in the workspace')
    in_directory(run)


def no_package(p, u, n, f):
    import autosar.xml.element as el

    def run(d):
        ws = rooted(d, 0)
        ws.make_packages(n).append(u)
        ws.create_document(f + '.arxml', '/' + n + '/' + u.name)
        check(raises(ValueError, ws.write_documents), 'an element is no package')
        ws = rooted(d, 0)
        ws.append(p)
        assume(p.name != n)
        ws.create_document(f + '.arxml', ['/' + p.name, '/' + n])
        check(raises(KeyError, ws.write_documents), 'there is no such package')
        check(count_files(d) == 0, 'nothing is written')
    in_directory(run)


# ---------------------------------------------------------------- document mappings
def no_mapping(u, n, m):
    import autosar.xml.element as el
    assume(u.name != m)

    def run(d):
        ws = rooted(d, 0)
        p = ws.make_packages(n)
        p.append(u)
        ws.create_document_mapping('/' + n + '/' + u.name, type(u), [])
        check(raises(ValueError, ws.write_documents), 'an element is no package')
        ws = rooted(d, 0)
        ws.append(p)
        ws.create_document_mapping('/' + n + '/' + m, type(u), [])
        ws.write_documents()
        check(count_files(d) == 0, 'nothing is written')
        check(identical(p.elements, [u]) and u.parent is p and len(p.packages) == 0, 'and nothing is changed')
    in_directory(run)


def mapping(kinds, single, depth, suffixes, others):
    """One document for each element of the given kinds, with the elements whose names are its name and a suffix.
    others: (place before or after m, kind, suffix) of the other elements."""
    def spec(m, a, b, version):
        import autosar.xml.element as el
        assume(a != b)
        before = [getattr(el, k)(m.name + s) for first, k, s in others if first]
        items = before + [m] + [getattr(el, k)(m.name + s) for first, k, s in others if not first]
        path = '/' + a + ('/' + b if depth else '')

        def run(d):
            ws = rooted(d, 0)
            p = ws.make_packages(path)
            for x in items:
                p.append(x)
            types = tuple([getattr(el, x) for x in kinds])
            ws.create_document_mapping(path, types[0] if single else types, suffixes)
            ws.write_documents(version)
            matching = [x for x in items if isinstance(x, types)]
            check(count_files(d) == len(matching), 'there is one document for each of the elements')
            for x in matching:
                got = read(d, x.name + '.arxml')
                check(got.schema_version == version, 'for the schema version')
                want = [x.name] + [x.name + s for s in ([suffixes] if isinstance(suffixes, str) else suffixes)]
                q = got.packages[0]
                check(len(got.packages) == 1 and q.name == a, 'the package is at its place')
                if depth:
                    check(len(q.packages) == 1 and len(q.elements) == 0 and q.packages[0].name == b, 'inside its outer package')
                    q = q.packages[0]
                check(len(q.packages) == 0, 'without other packages')
                check(equal(q.elements, sorted([y for y in items if y.name in want], key=name_of)),
                      'the document has the element and those of its name with a suffix, by name')
            check(identical(p.elements, items), 'the package in the workspace keeps its elements')
            for y in items:
                check(y.parent is p, 'and is their parent')
            ws.write_documents(version)
            check(identical(p.elements, items) and count_files(d) == len(matching), 'the documents can be written again')
        in_directory(run)
    return spec


def name_of(x):
    return x.name


# ---------------------------------------------------------------- configuration
def config_namespaces(ns, other, base, rel, rel2, own):
    import autosar.xml.enumeration as en
    import autosar.xml.workspace as w
    assume(ns != other)
    first = {'BaseType': rel, '!' + own: rel2}
    if base is not None:
        first['base_ref'] = base_of(base)

    def run(path):
        for ws in (w.Workspace(path), loaded(path)):
            get = ws.get_package_ref_by_role
            check(get(ns, en.PackageRole.BASE_TYPE) == under(ns, base, rel), 'packages are below the base of the namespace')
            check(get(ns, own) == under(ns, base, rel2), 'roles of the user are known')
            check(raises(ValueError, get, ns, en.PackageRole.UNIT), 'other roles are not')
            check(get(other, en.PackageRole.UNIT) == '/' + other + '/' + rel2, 'all namespaces are known')
            check(raises(ValueError, get, ns, 'base_ref') or own == 'base_ref', 'the base is no role')
            check(len(ws.packages) == 0 and len(ws.documents) == 0 and len(ws.document_mappings) == 0, 'nothing else is made')
    configured({'namespace': {ns: first, other: {'UNIT': rel2}}}, run)


def loaded(path):
    ws = workspace()
    ws.load_config(path)
    return ws


def config_documents(p, q, f, g, version, many):
    import autosar.xml.workspace as w
    assume(p.name != q.name and f != g)
    a, b = '/' + p.name, '/' + q.name

    def run(path):
        def inside(d):
            ws = w.Workspace(path, d)
            ws.append(p)
            ws.append(q)
            ws.write_documents(version)
            check(count_files(d) == 2, 'one document for each name')
            x, y = read(d, f + '.arxml'), read(d, g + '.arxml')
            check(equal(x.packages, [q, p] if many else [p]) and equal(y.packages, [q]), 'each document has its packages')
            check(x.schema_version == version and y.schema_version == version, 'for the schema version')
        in_directory(inside)
    configured({'document': {f: {'packages': [b, a] if many else a}, g: {'packages': [b]}}}, run)


def config_mapping(types, suffixes, one):
    """types, suffixes: as in the file; one: elements of the document (kind, suffix)."""
    def spec(n, a, key, version):
        import autosar.xml.element as el
        import autosar.xml.workspace as w
        kinds = [types] if isinstance(types, str) else types
        items = [getattr(el, kinds[0])(n)] + [el.Unit(n + s) for s in ('_A', '_B')]
        config = {'package_ref': '/' + a, 'element_types': types}
        if suffixes is not None:
            config['suffix_filters'] = suffixes

        def run(path):
            def inside(d):
                ws = w.Workspace(path, document_root=d)
                p = ws.make_packages(a)
                for x in items:
                    p.append(x)
                ws.write_documents(version)
                check(count_files(d) == 1, 'one document for each element of the kinds')
                got = read(d, n + '.arxml')
                check(len(got.packages) == 1 and got.packages[0].name == a, 'it has the package')
                check(equal(got.packages[0].elements, [items[i] for i in one]), 'with the elements of the document')
            in_directory(inside)
        configured({'document_mapping': {key: config}}, run)
    return spec


def config_wrong(config):
    def spec(a):
        import autosar.xml.workspace as w

        def run(path):
            check(raises(config[1], w.Workspace, path), 'what makes no sense is rejected')
        configured({'document_mapping': {'m': {k: a if v is a_path else v for k, v in config[0].items()}}}, run)
    return spec


a_path = '/a'


def config_settings(first, second):
    def spec(value, other):
        import autosar.xml.workspace as w

        def run(path):
            s = w.Workspace(path).behavior_settings
            check(s.get_value(first) == value and s.get_value(second) == other, 'the settings are set')
            check(raises(ValueError, s.get_value, 'wait_point_prefix'), 'others are not')
        configured({'behavior': {first: value, second: other}}, run)

        def wrong(path):
            check(raises(KeyError, w.Workspace, path), 'unknown settings are rejected')
        configured({'behavior': {first: value, 'nonsense': other}}, wrong)

        def empty(path):
            ws = w.Workspace(path)
            check(len(ws.namespaces) == 0 and len(ws.documents) == 0 and len(ws.document_mappings) == 0, 'nothing is made')
        configured({}, empty)
    return spec


# ---------------------------------------------------------------- settings
def setting(name, second):
    def spec(value, other):
        ws = workspace()
        s = ws.behavior_settings
        check(raises(ValueError, s.get_value, name), 'a setting that is not set is rejected')
        s.set_value(name, value)
        check(s.get_value(name) == value and getattr(s, name) == value, 'the setting is set')
        check(raises(ValueError, s.get_value, second), 'other settings are not')
        s.update({name: other, second: value})
        check(s.get_value(name) == other and s.get_value(second) == value, 'all settings given are set')
        check(raises(TypeError, s.set_value, name, 1) and raises(TypeError, s.set_value, name, None), 'only texts are accepted')
        check(raises(KeyError, s.set_value, name + 'x', value) and raises(KeyError, s.update, {'nonsense': value}), 'unknown settings are rejected')
        check(s.get_value(name) == other and s.get_value(second) == value, 'nothing is changed')
        check(raises(ValueError, workspace().behavior_settings.get_value, name), 'each workspace has its own settings')
    return spec


def specs():
    import autosar.xml.element as el
    out = []
    out.append(Spec('packages by role', roles, [('name', 'name'), ('base', BASES), ('rel', 'cpath'), ('rel2', 'cpath'), ('own', 'name')], samples=40))
    for i, (r, m) in enumerate(zip(ROLES, MEMBERS)):
        out.append(Spec('role ' + r, role(i), [('name', 'name'), ('rel', 'cpath'), ('key', ('or', ('const', r), ('const', m)))], samples=6))
    out.append(Spec('unknown role', wrong_role, [('name', 'name'), ('rel', 'cpath')], samples=4))
    out.append(Spec('several namespaces', several, [('a', 'name'), ('b', 'name'), ('rel', 'cpath'), ('rel2', 'cpath')], samples=20))
    k = [('k1', 'name'), ('k2', 'name')]
    out.append(Spec('packages by key', package_map, k + [('a', 'name'), ('b', 'name'), ('c', 'name')], samples=40))
    out.append(Spec('elements by key', package_map_add, k + [('a', 'name'), ('b', 'name'), ('x', NAMED), ('y', NAMED)], engine=setup, samples=40))
    out.append(Spec('new package map', package_map_new, k + [('a', 'name'), ('b', 'name')], samples=20))
    t = [('ns', 'name'), ('a', 'name'), ('b', 'name')]
    xy = [('x', NAMED), ('y', NAMED)]
    out.append(Spec('element template', element_template, t + xy + [('own', 'bool')], engine=setup, samples=40))
    out.append(Spec('template of an existing element', existing, t + xy, engine=setup, samples=30))
    out.append(Spec('template of an element kept out', kept_out, t + xy, engine=setup, samples=30))
    out.append(Spec('template without element', no_element, t + [('n', 'name')], samples=10))
    out.append(Spec('generic template', generic_template, [('a', 'str0'), ('x', NAMED)], engine=setup, samples=10))
    out.append(Spec('dependencies', dependencies, t + [('x', NAMED), ('y', ('named', 'SwBaseType')), ('z', ('named', 'ImplementationDataType'))], engine=setup, samples=40))
    how = [('how', ('or', ('const', 0), ('const', 1), ('const', 2)))]
    P = ('called', 'Package')
    version = [('version', VERSIONS)]
    out.append(Spec('document', one_document, [('p', P), ('q', P), ('f', 'name')] + version + how + [('path', 'bool'), ('many', 'bool')], engine=setup, samples=40))
    pq = [('p', P), ('q', P)]
    out.append(Spec('document of two packages', two_packages, pq + [('r', P), ('f', 'name')] + version + [('turn', 'bool')], engine=setup, samples=40))
    out.append(Spec('two documents', two_documents, pq + [('f', 'name'), ('g', 'name')] + version, engine=setup, samples=40))
    out.append(Spec('document of nested packages', nested, pq + [('a', 'name'), ('b', 'name'), ('u', NAMED), ('f', 'name')] + version + [('depth', 'bool')],
                    engine=setup, samples=40))
    out.append(Spec('document without package', no_package, [('p', P), ('u', NAMED), ('n', 'name'), ('f', 'name')], engine=setup, samples=40))
    out.append(Spec('mapping without package', no_mapping, [('u', NAMED), ('n', 'name'), ('m', 'name')], engine=setup, samples=20))
    B, C, U = 'SwBaseType', 'CompuMethod', 'Unit'
    for nm, kinds, single, depth, suffixes, others in (
            ('no suffix', [B], True, False, [], [(True, U, '_x'), (False, B, '_y')]),
            ('one suffix', [B], False, False, '_C', [(True, U, '_C'), (False, B, '_y'), (False, U, '_y_C'), (False, U, 'x')]),
            ('two suffixes', [B, C], False, True, ['_I', '', '_C'], [(True, U, '_C'), (False, U, '_I'), (False, C, '_y'), (False, U, '_y_C')]),
            ('suffix of the same kind', [B], True, True, ['_C', '_C_C'], [(True, B, '_C'), (True, U, '_C_C'), (False, U, '_C_C_C')])):
        out.append(Spec('mapping: ' + nm, mapping(kinds, single, depth, suffixes, others),
                        [('m', ('called', kinds[0])), ('a', 'name'), ('b', 'name')] + version, engine=setup, samples=30))
    out.append(Spec('configured namespaces', config_namespaces, [('ns', 'name'), ('other', 'name'), ('base', BASES), ('rel', 'cpath'), ('rel2', 'cpath'),
                                                                 ('own', 'name')], engine=setup, samples=20))
    out.append(Spec('configured documents', config_documents, pq + [('f', 'name'), ('g', 'name')] + version + [('many', 'bool')], engine=setup, samples=20))
    for i, (types, suffixes, one) in enumerate(((B, None, [0]), (B, '_B', [0, 2]), ([B], ['_B', '_A'], [0, 1, 2]), ([C, B], [], [0]), ([B, C], '_A', [0, 1]))):
        out.append(Spec('configured mapping %d' % i, config_mapping(types, suffixes, one), [('n', 'name'), ('a', 'name'), ('key', 'name')] + version,
                        engine=setup, samples=10))
    R, E = 'package_ref', 'element_types'
    for i, c in enumerate((({E: B}, KeyError), ({R: a_path}, KeyError), ({R: a_path, E: []}, ValueError), ({R: a_path, E: 1}, ValueError),
                           ({R: a_path, E: 'NoSuchElement'}, ValueError), ({R: a_path, E: [B, 'NoSuchElement']}, ValueError),
                           ({R: a_path, E: B, 'suffix_filters': 1}, ValueError))):
        out.append(Spec('wrong mapping %d' % i, config_wrong(c), [('a', 'str')], engine=setup, samples=4))
    out.append(Spec('configured settings', config_settings(SETTINGS[0], SETTINGS[8]), [('value', 'str'), ('other', 'str')], engine=setup, samples=10))
    for i, n in enumerate(SETTINGS):
        out.append(Spec('setting ' + n, setting(n, SETTINGS[i - 1]), [('value', 'str'), ('other', 'str')], samples=4))
    from . import p06
    out += [x for x in p06.specs() if 'Package' in x.name]      # the contract of packages
    return out
