"""Symbolic values from domains, and concretisation of models into recipes."""
import types
import z3

from .bdd import TRUE, FALSE
from .values import *

XMLTAG = 'xmltext'


class SymGen:
    def __init__(self, e, table, append, element_mod, ref_mod, enum_mod, constraints=None):
        self.constraints = constraints or {}
        self.e = e
        self.table = table
        self.append = append
        self.el = element_mod
        self.rf = ref_mod
        self.en = enum_mod
        self.assume = TRUE             # conjunction of constructor preconditions
        self.n = 0
        self.opened = []

    def cls(self, name):
        return getattr(self.el, name)

    def val(self, d, name):
        e = self.e
        if d == 'str':
            v = StrVar(name, True)
            return SStr([v])
        if d == 'word':
            from .builtin_models import assume_word
            v = StrVar(name, True)
            assume_word(e, v)
            return SStr([v])
        if d == 'plain':
            from .builtin_models import assume_word
            v = StrVar(name, True)
            assume_word(e, v)
            v.plain = True
            return SStr([v])
        if d == 'str0':
            return SStr([StrVar(name)])
        if d in ('path', 'cpath'):
            v = StrVar(name, True)      # names separated by '/'
            v.clean = d == 'cpath'
            for pat in ('//',):
                e.b.side.append(z3.Not(z3.Contains(v.z, z3.StringVal(pat))))
            e.b.side.append(z3.Not(z3.PrefixOf(z3.StringVal('/'), v.z)))
            e.b.side.append(z3.Not(z3.SuffixOf(z3.StringVal('/'), v.z)))
            return SStr([v])
        if d == 'name':
            return self.short_name(name)
        if d == 'ident':
            v = StrVar(name, True)
            v.ident = v.word = True
            char = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re('_'))
            e.b.side.append(z3.InRe(v.z, z3.Plus(char)))
            return SStr([v])
        if d == 'int':
            return SInt(z3.Int(name), name=name)
        if d == 'nat':
            v = SInt(z3.Int(name), name=name)
            e.b.side.append(v.z >= 0)
            return v
        if d == 'float':
            from .builtin_models import fresh_float
            return fresh_float(e, name)
        if d == 'bool':
            g = e.b.new_var(name)
            return U([(g, True), (e.b.NOT(g), False)])
        if isinstance(d, str):
            raise Unsupported('domain ' + d)
        k = d[0]
        if k == 'const':
            return d[1]
        if k == 'bad':
            from vfspec import api
            o = SObj(api.Unreadable, e.new_oid(), TRUE, name)
            o.sym = ('bad', e.choice(5, name + '?kind'))
            return o
        if k == 'given':
            return e.named_inputs[name]
        if k == 'given-name':
            return SStr([StrVar(d[1], True)])
        if k == 'enum':
            members = list(getattr(self.en, d[1])) if isinstance(d[1], str) else list(d[1])
            gs = e.choice(len(members), name)
            return e.mkU(list(zip(gs, members)))
        if k == 'opt':
            g = e.b.new_var(name + '?set')
            v = self.val(d[1], name)
            return e.mkU([(g, v), (e.b.NOT(g), None)])
        if k == 'or':
            gs = e.choice(len(d) - 1, name + '?alt')
            return e.mkU([(g, self.val(x, '%s|%d' % (name, i))) for i, (g, x) in enumerate(zip(gs, d[1:]))])
        if k == 'obj':
            return self.obj(d[1], name)
        if k == 'called':
            o = self.obj(d[1], name)
            o.name_arg = self.short_name(name + '.name')
            return o
        if k == 'ref':
            return self.ref(d[1], name)
        if k in ('list', 'list1'):
            elem = None
            ne = TRUE if k == 'list1' else e.b.new_var(name + '?nonempty')
            ln = z3.Int('len_' + name)
            seq = Seq(name, None, SInt(ln, name='len_' + name), ne)
            e.b.side.append(ln >= 0)
            e.b.side.append(e.b.to_z3(ne) == (ln > 0))
            elem = self.val(d[1], name + '[]')
            self.own(elem, seq)
            seq.elem = elem
            l = SList(e.new_oid(), TRUE, [])
            l.name = name
            if e.bound is not None:
                # bounded stand-in: at most `bound` elements, each independent
                l.entries = []
                prev = ne
                vals = [elem] + [self.val(d[1], '%s[%d]' % (name, i)) for i in range(1, e.bound)]
                guards = [ne]
                for i in range(1, e.bound):
                    prev = e.b.AND(prev, e.b.new_var('%s?len>%d' % (name, i)))
                    guards.append(prev)
                l.entries = [(g, v) for g, v in zip(guards, vals)]
                l.sym = ('listb', l.entries[:])
            else:
                l.entries = [Seg(seq, [(TRUE, elem)])]
                l.sym = ('list', ne, elem, seq)
            return l
        if k == 'found':
            return self.found(d[1], d[2] if len(d) > 2 else 1, name)
        if k == 'named':
            x = SObj(self.cls(d[1]), e.new_oid(), TRUE, name)
            key = self.short_name(name + '.name')
            x.sym = ('named', d[1], key)
            isolated(e, lambda: run_init(e, x, [key]))
            return x
        if k == 'many':
            if e.bound is None:
                raise Unsupported('sequence of operations')
            return self.val(('list', d[1]), name)
        if k == 'package':
            return self.package(name, None)
        if k == 'collection':
            return self.collection(d[1], name)
        if k == 'tuple':
            return tuple(self.val(x, '%s.%d' % (name, i)) for i, x in enumerate(d[1:]))
        if k == 'mixed':
            return self.mixed(d[1:], name)
        raise Unsupported('domain %r' % (d,))

    # ------------------------------------------------------------ packages
    def short_name(self, name):
        v = StrVar(name, True)
        v.ident = True
        self.e.b.side.append(z3.Not(z3.Contains(v.z, z3.StringVal('/'))))
        return SStr([v])

    def opaque_list(self, name):
        """A list of unknown, never inspected members."""
        e = self.e
        ln = z3.Int('len_' + name)
        ne = e.b.new_var(name + '?nonempty')
        e.b.side.append(ln >= 0)
        e.b.side.append(e.b.to_z3(ne) == (ln > 0))
        seq = Seq(name, Opaque('member of ' + name), SInt(ln, name='len_' + name), ne)
        l = SList(e.new_oid(), TRUE, [Seg(seq, [(TRUE, seq.elem)])])
        l.name = name
        return l

    def container(self, o, name, make):
        """Arbitrary content: the map from names to members is filled in when it is looked at (two
        looked-up names that are equal yield the same member), the lists are not looked into."""
        e = self.e
        maps = [n for n, v in o.fields.items() if v == 'map']
        if len(maps) != 1:
            raise Unsupported('representation of %s' % o.cls.__name__)
        d = SDict(e.new_oid(), TRUE)
        d.lazy = []
        d.make = make
        o.content = d
        o.fields[maps[0]] = d

    def member(self, parent, kinds):
        def make(d, key):
            out = []
            isolated(self.e, lambda: out.append(make1(d, key)))
            return out[0]

        def make1(d, key):
            e = self.e
            i = len(d.lazy)
            nm = '%s{%d}' % (parent.name, i)
            has = e.b.new_var(nm + '?present')
            gs = e.choice(len(kinds), nm + '?kind')
            alts = []
            for g, k in zip(gs, kinds):
                if k == 'Package':
                    x = self.package(nm, parent, key)
                else:
                    x = SObj(self.cls(k), e.new_oid(), TRUE, nm)
                    x.sym = ('named', k, key)
                    run_init(e, x, [key])
                    x.fields['parent'] = parent
                alts.append((g, x))
            d.lazy.append((key, has, e.mkU(alts)))
            return has, e.mkU(alts)
        return make

    def package(self, name, parent, key=None):
        e = self.e
        if e.bound is not None and parent is None:
            return self.small_package(name)
        cls = self.el.Package
        real = vars(cls('x'))
        want = {'name', 'parent', 'elements', 'packages', 'long_name', 'desc', 'category', 'admin_data', 'introduction', 'annotations', 'uuid'}
        if {n for n in real if not n.startswith('_')} != want or [type(v) for n, v in real.items() if n.startswith('_')] != [dict]:
            raise Unsupported('representation of Package')
        o = SObj(cls, e.new_oid(), TRUE, name)
        for n, v in real.items():
            o.fields[n] = 'map' if isinstance(v, dict) else self.opaque_list('%s.%s' % (name, n)) if isinstance(v, list) else None
        o.fields['name'] = key if key is not None else self.short_name(name + '.name')
        o.fields['parent'] = parent
        o.sym = ('package', 'Package', None)
        self.container(o, name, self.member(o, ('Package', 'Unit', 'ImplementationDataType')))
        return o

    def collection(self, cname, name):
        e = self.e
        import autosar.xml.workspace as ws
        import autosar.xml.document as doc
        cls = getattr(self.el, cname, None) or getattr(doc, cname, None) or getattr(ws, cname)
        if e.bound is not None:
            o = e.instantiate(cls, [], [])
            o.sym = ('collection', cname, None)
            o.name = name
            self.fill(o, name, ('Package',))
            return o
        real = vars(self.el.PackageCollection())
        if {n for n in real if not n.startswith('_')} != {'parent', 'behavior_settings', 'packages'} or \
                [type(v) for n, v in real.items() if n.startswith('_')] != [dict]:
            raise Unsupported('representation of PackageCollection')
        o = e.instantiate(cls, [], [])
        o.name = name
        o.sym = ('collection', cname, None)
        for n, v in real.items():
            if isinstance(v, dict):
                o.fields[n] = 'map'
            elif isinstance(v, list):
                o.fields[n] = self.opaque_list('%s.%s' % (name, n))
        self.container(o, name, self.member(o, ('Package',)))
        return o

    def small_package(self, name, key=None, kinds=('Package', 'Unit', 'ImplementationDataType'), depth=0):
        e = self.e
        o = e.instantiate(self.el.Package, [key if key is not None else self.short_name(name + '.name')], [])
        o.sym = ('package', 'Package', None)
        o.name = name
        self.fill(o, name, kinds, depth)
        return o

    def fill(self, o, name, kinds, depth=0):
        """Bounded content: up to `bound` members appended by the real code."""
        e = self.e
        o.small = []
        names = []
        for i in range(e.bound if depth == 0 else 1):
            nm = '%s{%d}' % (name, i)
            key = self.short_name(nm)
            has = e.b.new_var(nm + '?present')
            gs = e.choice(len(kinds), nm + '?kind')
            alts = []
            for g, k in zip(gs, kinds):
                if k == 'Package':
                    x = self.small_package(nm, key, kinds if depth else ('Package', 'Unit'), depth + 1) if depth < 2 else e.instantiate(self.el.Package, [key], [])
                    x.sym = ('package', 'Package', None)
                    x.small = getattr(x, 'small', [])
                else:
                    x = e.instantiate(self.cls(k), [key], [])
                    x.sym = ('named', k, key)
                alts.append((g, x))
            v = e.mkU(alts)
            for k2 in names:
                self.assume = e.b.AND(self.assume, e.b.NOT(e.eq(key, k2)))
            names.append(key)
            o.small.append((has, key, v))
            pc0 = e.pc
            e.pc = e.b.AND(pc0, has, self.assume)
            e.call(e.getattr1(o, 'append'), [v], [])
            e.pc = pc0

    def found(self, d, n, name):
        """An arbitrary list in which up to n searches find something (see Group)."""
        e = self.e
        if e.bound is not None:
            return self.val(('list', d), name)
        l = SList(e.new_oid(), TRUE, [])
        l.name = name
        group = Group(name, n)
        rec = []
        for i in range(n + 1):
            nm = '%s{%d}' % (name, i)
            ne = e.b.new_var(nm + '?nonempty')
            ln = z3.Int('len_' + nm)
            seq = Seq(nm, None, SInt(ln, name='len_' + nm), ne, group)
            e.b.side.append(ln >= 0)
            e.b.side.append(e.b.to_z3(ne) == (ln > 0))
            seq.elem = self.val(d, nm + '[]')
            self.own(seq.elem, seq)
            l.entries.append(Seg(seq, [(TRUE, seq.elem)]))
            rec.append((ne, seq.elem))
            if i < n:
                g, w = e.b.new_var(nm + '?found'), self.val(d, nm + '!')
                l.entries.append((g, w))
                rec.append((g, w))
        l.sym = ('listb', rec)
        return l

    def own(self, v, seq):
        for _, x in (v.alts if isinstance(v, U) else [(TRUE, v)]):
            if isinstance(x, (SObj, SList)):
                x.owner = seq

    def mixed(self, kinds, name):
        """Mixed content in normal form: [text] (node [text])*, no empty or adjacent texts."""
        e = self.e
        g0 = e.b.new_var(name + '?lead')
        t0 = self.val('str', name + '.lead')
        ne = e.b.new_var(name + '?nonempty')
        ln = z3.Int('len_' + name)
        seq = Seq(name, None, SInt(ln), ne)
        e.b.side.append(ln >= 0)
        e.b.side.append(e.b.to_z3(ne) == (ln > 0))
        node = self.val(('or',) + tuple(kinds) if len(kinds) > 1 else kinds[0], name + '[]')
        self.own(node, seq)
        seq.elem = node
        gt = e.b.new_var(name + '?tail')
        tt = self.val('str', name + '.tail')
        l = SList(e.new_oid(), TRUE, [])
        l.name = name
        if e.bound is not None:
            g2 = e.b.AND(ne, e.b.new_var(name + '?len>1'))
            node2 = self.val(('or',) + tuple(kinds) if len(kinds) > 1 else kinds[0], name + '[1]')
            gt2 = e.b.AND(g2, e.b.new_var(name + '?tail1'))
            tt2 = self.val('str', name + '.tail1')
            l.entries = [(g0, t0), (ne, node), (e.b.AND(ne, gt), tt), (g2, node2), (gt2, tt2)]
            l.sym = ('listb', l.entries[:])
        else:
            l.entries = [(g0, t0), Seg(seq, [(TRUE, node), (gt, tt)])]
            l.sym = ('mixed', g0, t0, ne, node, gt, tt, seq)
        return l

    # ------------------------------------------------------------ objects
    def obj(self, cname, name):
        o = SObj(self.cls(cname), self.e.new_oid(), TRUE, name)
        o.sym = ('obj', cname, None)
        o.lazy = self.open
        o.early = self.early_name
        o.virgin = True
        return o

    def early_name(self, o):
        """The name an object not looked into was constructed with (P11: it is the attribute)."""
        v = getattr(o, 'name_arg', None)
        if v is None:
            ps, _ = self.params(o.sym[0], o.sym[1])
            d = dict(ps).get('name')
            if d not in ('name', 'str', 'word', 'plain') or isinstance(self.e.class_attr(o.cls, 'name'), property):
                return None
            v = o.name_arg = self.val(d, o.name + '.name')
        return v

    def ref(self, cname, name):
        cls = getattr(self.rf, cname, None) or getattr(self.el, cname)
        o = SObj(cls, self.e.new_oid(), TRUE, name)
        o.sym = ('ref', cname, None)
        o.lazy = self.open
        o.virgin = True
        return o

    def params(self, kind, cname):
        if kind == 'ref':
            return self.ref_params(cname), None
        if cname in self.append:
            ps, item = self.append[cname]
            return ps, item
        if cname not in self.table:
            raise Unsupported('no domain for class %s' % cname)
        return self.table[cname], None

    def ref_params(self, cname):
        cls = getattr(self.rf, cname, None) or getattr(self.el, cname)
        import inspect
        ps = list(inspect.signature(cls.__init__).parameters)[1:]
        out = [(ps[0], 'str')]
        if len(ps) > 1:
            dests = self.ref_dests(cls)
            if dests is not None:
                out.append((ps[1], ('enum', dests)))
        return out

    _dests = {}

    def ref_dests(self, cls):
        """Destination kinds a reference class accepts (those its constructor accepts)."""
        key = cls
        if key not in self._dests:
            ok = []
            for m in self.en.IdentifiableSubTypes:
                try:
                    r = cls('/a', m)
                    if r.dest is m:
                        ok.append(m)
                except TypeError as ex:
                    if 'positional argument' in str(ex):
                        ok = None
                        break
                except Exception:
                    pass
            self._dests[key] = ok
        return self._dests[key]

    def open(self, o):
        """Materialise a lazy object: run its real constructor on symbolic arguments."""
        e = self.e
        o.virgin = False
        kind, cname, _ = o.sym
        ps, item = self.params(kind, cname)
        given = getattr(o, 'name_arg', None)
        args = [(p, given if p == 'name' and given is not None else self.val(d, '%s.%s' % (o.name, p))) for p, d in ps]
        # several item kinds: one list each, appended in turn (they end up in different lists)
        kinds = [] if item is None else list(item) if isinstance(item, list) else [item]
        items = [self.val(('list', d), o.name + '.items' + (str(i) if len(kinds) > 1 else '')) for i, d in enumerate(kinds)]
        for _, v in args:
            self.own_deep(v, o.owner)
        for l in items:
            self.own_deep(l, o.owner)
        o.sym = (kind, cname, args, items)
        kept = dict(o.fields)
        o.fields.clear()

        def run():
            init = e.class_attr(o.cls, '__init__')
            if isinstance(init, types.FunctionType):
                e.call(BMethod(init, o), [], [(p, TRUE, v) for p, v in args])
            for l in items:
                m = e.getattr1(o, 'append')
                for en in l.entries:
                    if isinstance(en, Seg):
                        e.exec_generic(en, lambda v: e.call(m, [v], []), None, ())
                    else:
                        pc0 = e.pc
                        e.pc = e.b.AND(pc0, en[0])
                        e.call(m, [en[1]], [])
                        e.pc = pc0
        con = self.constraints.get(cname)
        if con is not None:
            run0 = run

            def run():
                run0()
                g = e.truth(e.call(con, [o], []))
                e.pc = e.b.AND(e.pc, g)
        ok = isolated(e, run)
        self.assume = e.b.AND(self.assume, ok)
        self.opened.append(o)
        for k, v in kept.items():
            o.fields[k] = v
        o.virgin = True          # constructed, not modified since (see Engine.set_field)

    def own_deep(self, v, owner):
        """Mark argument objects as owned by the same generic element as their holder."""
        if owner is None:
            return
        for _, x in (v.alts if isinstance(v, U) else [(TRUE, v)]):
            if isinstance(x, SObj) and x.owner is None:
                x.owner = owner
            elif isinstance(x, SList):
                if getattr(x, 'owner', None) is None:
                    x.owner = owner
                for en in x.entries:
                    if isinstance(en, Seg) and getattr(en.src, 'parent_owner', None) is None:
                        en.src.parent_owner = owner

    # ------------------------------------------------------------ concretisation
    def recipe(self, v, asg):
        """JSON recipe of symbolic value v under the assignment."""
        e = self.e
        if isinstance(v, U):
            for g, x in v.alts:
                if asg.holds(g):
                    return self.recipe(x, asg)
            return self.recipe(v.alts[0][1], asg)
        if v is None:
            return None
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, str)) and not hasattr(v, '_value_'):
            return v
        if hasattr(v, '_value_'):
            return {'enum': type(v).__name__, 'm': v.name}
        if isinstance(v, float):
            return {'float': repr(v)}
        if isinstance(v, SStr):
            return asg.text(v)
        if isinstance(v, SInt):
            return asg.int(v)
        if isinstance(v, SFloat):
            return {'float': repr(asg.float(v))}
        if isinstance(v, tuple):
            return {'tuple': [self.recipe(x, asg) for x in v]}
        if isinstance(v, SList):
            s = getattr(v, 'sym', None)
            if s is None:
                return {'list': [self.recipe(x[1], asg) for x in v.entries if not isinstance(x, Seg) and asg.holds(x[0])]}
            if s[0] == 'list':
                if not asg.holds(s[1]):
                    return {'list': []}
                return {'list': [self.recipe(s[2], asg)], 'rep': asg.length(s[3])}
            if s[0] == 'listb':
                return {'list': [self.recipe(x, asg) for g, x in s[1] if asg.holds(g)]}
            _, g0, t0, ne, node, gt, tt, seq = s
            out = [self.recipe(t0, asg)] if asg.holds(g0) else []
            if asg.holds(ne):
                out.append(self.recipe(node, asg))
                if asg.holds(gt):
                    out.append(self.recipe(tt, asg))
            return {'list': out}
        if isinstance(v, SObj):
            s = getattr(v, 'sym', None)
            if s is None:
                return {'any': v.cls.__name__}
            if s[0] == 'bad':
                return {'bad': next((i for i, g in enumerate(s[1]) if asg.holds(g)), 0)}
            if s[0] in ('package', 'collection'):
                items, seen = [], set()
                for key, has, x in [(k, h, x) for h, k, x in v.small] if hasattr(v, 'small') else v.content.lazy:
                    if asg.holds(has) and asg.text(key) not in seen:
                        seen.add(asg.text(key))
                        items.append(self.recipe(x, asg))
                if s[0] == 'collection':
                    return {'collection': s[1], 'items': items}
                r = {'package': self.recipe(v.ghost.get('name0', v.fields['name']), asg), 'items': items}
                if 'path' in v.ghost and asg.holds(v.ghost['path'][1]):
                    r['rooted'] = True
                return r
            if s[0] == 'named':
                return {'obj': s[1], 'kw': {'name': self.recipe(s[2], asg)}}
            if s[2] is None:
                return {s[0]: s[1], 'min': True}
            r = {s[0]: s[1], 'kw': {p: self.recipe(x, asg) for p, x in s[2]}}
            if s[3]:
                rs = [self.recipe(l, asg) for l in s[3]]
                r['items'] = rs[0] if len(rs) == 1 else {'lists': rs}
            return r
        raise Unsupported('recipe of %r' % (v,))


def run_init(e, o, args):
    e.call(BMethod(e.class_attr(o.cls, '__init__'), o), args, [])


def isolated(e, run):
    """Run code from the initial state; returns the guard under which it completed normally."""
    save = (e.pc, e.handlers, e.loops, e.prints, e.call_stack, e.depth)
    e.pc, e.handlers, e.loops, e.prints, e.call_stack = TRUE, [[]], [], [], []
    try:
        run()
        ok = e.pc
    except Dead:
        ok = FALSE
    finally:
        e.pc, e.handlers, e.loops, e.prints, e.call_stack, e.depth = save
    return ok


class Assignment:
    """A satisfying assignment: BDD path plus z3 model."""

    def __init__(self, e, f, model):
        self.e = e
        self.model = model
        self.vals = {}
        b = e.b
        # z3 decides the value of every variable; boolean choice variables unconstrained by the
        # model default to the path through f
        self.path = {}
        n = f
        while n > 1:
            v = b.var[n]
            t = self.var(v)
            nxt = b.hi[n] if t else b.lo[n]
            if nxt == FALSE:
                t = not t
                self.path[v] = t
                nxt = b.hi[n] if t else b.lo[n]
            n = nxt
        self.strings = {}

    def var(self, v):
        if v in self.path:
            return self.path[v]
        x = self.e.b.z3vars[v]
        r = self.model.eval(x, model_completion=True) if self.model is not None else None
        return z3.is_true(r)

    def holds(self, g):
        return self.e.b.evaluate(g, self.var)

    def z(self, x):
        return self.model.eval(x, model_completion=True)

    def text(self, v):
        out = []
        for p in v.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, StrVar):
                out.append(self.strvar(p))
            elif isinstance(p, IntText):
                out.append(format(self.int(p.i), p.fmt))
            elif isinstance(p, FloatText):
                out.append(repr(self.float(p.f)))
            else:
                out.append('x')
        return ''.join(out)

    def strvar(self, p):
        if p.name in self.strings:
            return self.strings[p.name]
        s = None
        try:
            zv = self.model.eval(p.z)       # no completion: unconstrained stays symbolic
            if z3.is_string_value(zv):
                s = zv.as_string()
                import re
                s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
                if p.nonempty and s in ('A', 'B', 'C'):
                    s = None
        except Exception:
            pass
        if s is None:
            s = 's%d' % (len(self.strings) + 1) if p.nonempty else 's%d' % (len(self.strings) + 1)
        s = ''.join(c if c >= ' ' and ord(c) < 0xd800 or c in '\t\n\r' else 'u' for c in s)
        if p.nonempty and not s:
            s = 's'
        self.strings[p.name] = s
        return s

    def int(self, v):
        r = self.z(v.z)
        return r.as_long() if z3.is_int_value(r) else 0

    def float(self, v):
        r = self.z(v.z)
        fin = self.e.atom_cache.get(('finite', v.name))
        if fin is not None and not self.holds(fin):
            return float('-inf') if self.num(r) < 0 else float('inf')
        return self.num(r)

    def num(self, r):
        if z3.is_algebraic_value(r):
            r = r.approx(12)
        if z3.is_rational_value(r):
            try:
                return r.numerator_as_long() / r.denominator_as_long()
            except OverflowError:
                return 1e300
        if z3.is_int_value(r):
            return float(r.as_long())
        return 0.0

    def length(self, seq):
        r = self.z(seq.length.z)
        return max(1, min(4, r.as_long())) if z3.is_int_value(r) else 1
