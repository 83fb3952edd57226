"""Verification of one specification function: generate all obligations, discharge with z3."""
import collections
import importlib
import time
import os
import types

from .bdd import TRUE, FALSE
from .values import *
from .engine import Engine
from . import builtin_models, xmlmodel, textmodel, layout
from .symgen import SymGen, Assignment


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Obligation:
    def __init__(self, label, viol, where, kind):
        self.label, self.viol, self.where, self.kind = label, viol, where, kind
        self.status = None       # discharged | refuted | unknown
        self.recipe = None
        self.detail = ''


class Result:
    def __init__(self, spec):
        self.spec = spec
        self.obligations = []
        self.status = None       # proved | refuted | unsupported | timeout | vacuous | unknown
        self.reason = ''
        self.bound = None
        self.stats = {}


# the library the type generator writes with: its source is executed as well
CFILE = '/opt/venv/lib/python3.12/site-packages/cfile/'


class Timeout(Exception):
    pass


def new_engine(bound):
    e = Engine(prefixes=(os.path.join(REPO, 'src') + '/', os.path.join(ROOT, 'vfspec') + '/', CFILE), bound=bound)
    e.attr_models[builtin_models.SMatch] = builtin_models.MatchModel
    e.attr_models[builtin_models.NumberMatch] = builtin_models.NumberMatchModel
    e.attr_models[builtin_models.SDec] = builtin_models.DecModel
    return e


def install_api(e, res, sg):
    from vfspec import api
    e.diffs = []
    e.cut = FALSE       # where checks and assumptions end the path

    def check(e, args, kwargs):
        a = dict(zip(('cond', 'label'), args))
        a.update({k: v for k, _, v in kwargs})
        c = e.truth(a['cond'])
        label = a['label']
        if not isinstance(label, str):
            label = 'check'
        v = e.b.DIFF(e.pc, c)
        res.obligations.append(Obligation(label, v, e.where(), 'post'))
        e.cut = e.b.OR(e.cut, v)
        e.pc = e.b.AND(e.pc, c)
        if e.pc == FALSE:
            raise Dead()
        return None

    def assume(e, args, kwargs):
        c = e.truth(args[0])
        e.cut = e.b.OR(e.cut, e.b.DIFF(e.pc, c))
        e.pc = e.live(c)
        if e.pc == FALSE:
            raise Dead()
        return None

    def silent(e, args, kwargs):
        g = FALSE
        for pc, _ in e.prints:
            g = e.b.OR(g, pc)
        return e.from_guard(e.b.NOT(g))

    def equal(e, args, kwargs):
        s = xmlmodel.Same(e)
        g = s.same(args[0], args[1], '')
        e.diffs += s.diffs
        return e.from_guard(g)

    def identical(e, args, kwargs):
        s = xmlmodel.Identical(e)
        return e.from_guard(s.same(args[0], args[1], ''))

    e.contracts[api.identical] = identical
    e.contracts[api.check] = check
    e.contracts[api.assume] = assume
    e.contracts[api.silent] = silent
    e.contracts[api.equal] = equal
    e.contracts[api.same] = equal
    e.contracts[api.note] = lambda e, a, k: None

    def raises(e, args, kwargs):
        raise Unsupported('raises')
    e.contracts[api.raises] = api_raises


def api_raises(e, args, kwargs):
    """raises(exc, fn, ...): run fn; guard under which it raised exc; other exceptions propagate."""
    excs = args[0] if isinstance(args[0], tuple) else (args[0],)
    pc0 = e.pc
    e.handlers.append([])
    try:
        e.call(args[1], list(args[2:]), kwargs)
        end = e.pc
    except Dead:
        end = FALSE
    caught = e.handlers.pop()
    g = FALSE
    for cg, obj, where in caught:
        if isinstance(obj, SObj) and issubclass(obj.cls, excs):
            g = e.b.OR(g, cg)
        else:
            e.handlers[-1].append((cg, obj, where))
    e.pc = e.b.OR(end, g)
    if e.pc == FALSE:
        raise Dead()
    return e.simp(e.mkU([(g, True), (e.b.NOT(g), False)]))


def codec_list():
    import autosar.xml.writer as w
    import autosar.xml.reader as r
    from vfspec.codecs import CODECS
    from vfspec.native import find_class
    import inspect
    out = []
    for cname, wname, rname, takes, tags in CODECS:
        wf, rf = w.Writer.__dict__.get(wname), r.Reader.__dict__.get(rname)
        if not isinstance(wf, types.FunctionType) or not isinstance(rf, types.FunctionType):
            continue
        ps = list(inspect.signature(wf).parameters.values())[1:]
        req = [p for p in ps if p.default is p.empty]
        if len(req) != (2 if takes else 1):
            continue
        try:
            c = find_class(cname)
        except AttributeError:
            continue
        cd = xmlmodel.Codec(c, wf, rf, tags[0], tags)
        cd.takes = takes
        out.append(cd)
    return out


def code_trace(ex):
    """Positions in the analysed code of the frames of the engine's own traceback."""
    out, tb = [], ex.__traceback__
    while tb is not None:
        l = tb.tb_frame.f_locals
        n, fr = l.get('n', l.get('s')), l.get('fr')
        if hasattr(n, 'lineno') and fr is not None and hasattr(fr, 'name'):
            x = '%s:%d' % (fr.name, n.lineno)
            if out and out[-1].split(':')[0] == fr.name:
                out[-1] = x
            else:
                out.append(x)
        tb = tb.tb_next
    return out


def verify(spec, bound=None, seconds=60):
    import autosar.xml.element as el
    import autosar.xml.reference as rf
    import autosar.xml.enumeration as en
    import autosar.xml.writer as w
    from vfspec.domains import TABLE, APPEND
    from vfspec.constraints import CONSTRAINTS
    res = Result(spec)
    res.bound = bound
    t0 = time.time()
    e = new_engine(bound)
    e.deadline = t0 + seconds
    sg = SymGen(e, TABLE, APPEND, el, rf, en, CONSTRAINTS)
    if spec.opts.get('text'):
        textmodel.install(e)
    else:
        xmlmodel.install_writer(e, w.Writer)
        xmlmodel.install_parser(e)
        xmlmodel.install_codecs(e, codec_list())
        layout.install(e)
    install_api(e, res, sg)
    setup = spec.opts.get('engine')
    if setup:
        setup(e)
    res.engine, res.sg = e, sg
    try:
        args = [sg.val(d, n) for n, d in spec.inputs]
        if spec.root is not None:
            i = [n for n, _ in spec.inputs].index(spec.root)
            e.codec_root = args[i] if not isinstance(args[i], U) else args[i].alts[0][1]
        try:
            e.call(spec.fn, args, [])
            end = e.pc
        except Dead:
            end = FALSE
        assume = sg.assume
        for ok, _ in e.fill_failures:
            assume = e.b.AND(assume, ok)
        res.end = end
        covered = e.b.OR(end, e.cut, e.b.dead, *[g for g, _, _ in e.handlers[0]])
        if covered != TRUE and e.b.solve(e.b.AND(assume, e.b.NOT(covered)), 20000)[0] != 'unsat':
            raise Unsupported('the analysis lost some paths')
        if not res.obligations and not e.handlers[0]:
            res.status, res.reason = 'vacuous', 'no obligation generated'
            return res
        # vacuity: preconditions satisfiable and the end of the specification reachable
        st, _ = e.b.solve(e.b.AND(assume, end), 20000)
        res.reach = st
        for g, exc, where in e.handlers[0]:
            nm = exc.cls.__name__ if isinstance(exc, SObj) else str(exc)
            o = Obligation('no %s' % nm, g, where, 'exception')
            o.exc = exc
            res.obligations.append(o)
        worst = 'proved'
        for o in res.obligations:
            f = e.b.AND(o.viol, assume)
            if f == FALSE:
                o.status = 'discharged'
                o.backend = 'bdd'
                continue
            st, model = e.b.solve(f, max(3000, int(min(60, e.deadline - time.time()) * 1000)))
            o.backend = 'z3'
            if st == 'unsat':
                o.status = 'discharged'
            elif st == 'sat':
                o.status = 'refuted'
                try:
                    asg = Assignment(e, f, model)
                    o.recipe = [sg.recipe(a, asg) for a in args]
                    o.diffs = [p for g, p in e.diffs if asg.holds(g)][:4]
                except Unsupported as ex:
                    o.detail = 'no recipe: %s' % ex
                worst = 'refuted'
            else:
                o.status = 'unknown'
                if worst == 'proved':
                    worst = 'unknown'
        res.status = worst
        if worst == 'proved' and st == 'unsat' and res.reach == 'unsat':
            res.status, res.reason = 'vacuous', 'end of specification unreachable'
        if worst == 'proved' and res.reach == 'unsat':
            res.status, res.reason = 'vacuous', 'end of specification unreachable'
    except Unsupported as ex:
        import traceback
        res.tb = traceback.format_exc()
        res.status, res.reason = 'unsupported', '%s @ %s' % (ex, ' < '.join(code_trace(ex)[-4:][::-1]))
    except RecursionError:
        res.status, res.reason = 'unsupported', 'recursion'
    except TimeLimit as ex:
        res.status, res.reason = 'timeout', str(ex)
    finally:
        res.stats = dict(seconds=round(time.time() - t0, 2), z3_queries=e.b.z3_queries, z3_seconds=round(e.b.z3_time, 2),
                         steps=e.steps, contracts=sum(e.contract_uses.values()), functions=len(e.inlined))
        res.inlined = dict(e.inlined)
        res.contract_uses = dict(e.contract_uses)
    return res
