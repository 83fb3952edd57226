"""Loop invariants: a list of unknown length whose elements are summarised by two arbitrary
(Skolem) elements z1, z2 and 'any other' element, and loops over it verified by an invariant that
the specification gives in terms of the loop's variables and of which of z1, z2 were visited.

For a loop over such a list the engine proves that the invariant holds at the start and that each
iteration (z1, z2 or another element) preserves it, then continues after the loop with arbitrary
values of the loop's variables that satisfy the invariant, z1 and z2 visited if they are members."""
import ast

from .bdd import TRUE, FALSE
from .values import SObj, SInt, U, Poison, Dead, Unsupported


class InvList:
    """make(name): a new element; present: guards that z1, z2 are members; the invariants:
    function name -> (variables {name: kind}, invariant(e, get, seen1, seen2) -> guard)."""

    def __init__(self, z, present, other, invariants):
        self.z, self.present, self.other, self.invariants = z, present, other, invariants


def havoc(e, lst, kind, name, pc):
    if kind == 'bool':
        g = e.b.new_var(name)
        return e.mkU([(g, True), (e.b.NOT(g), False)])
    if kind == 'nat':
        import z3
        v = SInt(z3.Int('%s_%d' % (name, e.new_oid())))
        e.b.side.append(v.z >= 0)
        return v
    if kind == 'member?':
        w = lst.other(name)
        gs = e.choice(4, name)
        return e.mkU(list(zip(gs, [None, lst.z[0], lst.z[1], w])))
    raise Unsupported('kind of loop variable ' + kind)


def loop(e, s, fr, lst, check, assigned):
    from .engine import LoopCtx
    inv = lst.invariants.get(fr.name.split('.')[-1]) if fr.name else None
    if inv is None:
        raise Unsupported('no invariant for the loop in ' + str(fr.name))
    variables, invariant = inv
    targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    carried = sorted((assigned & set(fr.locals)) - targets)
    if set(carried) - set(variables) or set(variables) - set(fr.locals):
        raise Unsupported('the loop in %s changes %s' % (fr.name, ','.join(carried)))
    if s.orelse or any(isinstance(n, ast.Return) for x in s.body for n in ast.walk(x)):
        raise Unsupported('else of a loop with invariant')
    names = assigned | targets

    def get(n):
        return fr.locals[n]

    def oblige(g, label):
        e.call(check, [e.simp(e.mkU([(g, True), (e.b.NOT(g), False)])), label], [])

    oblige(invariant(e, get, FALSE, FALSE), 'loop invariant holds at the start')
    pc0 = e.pc
    # one arbitrary iteration
    it = e.b.new_var('iteration')
    e.pc = e.b.AND(pc0, it)
    e.cut = e.b.OR(e.cut, e.pc)     # the arbitrary iteration ends here
    seen = [e.b.AND(p, e.b.new_var('seen')) for p in lst.present]
    saved = dict(fr.locals)
    fresh(e, lst, fr, variables, names)
    e.pc = e.b.AND(e.pc, invariant(e, get, *seen))
    w = lst.other('other')
    gs = e.choice(3, 'element')
    ok = [TRUE] + [e.b.AND(lst.present[i], e.b.NOT(seen[i])) for i in (0, 1)]
    base = e.pc
    for i, x in enumerate([w] + list(lst.z)):
        e.pc = e.b.AND(base, gs[i], ok[i])
        if e.live(TRUE) == FALSE:
            continue
        kept = dict(fr.locals)
        ctx = LoopCtx(e.new_oid(), None)
        e.loops.append(ctx)
        before = e.pc
        from .engine import Loop
        lp = Loop(False)
        fr.loops.append(lp)
        try:
            e.assign(s.target, x, fr)
            e.exec_block(s.body, fr)
        except Dead:
            e.pc = FALSE
        finally:
            fr.loops.pop()
            e.loops.pop()
        if ctx.writes or ctx.appends or lp.brk != FALSE:
            raise Unsupported('effect in a loop with invariant')
        e.pc = e.b.OR(e.pc, lp.cont)
        if e.pc != FALSE:
            after = [e.b.OR(seen[0], TRUE if i == 1 else FALSE), e.b.OR(seen[1], TRUE if i == 2 else FALSE)]
            oblige(invariant(e, get, *after), 'loop invariant is preserved')
        fr.locals.clear()
        fr.locals.update(kept)
    fr.locals.clear()
    fr.locals.update(saved)
    # after the loop
    e.pc = e.b.AND(pc0, e.b.NOT(it))
    fresh(e, lst, fr, variables, names)
    inv = invariant(e, get, *lst.present)
    e.cut = e.b.OR(e.cut, e.b.DIFF(e.pc, inv))      # the values after the loop satisfy the invariant
    e.pc = e.b.AND(e.pc, inv)


def fresh(e, lst, fr, variables, names):
    for n in names:
        fr.locals[n] = Poison(n)
    for n, k in sorted(variables.items()):
        fr.locals[n] = havoc(e, lst, k, n, e.pc)
