"""Freeze which parameters of the constructors take which kinds of values (run once; the result is reviewed by hand)."""
import sys, os, inspect, random, pprint
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo/src'); sys.path.insert(0, root)
import autosar.xml.element as el
from vfspec.domains import TABLE
from vfspec.native import sample, build
from vfspec import p22

rng = random.Random(1)
pool = {}
for k in p22.POOL:
    for _ in range(50):
        try:
            pool[k] = build(sample(p22.domain(k), rng, 3))
            break
        except Exception:
            pass
    else:
        print('no', k)
out = {}
natural = []
for c in sorted(TABLE):
    C = getattr(el, c)
    if inspect.isabstract(C):
        continue
    own = inspect.signature(C.__init__).parameters
    for p, d in TABLE[c]:
        if p not in own:
            continue        # those of the base classes are checked there
        ok = []
        for listed in (False, True):
            for k, v in [*pool.items(), ('str', ''), ('str', 'x'), ('str', '5'), ('int', -1), ('float', 0.5)]:
                kw = {}
                for q, qd in TABLE[c]:
                    ps = own.get(q)
                    if q != p and ps is not None and ps.default is ps.empty and ps.kind is not ps.VAR_KEYWORD:
                        kw[q] = build(sample(qd, rng, 3))
                kw[p] = [v] if listed else v
                try:
                    C(**kw)
                    ok += [] if ('list:' if listed else '') + k in ok else [('list:' if listed else '') + k]
                except TypeError:
                    pass
                except Exception:
                    ok += [] if ('list:' if listed else '') + k in ok else [('list:' if listed else '') + k]
        def how(v):
            kw = {q: build(sample(qd, rng, 3)) for q, qd in TABLE[c]
                  if q != p and own.get(q) is not None and own[q].default is inspect.Parameter.empty and own[q].kind is not inspect.Parameter.VAR_KEYWORD}
            try:
                C(**kw, **{p: v})
                return None
            except Exception as e:
                return type(e)
        if how(1) is None and how(-1) is ValueError and how(-7) is ValueError:
            natural.append((c, p))
        if how('/A') is not None and how('text!') is ValueError:
            print('pattern', c, p)
        if len(ok) <= 40:
            out[c, p] = tuple(ok)
with open(root + '/vfspec/strict.py', 'w') as f:
    f.write('"""The kinds of values that the parameters of the constructors take: all others raise TypeError (frozen; see tools/freeze_strict.py)."""\n\nTAKES = ')
    f.write(pprint.pformat(out, width=140) + '\n\n# numbers that are not negative: others raise ValueError\nNATURAL = ')
    f.write(pprint.pformat(natural, width=140) + '\n')
print(len(out))
