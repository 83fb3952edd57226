"""Developer aid: verify specifications by name prefix and print the outcome."""
import os, sys, time, importlib, json
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get('VERIF_REPO', '/repo') + '/src', '/opt/venv/lib/python3.12/site-packages']
sys.setrecursionlimit(20000)
from vf import spec as S
prop, pat = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
bound = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3] != '-' else None
secs = int(sys.argv[4]) if len(sys.argv) > 4 else 30
import re, traceback
for sp in importlib.import_module('vfspec.' + prop.lower()).specs():
    if not re.search(pat, sp.name): continue
    try:
        r = S.verify(sp, bound, secs)
    except Exception:
        print('CRASH', sp.name, ' | '.join(traceback.format_exc().strip().splitlines()[-3:])[-300:]); continue
    print(r.status, sp.name, r.reason[:300], '%d obl' % len(r.obligations), r.stats['seconds'], flush=True)
    if len(sys.argv) > 5 and hasattr(r, 'tb'): print(r.tb[-500:])
    for o in r.obligations:
        if o.status in ('refuted', 'unknown'):
            print('   ', o.status, o.label, o.where, json.dumps(o.recipe)[:400], getattr(o, 'diffs', ''), o.detail)
