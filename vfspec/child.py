"""Runs specifications on the real code. Reads one JSON job per line, answers one JSON line each."""
import json
import random
import sys
import time

sys.path.insert(0, sys.argv[1])
for p in sys.argv[2:]:
    sys.path.insert(0, p)
from vfspec import native, api      # noqa: E402


def job(j, cache):
    key = (j['prop'], j['spec'])
    if key[0] not in cache:
        m = __import__('vfspec.' + key[0].lower(), fromlist=['x'])
        cache[key[0]] = {s.name: s for s in m.specs()}
    spec = cache[key[0]].get(key[1])
    if spec is None:
        return {'status': 'nospec'}
    if j['mode'] == 'replay':
        last = None
        for r in native.variants(j['recipe']):
            o = native.run_spec(spec, r)
            if o.status in ('fail', 'error'):
                return {'status': o.status, 'detail': o.detail, 'trace': o.trace, 'recipe': r}
            last = o
        return {'status': last.status, 'detail': last.detail, 'trace': last.trace}
    if j['mode'] == 'sample':
        native.use_constants(j.get('constants', []))
        rng = random.Random('%s/%s/%s' % (j['seed'], key[0], key[1]))
        t0 = time.time()
        n = ok = 0
        bad = []
        skips = {}
        while n < j['n'] and time.time() - t0 < j['secs']:
            n += 1
            r = [native.sample(d, rng) for _, d in spec.inputs]
            o = native.run_spec(spec, r)
            if o.status in ('fail', 'error'):
                k = (o.status, o.detail.split(':')[0] if o.status == 'error' else o.detail, str(o.trace[-1:]) if o.status == 'error' else '')
                if all(b['key'] != str(k) for b in bad):
                    bad.append({'key': str(k), 'status': o.status, 'detail': o.detail, 'trace': o.trace, 'recipe': r})
                if len(bad) >= j.get('max', 5):
                    break
            elif o.status == 'ok':
                ok += 1
            else:
                skips[o.detail[:60]] = skips.get(o.detail[:60], 0) + 1
        return {'status': 'done', 'n': n, 'ok': ok, 'bad': bad, 'skips': dict(sorted(skips.items(), key=lambda x: -x[1])[:3])}


def main():
    cache = {}
    out = sys.stdout
    for line in sys.stdin:
        j = json.loads(line)
        try:
            r = job(j, cache)
        except Exception as ex:
            import traceback
            r = {'status': 'crash', 'detail': traceback.format_exc()[-800:]}
        out.write('@@' + json.dumps(r) + '\n')
        out.flush()


main()
