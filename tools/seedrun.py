"""Developer aid: run the check of each planted bug on a scratch copy. usage: seedrun.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile, glob, time

ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob('/verif/seeded/*'))
for i in ids:
    p = '/verif/seeded/' + i
    prop = json.load(open(p + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run('cp -a /repo %s/repo && git -C %s/repo apply %s/patch.diff' % (d, d, p), shell=True, check=True)
        t = time.time()
        r = subprocess.run(['python3-vt', '/verif/check.py', prop, '--tier', 'quick'], capture_output=True, text=True, cwd='/verif',
                           env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        print(i, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, len(v),
              'unreplayed' if v and all('no-failing' in x for x in v) else '', '%.0fs' % (time.time() - t),
              next((x.strip()[:150] for x in r.stdout.splitlines() if x.startswith('  ')), ''), flush=True)
    finally:
        shutil.rmtree(d)
