"""Developer aid: create /verif/seeded/<id>/ from a list of edits and confirm each one in a scratch copy.
usage: python3 tools/plant.py MODULE.py [ID...]   (MODULE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])"""
import json, os, shutil, subprocess, sys, tempfile, runpy

SEED = '/verif/seeded'
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        d = tempfile.mkdtemp(prefix='plant')
        try:
            sh('cp -a /repo %s/repo' % d)
            r = d + '/repo'
            for f, old, new in b['edits']:
                p = r + '/src/autosar/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'edit matches', s.count(old), 'times:', old[:60])
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                out = os.path.join(SEED, b['id'])
                os.makedirs(out, exist_ok=True)
                open(out + '/patch.diff', 'w').write(sh('git -C %s diff' % r).stdout)
                open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
                open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(out + '/demo.sh', 0o755)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
                a = sh('bash %s/demo.sh' % out, cwd='/repo').returncode
                c = sh('bash %s/demo.sh' % out, cwd=r)
                t = sh('cd %s && PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3' % (r, r))
                okt = ' passed' in t.stdout and 'failed' not in t.stdout and 'error' not in t.stdout
                print(b['id'], 'OK' if a == 0 and c.returncode != 0 and okt else 'BAD', 'demo clean %d, patched %d;' % (a, c.returncode), t.stdout.strip().splitlines()[-1][:100])
                if a != 0:
                    print(sh('bash %s/demo.sh' % out, cwd='/repo').stderr[-300:])
                if not (a == 0 and c.returncode != 0 and okt):
                    shutil.rmtree(out)
        finally:
            shutil.rmtree(d)


main()
