"""Runs the checks on behaviour-preserving rewrites of the code: every check has to stay quiet.

usage: tools/quiet.py BATCH [EDIT-REGEX] [PROP-REGEX]      (batches: tools/quiet/BATCH.py, EDITS = [(id, file, old, new)])
The rewritten tree is a scratch copy, removed afterwards; /repo is not touched.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    batch, edit_re = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "."
    prop_re = sys.argv[3] if len(sys.argv) > 3 else "."
    spec = importlib.util.spec_from_file_location(batch, f"{HERE}/tools/quiet/{batch}.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    tmp = tempfile.mkdtemp(prefix="quiet")
    copy = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for name, path, old, new in mod.EDITS:
            if not re.fullmatch(edit_re, name) and edit_re != ".":
                continue
            full = os.path.join(copy, "src/autosar", path)
            text = open(full).read()
            n = text.count(old)
            if n != 1:
                print(f"edit {name}: {n} matches in {path}")
                if n == 0:
                    continue
            open(full, "w").write(text.replace(old, new, 1))
        env = dict(os.environ, PYTHONPATH=f"{copy}/src")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"],
                           cwd=copy, env=env, capture_output=True, text=True)
        print("tests:", r.stdout.strip().splitlines()[-1])
        if os.environ.get("QUIET_KEEP"):
            shutil.copytree(f"{copy}/src", os.environ["QUIET_KEEP"] + "/src", dirs_exist_ok=True)
        evidence = os.path.join(tmp, "evidence")
        for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]:
            prop = c["property"]
            if not re.fullmatch(prop_re, prop) and prop_re != ".":
                continue
            r = subprocess.run(["python3-vt", f"{HERE}/check.py", prop, "--tier", "quick"], cwd=HERE,
                               env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=evidence), capture_output=True, text=True)
            bad = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
            print(prop, r.returncode, (r.stdout.strip().splitlines() or ["-"])[-1][:150], flush=True)
            for x in bad:
                print("   ", x, flush=True)
    finally:
        shutil.rmtree(tmp)


main()
