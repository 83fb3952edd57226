"""Statements of autosar that no specification reaches: usage tools/lines.py [PROP-REGEX]  (runs every check in this process' children)."""
import ast
import os
import re
import sys
import subprocess
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

if len(sys.argv) > 2 and sys.argv[1] == "--run":
    out = sys.argv[3]
    from vf import engine
    old = engine.Engine.exec_stmt
    seen = set()

    def exec_stmt(self, s, fr):
        name = fr.globals.get("__name__", "")
        if name.startswith("autosar"):
            k = (name, s.lineno)
            if k not in seen:
                seen.add(k)
                with open(out, "a") as f:
                    f.write("%s %d\n" % k)
        return old(self, s, fr)
    engine.Engine.exec_stmt = exec_stmt
    sys.argv = ["check.py", sys.argv[2], "--tier", "quick"]
    import runpy
    runpy.run_path(os.path.join(here, "check.py"), run_name="__main__")
else:
    pat = sys.argv[1] if len(sys.argv) > 1 else "."
    out = tempfile.mktemp()
    open(out, "w").close()
    for i in range(1, 22):
        p = "P%02d" % i
        if re.search(pat, p):
            subprocess.run([sys.executable, __file__, "--run", p, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    seen = {(a, int(b)) for a, b in (x.split() for x in open(out))}
    os.remove(out)
    src = os.environ.get("VERIF_REPO", "/repo") + "/src"
    total = 0
    for root, _, files in os.walk(src + "/autosar"):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(root, f)
            mod = os.path.relpath(path, src)[:-3].replace("/", ".").replace(".__init__", "")
            text = open(path).read()
            lines = text.splitlines()
            for fn in ast.walk(ast.parse(text)):
                if isinstance(fn, ast.FunctionDef):
                    for s in ast.walk(fn):
                        if isinstance(s, ast.stmt) and s is not fn and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            total += 1
                            if (mod, s.lineno) not in seen:
                                print("%s:%d %s: %s" % (mod, s.lineno, fn.name, lines[s.lineno - 1].strip()))
    print(total, "statements")
