"""Mechanical rewrites of the whole of autosar that change no behaviour; every check has to stay quiet on each of them.

usage: tools/rewrite.py KIND DIR [FILE-REGEX]     writes a rewritten copy of /repo to DIR (then: VERIF_REPO=DIR check.py ...)
kinds: delegate  the body of every method moves to a helper method
       invert    if c: A else: B  ->  if not c: B else: A
       while     for x in a.b: ...  ->  a while loop with an index
       guard     if c: body at the end of a function  ->  if not c: return; body
       isin      isinstance(x, (A, B))  ->  isinstance(x, A) or isinstance(x, B)
       temps     arguments that are calls are computed into variables first
       ternary   if c: x = a else: x = b  ->  x = a if c else b, and if c: return a; return b likewise
       range     for x in a.b: ...  ->  a loop over the range of its length
      alias     for x in a.b / f(): ...  ->  the sequence computed into a variable (a.b copied to a tuple) first
      format    f-strings  ->  "...".format(...);  concat: -> "..." + str(...)
      result    return expression  ->  result = expression; return result
      else      if c: return; rest  ->  if c: return else: rest
      aug       x += 1  ->  x = x + 1
      comp      loops that only append  ->  extend with a comprehension, and assigned comprehensions -> loops
      chain     if a and b  ->  if a: if b (without else); elif -> else: if
"""
import ast
import copy
import os
import re
import subprocess
import sys

count = 0


def fresh(stem):
    global count
    count += 1
    return f"{stem}_{count}"


def blocks(node):
    for name in ("body", "orelse", "finalbody"):
        b = getattr(node, name, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield name, b


def negate(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        swap = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        k = swap.get(type(c.ops[0]))
        if k:
            return ast.Compare(c.left, [k()], c.comparators)
    return ast.UnaryOp(ast.Not(), c)


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = negate(n.test), n.orelse, n.body
        return n


class IsIn(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [copy.deepcopy(n.args[0]), c], []) for c in n.args[1].elts])
        return n


def exits(body):
    return isinstance(body[-1], (ast.Return, ast.Raise))


class Guard(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        last = n.body[-1]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        if isinstance(last, ast.If) and not last.orelse and not gen:
            n.body[-1:] = [ast.If(negate(last.test), [ast.Return(ast.Constant(None))], [])] + last.body
        elif isinstance(last, ast.If) and last.orelse and exits(last.body) and not isinstance(last.orelse[0], ast.If):
            n.body[-1:] = [ast.If(last.test, last.body, [])] + last.orelse
        return n


class While(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and isinstance(n.iter.value, ast.Name) and isinstance(n.target, ast.Name) and not n.orelse and n.iter.attr != "elements":
            i = fresh("index")
            return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Call(ast.Name("len", ast.Load()), [n.iter], [])]),
                              [ast.Assign([n.target], ast.Subscript(copy.deepcopy(n.iter), ast.Name(i, ast.Load()), ast.Load())),
                               ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]
        return n


class Range(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Attribute) and isinstance(n.iter.value, ast.Name) and isinstance(n.target, ast.Name) and n.iter.attr != "elements":
            i = fresh("index")
            n.body = [ast.Assign([n.target], ast.Subscript(copy.deepcopy(n.iter), ast.Name(i, ast.Load()), ast.Load()))] + n.body
            n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [n.iter], [])], [])
            n.target = ast.Name(i, ast.Store())
        return n


class Alias(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Attribute, ast.Call)):
            v = fresh("items")
            if isinstance(n.iter, ast.Attribute) and n.iter.attr != "elements":
                n.iter = ast.Call(ast.Name("tuple", ast.Load()), [n.iter], [])
            return [ast.Assign([ast.Name(v, ast.Store())], n.iter), ast.For(n.target, ast.Name(v, ast.Load()), n.body, n.orelse)]
        return n


class Format(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        text, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            elif v.conversion == -1 and v.format_spec is None:
                text += "{}"
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])


class Concat(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                parts.append(ast.Call(ast.Name("str", ast.Load()), [v.value], []))
            else:
                return n
        out = parts[0] if parts else ast.Constant("")
        for p in parts[1:]:
            out = ast.BinOp(out, ast.Add(), p)
        return out


class Result(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        v = fresh("result")

        class Inner(ast.NodeTransformer):
            def visit_Return(self, r):
                if r.value is None or isinstance(r.value, (ast.Constant, ast.Name)):
                    return r
                return [ast.Assign([ast.Name(v, ast.Store())], r.value), ast.Return(ast.Name(v, ast.Load()))]

            def visit_FunctionDef(self, f):
                return f
            visit_Lambda = visit_FunctionDef
        n.body = [x for b in n.body for x in (lambda y: y if isinstance(y, list) else [y])(Inner().visit(b))]
        return n


class Else(ast.NodeTransformer):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b

    def generic_visit(self, n):
        super().generic_visit(n)
        for name, b in list(blocks(n)):
            setattr(n, name, self.block(b))
        return n


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class Comp(ast.NodeTransformer):
    """for x in xs: ys.append(f(x)) -> ys.extend([f(x) for x in xs]); x = [... for ...] -> a loop"""
    def visit_Assign(self, n):
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            t = n.targets[0]
            if any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(v)):
                return n
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(t.id, ast.Load()), "append", ast.Load()), [v.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            return [ast.Assign([t], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], [])]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        b = n.body
        if len(b) == 1 and not n.orelse and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) and \
                isinstance(b[0].value.func, ast.Attribute) and b[0].value.func.attr == "append" and isinstance(b[0].value.func.value, ast.Attribute) and isinstance(n.target, ast.Name) and len(b[0].value.args) == 1:
            c = b[0].value
            return ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()),
                                     [ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        return n


class Ternary(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Expr) and isinstance(b, ast.Expr):
                return ast.Expr(ast.IfExp(n.test, a.value, b.value))
        return n


class Chain(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            first, rest = n.test.values[0], n.test.values[1:]
            return ast.If(first, [self.visit_If(ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, []))], [])
        return n


class Temps(ast.NodeTransformer):
    def stmt(self, n):
        v = getattr(n, "value", None)
        if isinstance(n, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call) and not any(
                isinstance(x, (ast.Starred, ast.Await, ast.NamedExpr)) for x in ast.walk(v)):
            if not isinstance(v.func, (ast.Name, ast.Attribute)) or isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, ast.Name):
                return [n]
            if isinstance(v.func, ast.Name) and v.func.id == "super":
                return [n]
            out = []
            for i, a in enumerate(v.args):
                if isinstance(a, ast.Call) and not (isinstance(a.func, ast.Name) and a.func.id in ("super", "locals")):
                    t = fresh("temp")
                    out.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.args[i] = ast.Name(t, ast.Load())
                elif not isinstance(a, (ast.Name, ast.Constant)):
                    break
            return out + [n]
        return [n]

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
            for name, b in list(blocks(n)):
                setattr(n, name, [y for x in b for y in self.stmt(x)])
        return n


class Delegate(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") and f.name != "__init__" or f.name.startswith("_impl_"):
                out.append(f)
                continue
            decs = [d.id if isinstance(d, ast.Name) else "?" for d in f.decorator_list]
            if decs not in ([], ["property"], ["classmethod"]) or any(
                    isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for x in ast.walk(f)):
                out.append(f)
                continue
            name = f"_impl_{f.name.strip('_')}_{n.name.lower()}"
            helper = copy.deepcopy(f)
            helper.name = name
            helper.decorator_list = [d for d in helper.decorator_list if isinstance(d, ast.Name) and d.id == "classmethod"]
            helper.args.defaults, helper.args.kw_defaults = [], [None for _ in helper.args.kwonlyargs]
            a = f.args
            me = a.args[0].arg
            call = ast.Call(ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load()),
                            [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
            f.body = doc + [ast.Expr(call) if f.name == "__init__" else ast.Return(call)]
            out += [f, helper]
        n.body = out
        return n


KINDS = {"delegate": Delegate, "invert": Invert, "while": While, "guard": Guard, "isin": IsIn, "temps": Temps, "ternary": Ternary, "chain": Chain,
         "range": Range, "alias": Alias, "format": Format, "concat": Concat, "result": Result, "else": Else, "aug": Aug, "comp": Comp}


def main():
    kind, dest = sys.argv[1], sys.argv[2]
    pattern = sys.argv[3] if len(sys.argv) > 3 else "."
    subprocess.run(["cp", "-a", "/repo/.", dest], check=True)
    for root, _, files in os.walk(dest + "/src/autosar"):
        for f in files:
            path = os.path.join(root, f)
            if f.endswith(".py") and re.search(pattern, os.path.relpath(path, dest)):
                text = open(path).read()
                tree = KINDS[kind]().visit(ast.parse(text))
                ast.fix_missing_locations(tree)
                new = ast.unparse(tree)
                if new != ast.unparse(ast.parse(text)):
                    open(path, "w").write(new + "\n")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=dest,
                       env=dict(os.environ, PYTHONPATH=dest + "/src", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    print(kind, r.stdout.strip().splitlines()[-1])


if __name__ == "__main__":
    main()
