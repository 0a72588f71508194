"""tools/mutants.py OUT.jsonl N SEED: sample N small source mutants of /repo's kmcpy (not used by any check).

Each record: file, line, kind, and the changed source of the whole file is rebuilt from (start, end, new) offsets."""
import ast, json, os, random, subprocess, sys

SKIP_FILES = {"kmcpy/cli/gui_wrapper.py", "kmcpy/_version.py", "kmcpy/tools/gather_kmc_data.py",
              "kmcpy/tools/gather_mc_data.py", "kmcpy/tools/get_data.py", "kmcpy/structure/comparator.py"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}


def mutants(path):
    src = open("/repo/" + path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    out = []

    def add(node, kind, new, a=None, b=None):
        x, y = span(node)
        x, y = (x if a is None else a), (y if b is None else b)
        out.append({"file": path, "line": node.lineno, "kind": kind, "start": x, "end": y, "new": new,
                    "old": raw[x:y].decode()})

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name in ("__str__", "__repr__", "main") or n.name.startswith("_log") or "hdf5" in n.name:
                return
            for s in n.body:
                self.visit(s)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Raise(self, n):
            add(n, "no-raise", "pass")

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call):
                t = text(n.value.func)
                if t.startswith(("logger", "logging", "warnings", "print", "self.logger")):
                    return
                add(n, "drop-call", "pass")
            self.generic_visit(n)

        def visit_Assign(self, n):
            if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                add(n, "drop-assign", "pass")
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            add(n, "drop-aug", "pass")
            self.generic_visit(n)

        def visit_Compare(self, n):
            if len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, "cmp", f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})")
            self.generic_visit(n)

        def visit_BinOp(self, n):
            if type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) | isinstance(
                    getattr(n.left, "value", 0), str):
                add(n, "bin", f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})")
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "bool", "(" + op.join("(" + text(v) + ")" for v in n.values) + ")")
            for v in n.values:
                rest = [w for w in n.values if w is not v]
                o = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "bool-drop", "(" + o.join("(" + text(w) + ")" for w in rest) + ")")
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            if isinstance(n.op, ast.Not):
                add(n, "not", "(" + text(n.operand) + ")")
            elif isinstance(n.op, ast.USub):
                add(n, "neg", "(" + text(n.operand) + ")")
            self.generic_visit(n)

        def visit_Constant(self, n):
            if isinstance(n.value, bool):
                add(n, "const", str(not n.value))
            elif isinstance(n.value, int) and n.value < 100:
                add(n, "const", str(n.value + 1))
            elif isinstance(n.value, float):
                add(n, "const", repr(n.value * 1.5 if n.value else 1.0))

        def visit_If(self, n):
            add(n.test, "if-true", "True")
            add(n.test, "if-false", "False")
            self.generic_visit(n)

        def visit_IfExp(self, n):
            add(n, "ifexp", "(" + text(n.body) + ")")
            add(n, "ifexp", "(" + text(n.orelse) + ")")
            self.generic_visit(n)

        def visit_Break(self, n):
            add(n, "break", "pass")

        def visit_Continue(self, n):
            add(n, "continue", "pass")

        def visit_Call(self, n):
            f = text(n.func)
            for k in n.keywords:
                if k.arg and not f.endswith("add_argument") and len(n.args) + len(n.keywords) > 1:
                    new = ", ".join([text(a) for a in n.args] + [
                        (f"{q.arg}=" if q.arg else "**") + text(q.value) for q in n.keywords if q is not k])
                    add(n, "drop-kw", f"{f}({new})")
            if f in ("sorted", "list", "tuple", "set", "copy.deepcopy", "deepcopy", "dict", "abs", "float", "int",
                     "np.round", "round", "np.abs", "np.array", "np.asarray") and len(n.args) >= 1:
                add(n, "unwrap", "(" + text(n.args[0]) + ")")
            if f.endswith(".copy") and not n.args:
                add(n, "unwrap", "(" + f[:-5] + ")")
            if f in ("min", "max", "any", "all"):
                add(n, "swapfn", {"min": "max", "max": "min", "any": "all", "all": "any"}[f] + raw[
                    span(n.func)[1]:span(n)[1]].decode())
            self.generic_visit(n)

        def visit_Return(self, n):
            if n.value is not None:
                self.generic_visit(n)

        def visit_arguments(self, n):
            return

        def visit_AnnAssign(self, n):
            if n.value is not None:
                self.visit(n.value)

        def visit_JoinedStr(self, n):
            return

    V().visit(tree)
    good = []
    for m in out:
        new = raw[:m["start"]] + m["new"].encode() + raw[m["end"]:]
        try:
            if ast.dump(ast.parse(new)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append(m)
    return good


if __name__ == "__main__":
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or subprocess.check_output(["git", "-C", "/repo", "ls-files", "kmcpy/*.py"], text=True).split()
    pool = [m for f in files if f not in SKIP_FILES and not f.endswith("__init__.py") for m in mutants(f)]
    rnd = random.Random(seed)
    rnd.shuffle(pool)
    print(len(pool), "mutants in all")
    with open(out, "w") as fh:
        for k, m in enumerate(pool[:n]):
            m["id"] = f"m{seed}_{k:04d}"
            fh.write(json.dumps(m) + "\n")
