"""Systematic small mutations of one source file, run against some checks (development tool).

usage: mutate.py FILE CHECK[,CHECK...] [FROM:TO]     (FILE relative to gerrychain/)   JOBS=n
Prints the mutants that no listed check reports.
"""
import ast, copy, os, queue, shutil, subprocess, sys, tempfile, threading

PY = "/opt/venv/bin/python"
path, checks = sys.argv[1], sys.argv[2].split(",")
src = open("/repo/gerrychain/" + path).read()
tree = ast.parse(src)

CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}


def ops(node):
    """Yield (description, function applied to a copy of the node)."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), []):
            yield new.__name__, lambda n, new=new: setattr(n, "ops", [new()])
    if isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            yield new.__name__, lambda n, new=new: setattr(n, "op", new())
    if isinstance(node, ast.AugAssign):
        for new in BIN.get(type(node.op), []):
            yield "aug" + new.__name__, lambda n, new=new: setattr(n, "op", new())
    if isinstance(node, ast.BoolOp):
        yield "and/or", lambda n: setattr(n, "op", ast.And() if isinstance(n.op, ast.Or) else ast.Or())
        if len(node.values) == 2:
            yield "left only", lambda n: n.values.pop()
            yield "right only", lambda n: n.values.pop(0)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", lambda n: setattr(n, "op", ast.UAdd()) if False else n.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(op=ast.Not(), operand=n.operand))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield "drop minus", lambda n: setattr(n, "op", ast.UAdd())
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield "flip bool", lambda n: setattr(n, "value", not n.value)
        elif isinstance(node.value, (int, float)):
            yield "+1", lambda n: setattr(n, "value", n.value + 1)
            if node.value:
                yield "zero", lambda n: setattr(n, "value", 0)
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        yield "cond true", lambda n: setattr(n, "test", ast.Constant(True))
        yield "cond false", lambda n: setattr(n, "test", ast.Constant(False))
    if isinstance(node, ast.Continue):
        yield "break", "break"
    if isinstance(node, ast.Break):
        yield "continue", "continue"
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield "delete statement", "pass"
    if isinstance(node, ast.Return) and node.value is not None:
        yield "return None", lambda n: setattr(n, "value", ast.Constant(None))
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("set", "sorted", "list", "tuple", "frozenset", "abs", "dict", "int", "float", "copy", "str") and len(node.args) == 1:
        yield "drop " + node.func.id, "arg"
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "items") and not node.args and node.func.attr == "copy":
        yield "drop copy", "recv"
    if isinstance(node, ast.comprehension) and node.ifs:
        yield "drop filter", lambda n: n.ifs.pop()
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            yield "drop keyword %s" % node.keywords[i].arg, lambda n, i=i: n.keywords.pop(i)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "any", "all"):
        yield "swap " + node.func.id, lambda n: setattr(n.func, "id", {"min": "max", "max": "min", "any": "all", "all": "any"}[n.func.id])


class Apply(ast.NodeTransformer):
    def __init__(self, at, which):
        self.at, self.which, self.i = at, which, -1

    def visit(self, node):
        self.i += 1
        if self.i == self.at:
            f = list(ops(node))[self.which][1]
            if f == "pass":
                return ast.copy_location(ast.Pass(), node)
            if f == "break":
                return ast.copy_location(ast.Break(), node)
            if f == "continue":
                return ast.copy_location(ast.Continue(), node)
            if f == "arg":
                return node.args[0]
            if f == "recv":
                return node.func.value
            f(node)
            return node
        return self.generic_visit(node)


def mutants():
    class Walk(ast.NodeVisitor):
        def __init__(self):
            self.i, self.out, self.skip = -1, [], 0

        def visit(self, node):
            self.i += 1
            here = self.i
            for w, (d, _) in enumerate(ops(node)):
                self.out.append((here, w, d, getattr(node, "lineno", 0), ast.unparse(node)[:90] if not isinstance(node, ast.comprehension) else "comprehension"))
            self.generic_visit(node)
    w = Walk()
    w.visit(tree)
    return w.out


ms = mutants()
if len(sys.argv) > 3:
    a, b = sys.argv[3].split(":")
    ms = [m for m in ms if int(a) <= m[3] <= int(b)]
todo = queue.Queue()
for m in ms:
    todo.put(m)
lock = threading.Lock()
count = [0, 0]


def work():
    d = tempfile.mkdtemp(prefix="bug_mut")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.copytree("/verif/mc", d + "/verif/mc")
        for x in ("check", "known_findings.json"):
            shutil.copy("/verif/" + x, d + "/verif/" + x)
        while True:
            try:
                at, which, what, line, text = todo.get_nowait()
            except queue.Empty:
                return
            t = Apply(at, which).visit(copy.deepcopy(tree))
            try:
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, path, "exec")
            except Exception:
                continue
            if new == ast.unparse(tree):
                continue
            open(d + "/repo/gerrychain/" + path, "w").write(new)
            verdict = "SURVIVED"
            for c in checks:
                try:
                    r = subprocess.run([d + "/verif/check", c], env=dict(os.environ, MC_REPO=d + "/repo", VERIF_TIER="quick", MC_PROCS=os.environ.get("MC_PROCS", "2")), capture_output=True, text=True, timeout=int(os.environ.get("LIMIT", "240")))
                except subprocess.TimeoutExpired:
                    subprocess.run(["pkill", "-9", "-f", d + "/verif/mc/run.py"])
                    verdict = "timeout in " + c
                    break
                if r.returncode == 1:
                    verdict = "killed"
                    break
                if r.returncode:
                    verdict = "killed (rc %d)" % r.returncode
                    break
            with lock:
                count[0] += 1
                if verdict.startswith("killed"):
                    count[1] += 1
                else:
                    print("%s:%d %s [%s] %s" % (path, line, verdict, what, text.replace("\n", " ; ")), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=work) for _ in range(int(os.environ.get("JOBS", "3")))]
for t in ts:
    t.start()
for t in ts:
    t.join()
print("%s: %d mutants, %d killed" % (path, count[0], count[1]))
