"""Mutation run over lips: python3 tools/mutate.py <out.log> <every k-th mutant> [offset] [file substring]
Each mutant is one AST edit in a scratch copy of /repo; the checks of its file run until one reports a violation. Survivors are for reading."""
import ast, copy, os, shutil, subprocess, sys, tempfile, time
REPO = "/repo"
CHECKS = {"particle.py": "C01 C02 C13 C20 C21 C10", "particles.py": "C19 C05 C12 C04 C20 C10 C03 C21 C06", "particles_compute.py": "C07 C06 C13 C08", "particles_eval.py": "C08 C09 C06 C13",
          "invariants.py": "C17 C18", "particles_set.py": "C14", "particles_set_pair.py": "C15", "particles_variety.py": "C16", "particles_singular_variety.py": "C16 C22", "particles_slices.py": "C22",
          "covariant_ideal.py": "C23", "invariant_ideal.py": "C23", "algebraic_geometry/tools.py": "C23", "symmetries.py": "C11", "lips/tools.py": "C19 C07 C06 C08 C09 C13"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add, ast.MatMult: ast.Mult}


def sites(tree):
    """(description, function that edits the tree in place)"""
    out = []
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            out.append((node, "cmp", lambda n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            out.append((node, "bin", lambda n: setattr(n, "op", BIN[type(n.op)]())))
            out.append((node, "swapargs", lambda n: (lambda l, r: (setattr(n, "left", r), setattr(n, "right", l)))(n.left, n.right))) if isinstance(node.op, (ast.Sub, ast.Div, ast.MatMult)) else None
        elif isinstance(node, ast.BoolOp):
            out.append((node, "bool", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            out.append((node, "unary", None))
        elif isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool) and abs(node.value) < 20:
            out.append((node, "const", lambda n: setattr(n, "value", n.value + 1)))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((node, "true", lambda n: setattr(n, "value", not n.value)))
        elif isinstance(node, (ast.If, ast.While)):
            out.append((node, "never", lambda n: setattr(n, "test", ast.Constant(False))))
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            out.append((node, "drop", None))
        elif isinstance(node, ast.Call) and len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            out.append((node, "callargs", lambda n: n.args.reverse()))
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        return self.new if node is self.target else self.generic_visit(node)


def mutants(path, every, offset):
    src = open(path).read()
    long = {i for i, l in enumerate(src.split("\n"), 1) if l.count("*") > 8}            # expanded polynomials: one site each is enough
    index = [i for i, (node, kind, fn) in enumerate(sites(ast.parse(src))) if node.lineno not in long]
    for i in index[offset::every]:
        tree = ast.parse(src)
        node, kind, fn = sites(tree)[i]
        before = ast.unparse(node)
        if any(w in before for w in ("verbose", "print(", "warn", "silent")) or ("Exception(" in before and kind != "never"):
            continue
        if kind == "unary":
            tree = Replace(node, node.operand).visit(tree)
            after = ast.unparse(node.operand)
        elif kind == "drop":
            tree = Replace(node, ast.Pass()).visit(tree)
            after = "pass"
        else:
            fn(node)
            after = ast.unparse(node)
        if before == after:
            continue
        yield node.lineno, kind, before.replace("\n", "; ")[:110], after.replace("\n", "; ")[:110], ast.unparse(ast.fix_missing_locations(tree))


def main():
    log, every, offset = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
    want = sys.argv[4] if len(sys.argv) > 4 else ""
    files = [os.path.join(d, f) for d, _, fs in os.walk(REPO + "/lips") for f in fs if f.endswith(".py") and f not in ("__init__.py", "version.py")]
    jobs = []
    for f in sorted(files):
        checks = next((c for k, c in CHECKS.items() if f.endswith("/" + k)), None)
        if checks and want in f:
            jobs += [(f, checks) + m for m in mutants(f, every, offset)]
    print(len(jobs), "mutants")
    if log == "-":
        return
    for f, checks, line, kind, before, after, text in jobs:
        tmp = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            shutil.copytree(REPO + "/lips", tmp + "/lips", ignore=shutil.ignore_patterns("__pycache__"))
            open(tmp + f[len(REPO):], "w").write(text)
            t, killed = time.time(), None
            for c in checks.split():
                p = subprocess.run(["timeout", "900", "./run.sh", c, "quick"], cwd=os.environ.get("VERIF_COPY", "/verif"), env=dict(os.environ, VERIF_REPO=tmp, VERIF_MAXFAIL="1", VERIF_SHARD_LIMIT="120"), capture_output=True, text=True)
                if p.returncode:
                    killed = "%s(%d)" % (c, p.returncode)
                    break
            with open(log, "a") as h:
                h.write("%s %s:%d %s | %s -> %s | %.0fs\n" % (killed or "SURVIVED", f[len(REPO) + 6:], line, kind, before, after, time.time() - t))
        finally:
            shutil.rmtree(tmp)


main()
