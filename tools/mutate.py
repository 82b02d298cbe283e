"""Mutation campaign: python3 tools/mutate.py PROPERTY FILE[:func,func..] ... [-n N] [-s SEED] [-j JOBS] [-w WORKERS]

Applies small syntactic mutants (one at a time) to scratch copies of /repo and runs the property's check from a copy of
/verif on them.  Prints the survivors, to be judged by hand: a survivor is either equivalent / outside of the property
or a hole in the check.
"""
import argparse
import warnings
import ast
import os
import random
import shutil
import subprocess
import sys
import threading
import time

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seg(src_lines, n):
    """(start, end) absolute byte offsets of a node"""
    return n.lineno, n.col_offset, n.end_lineno, n.end_col_offset


class Gen(ast.NodeVisitor):
    def __init__(self, funcs):
        self.funcs = set(funcs) if funcs else None
        self.seen = set()
        self.stack = []
        self.out = []   # (node, replacement text, label)
        self.active = 0

    def visit_FunctionDef(self, n):
        hit = self.funcs is None or n.name in self.funcs or ".".join(self.stack[-1:] + [n.name]) in self.funcs
        if hit:
            self.seen.add(n.name)
        self.active += hit
        self.stack.append(n.name)
        body = n.body
        for i, st in enumerate(body):
            if i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            self.visit(st)
        self.stack.pop()
        self.active -= hit

    def visit_ClassDef(self, n):
        hit = self.funcs is not None and n.name in self.funcs
        self.active += hit
        self.stack.append(n.name)
        for st in n.body:
            self.visit(st)
        self.stack.pop()
        self.active -= hit

    def add(self, node, new, label):
        if self.active:
            self.out.append((node, new if isinstance(new, str) else "(" + ast.unparse(new) + ")", label))

    def generic_visit(self, n):
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm in ("warn", "warning", "debug", "info", "error", "format"):
                return
        super().generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                   ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
                   ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(n.ops[0]), [])
            for a in alt:
                self.add(n, ast.Compare(n.left, [a()], n.comparators), "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult,
               ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}.get(type(n.op))
        if alt and not isinstance(n.left, ast.Constant) or (alt and not isinstance(n.left.value, str)):
            self.add(n, ast.BinOp(n.left, alt(), n.right), "binop")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add(n, ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values), "boolop")
        for i in range(len(n.values)):
            rest = n.values[:i] + n.values[i + 1:]
            self.add(n, rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest), "dropcond")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, n.operand, "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "bool")
        elif isinstance(n.value, (int, float)):
            self.add(n, "(%r)" % (n.value + 1), "const+1")
            if n.value not in (0,):
                self.add(n, "(%r)" % (n.value - 1), "const-1")
        elif n.value is None:
            pass

    def visit_If(self, n):
        if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
            self.add(n.test, ast.UnaryOp(ast.Not(), n.test), "negif")
        self.add(n.test, "False", "iffalse")
        self.add(n.test, "True", "iftrue")
        self.generic_visit(n)

    visit_IfExp = visit_If

    def visit_Call(self, n):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if nm not in ("warn", "warning", "debug", "info", "error", "format"):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    self.add(n, ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:]), "dropkw")
            if nm in ("min", "max", "floor", "ceil", "argmin", "argmax", "any", "all"):
                alt = dict(min="max", max="min", floor="ceil", ceil="floor", argmin="argmax", argmax="argmin",
                           any="all", all="any")[nm]
                nf = ast.Attribute(f.value, alt, ast.Load()) if isinstance(f, ast.Attribute) else ast.Name(alt, ast.Load())
                self.add(n, ast.Call(nf, n.args, n.keywords), "swapfn")
            if nm in ("array", "asarray", "copy", "deepcopy", "list", "dict", "tuple", "sorted", "set", "int", "abs",
                      "reversed", "ascontiguousarray") and len(n.args) == 1:
                self.add(n, n.args[0], "dropcall")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and \
                isinstance(n.slice.step, ast.UnaryOp):
            self.add(n, n.value, "dropflip")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delstmt")
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            self.add(n, "pass", "delstmt")
        elif isinstance(t, ast.Name):
            # a re-binding only: the first one would just be a NameError
            self.add(n, "pass", "delstmt?")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "delstmt")
        self.generic_visit(n)


def mutants(path, funcs):
    src = open(path, encoding="utf8").read()
    g = Gen(funcs)
    g.visit(ast.parse(src))
    if funcs:
        miss = set(f for f in funcs if f not in g.seen and "." not in f)
        classes = {n.name for n in ast.walk(ast.parse(src)) if isinstance(n, ast.ClassDef)}
        miss -= classes
        if miss:
            print("not found:", path, miss)
    lines = src.encode("utf8").splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))
    raw = src.encode("utf8")
    ret = []
    for node, new, label in g.out:
        a = offs[node.lineno - 1] + node.col_offset
        b = offs[node.end_lineno - 1] + node.end_col_offset
        out = raw[:a] + new.encode("utf8") + raw[b:]
        try:
            compile(out, path, "exec")
        except (SyntaxError, ValueError):
            continue
        if out == raw:
            continue
        ret.append((node.lineno, label, raw[a:b].decode()[:70].replace("\n", " "), new[:70].replace("\n", " "), out))
    return ret


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("targets", nargs="+")
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-w", type=int, default=2)
    ap.add_argument("-k", default=None, help="only labels (comma)")
    args = ap.parse_args()
    base = "/tmp/mut"
    os.makedirs(base, exist_ok=True)
    work = os.path.join(base, "%s-%d" % (args.pid, os.getpid()))
    os.makedirs(work)
    allm = []
    for t in args.targets:
        fn, _, fs = t.partition(":")
        for m in mutants(os.path.join("/repo", fn), fs.split(",") if fs else None):
            allm.append((fn,) + m)
    rng = random.Random(args.s)
    if args.k:
        allm = [m for m in allm if m[2] in args.k.split(",")]
    ntot = len(allm)
    rng.shuffle(allm)
    todo = allm[:args.n]
    lock = threading.Lock()
    stats = dict(killed=0, survived=0, odd=0)
    survivors = []

    def worker(w):
        repo = os.path.join(work, "repo%d" % w)
        vm = os.path.join(work, "verif%d" % w)
        os.makedirs(vm)
        shutil.copytree(os.path.join(HERE, "vmc"), os.path.join(vm, "vmc"), ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("run.sh", "known_findings.json"):
            shutil.copy(os.path.join(HERE, f), vm)
        subprocess.check_call(["cp", "-a", "/repo", repo])
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            fn, line, label, old, new, out = m
            p = os.path.join(repo, fn)
            orig = open(p, "rb").read()
            with open(p, "wb") as f:
                f.write(out)
            env = dict(os.environ, VMC_REPO=repo, VMC_FAILFAST="1")
            t0 = time.time()
            try:
                r = subprocess.run(["timeout", "300", "bash", os.path.join(vm, "run.sh"), args.pid, "-j", str(args.j)],
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                rc = r.returncode
            finally:
                with open(p, "wb") as f:
                    f.write(orig)
            with lock:
                if rc == 1:
                    stats["killed"] += 1
                elif rc == 0:
                    stats["survived"] += 1
                    survivors.append((fn, line, label, old, new))
                    print("SURV %s:%d [%s] %s  ->  %s" % (fn, line, label, old, new), flush=True)
                else:
                    stats["odd"] += 1
                    print("ODD rc=%s %s:%d [%s] %s  ->  %s (%.0f s)" % (rc, fn, line, label, old, new, time.time() - t0),
                          flush=True)

    ths = [threading.Thread(target=worker, args=(w,)) for w in range(args.w)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    shutil.rmtree(work)
    print("%s: %d of %d mutants: %s" % (args.pid, args.n, ntot, stats))


if __name__ == "__main__":
    main()
