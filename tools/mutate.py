"""Mutation analysis: small changes to every source file, those the existing tests accept are given to the checks.

  mutate.py list                         how many mutants there are per file
  mutate.py tests OUT.jsonl [-j N]       run the existing tests against all of them (in scratch copies); survivors are written
  mutate.py checks SURVIVORS OUT.jsonl   run the checks against them until one of them objects
                 [-j N] [-n MAX] [-s SCALE] [-f FILE-PREFIX] [--seed S]
"""
import ast
import collections
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("MUTATE_REPO", "/repo")      # a copy, if it's going to take some time
SRC = REPO + "/src/oidcrp"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}
SKIP_CALLS = ("logger", "LOGGER", "logging", "log_")


class Source:
    def __init__(self, rel):
        self.rel = rel
        self.text = open(os.path.join(SRC, rel), encoding="utf-8").read()
        self.tree = ast.parse(self.text)
        self.data = self.text.encode()
        self.starts = [0]
        for line in self.data.split(b"\n"):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.parents = {c: p for p in ast.walk(self.tree) for c in ast.iter_child_nodes(p)}

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.data[a:b].decode()


def logs(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in SKIP_CALLS:
                return True
    return False


def mutants(rel):
    s = Source(rel)
    res = []

    def add(kind, n, new):
        a, b = s.span(n)
        old = s.data[a:b].decode()
        if new == old:
            return
        res.append({"file": rel, "line": n.lineno, "kind": kind, "a": a, "b": b, "old": old, "new": new})

    def visit(n):
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or logs(n):
                return
            add("drop", n, "pass")
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for x in n.body:
                visit(x)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.AnnAssign) and n.value is None:
            return
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add("drop", n, "pass")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and not isinstance(s.parents.get(n), (ast.Module, ast.ClassDef)):
            if not isinstance(n.value, ast.Constant):
                add("none", n.value, "None")
        if isinstance(n, ast.Delete):
            add("drop", n, "pass")
        if isinstance(n, ast.Raise):
            add("noraise", n, "pass")
        if isinstance(n, (ast.Break, ast.Continue)):
            add("loop", n, "pass")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add("return", n, "return None")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add("not", n.test, "(not (%s))" % s.seg(n.test))
            add("true", n.test, "True")
            add("false", n.test, "False")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add("bool", n, "(%s)" % op.join("(%s)" % s.seg(v) for v in n.values))
            for i in range(len(n.values)):
                add("term", n, "(%s)" % (" and " if op == " or " else " or ").join("(%s)" % s.seg(v) for j, v in enumerate(n.values) if j != i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("unnot", n, "(%s)" % s.seg(n.operand))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add("cmp", n, "%s %s %s" % (s.seg(n.left), CMP[type(n.ops[0])], s.seg(n.comparators[0])))
            if isinstance(n.ops[0], (ast.Lt, ast.LtE)):
                add("cmp", n, "%s > %s" % (s.seg(n.left), s.seg(n.comparators[0])))
            if isinstance(n.ops[0], (ast.Gt, ast.GtE)):
                add("cmp", n, "%s < %s" % (s.seg(n.left), s.seg(n.comparators[0])))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            add("arith", n, "%s %s %s" % (s.seg(n.left), "-" if isinstance(n.op, ast.Add) else "+", s.seg(n.right)))
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add("const", n, str(not v))
            elif isinstance(v, int):
                add("const", n, str(v + 1))
            elif isinstance(v, str) and not isinstance(s.parents.get(n), (ast.JoinedStr, ast.FormattedValue)):
                add("str", n, repr(v + "_x") if v else repr("x"))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1 and not isinstance(s.parents.get(n), ast.ExceptHandler):
            br = "()" if isinstance(n, ast.Tuple) else "{}" if isinstance(n, ast.Set) else "[]"
            for i in range(len(n.elts)):
                add("element", n, br[0] + ", ".join(s.seg(e) for j, e in enumerate(n.elts) if j != i) + ("," if br == "()" else "") + br[1])
            if isinstance(n, ast.List):
                add("order", n, "[" + ", ".join(s.seg(e) for e in n.elts[::-1]) + "]")
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            for i in range(len(n.keys)):
                add("item", n, "{" + ", ".join("%s: %s" % (s.seg(k), s.seg(v)) if k is not None else "**" + s.seg(v) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + "}")
        if isinstance(n, ast.Call):
            f = s.seg(n.func)
            if f.split(".")[0] in SKIP_CALLS:
                return
            args = [s.seg(a) for a in n.args]
            kws = [("%s=%s" % (k.arg, s.seg(k.value)) if k.arg else "**" + s.seg(k.value)) for k in n.keywords]
            for i in range(len(kws)):
                add("kwarg", n, "%s(%s)" % (f, ", ".join(args + kws[:i] + kws[i + 1:])))
            if len(args) == 2 and not kws:
                add("swap", n, "%s(%s)" % (f, ", ".join(args[::-1])))
                add("arg", n, "%s(%s)" % (f, args[0]))
            if f.split(".")[-1] in ("copy", "deepcopy", "sorted", "list", "dict", "str", "set") and not kws:
                if args and len(args) == 1:
                    add("unwrap", n, "(%s)" % args[0])
                elif not args and isinstance(n.func, ast.Attribute):
                    add("unwrap", n, s.seg(n.func.value))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip", "lower", "upper", "encode", "decode") and not isinstance(n.func.value, ast.Constant):
                add("unwrap", n, s.seg(n.func.value))
        if isinstance(n, ast.ExceptHandler):
            for x in n.body:
                visit(x)
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    add("except", n.type, "(" + ", ".join(s.seg(e) for j, e in enumerate(n.type.elts) if j != i) + ",)")
            return
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and isinstance(n.ctx, ast.Load):
            add("last", n, s.seg(n.value) + "[-1]")
        for c in ast.iter_child_nodes(n):
            visit(c)

    for x in s.tree.body:
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id.startswith("__"):
            continue
        visit(x)
    out, seen = [], set()
    for m in res:
        new = s.data[:m["a"]] + m["new"].encode() + s.data[m["b"]:]
        h = hashlib.sha256(new).hexdigest()[:10]
        if h in seen:
            continue
        try:
            compile(new, rel, "exec")
        except (SyntaxError, ValueError):
            continue
        seen.add(h)
        m["id"] = "%s:%d:%s:%s" % (rel, m["line"], m["kind"], h)
        out.append(m)
    return out


def files():
    res = [os.path.relpath(f, SRC) for f in glob.glob(SRC + "/**/*.py", recursive=True)]
    return sorted(f for f in res if f not in ("logging.py",))


def sh(cmd, cwd=None, env=None, timeout=900):
    """Also ends what it has started when it takes too long"""
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


class Copies:
    """One scratch copy per worker"""

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="mutate")
        self.local = threading.local()
        self.n = 0

    def get(self):
        if not hasattr(self.local, "dir"):
            self.local.dir = tempfile.mkdtemp(dir=self.base)
            shutil.copytree(REPO + "/src", self.local.dir + "/repo/src", ignore=shutil.ignore_patterns("__pycache__"))
            shutil.copytree(REPO + "/tests", self.local.dir + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        return self.local.dir

    def mutated(self, m, func):
        d = self.get()
        fn = os.path.join(d, "repo/src/oidcrp", m["file"])
        orig = open(os.path.join(SRC, m["file"]), "rb").read()
        assert orig[m["a"]:m["b"]].decode() == m["old"], m
        with open(fn, "wb") as f:
            f.write(orig[:m["a"]] + m["new"].encode() + orig[m["b"]:])
        try:
            return func(d)
        finally:
            with open(fn, "wb") as f:
                f.write(orig)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def run_tests(d):
    env = dict(os.environ, PYTHONPATH=os.path.join(d, "repo/src"), PYTHONDONTWRITEBYTECODE="1")
    w = tempfile.mkdtemp(dir=d)
    shutil.copytree(d + "/tests", w + "/tests")
    try:
        rc, out = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=30 -x", cwd=w + "/tests", env=env, timeout=120)
        return rc == 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def run_checks(d, m, order, scale):
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_OUT=d + "/out", VERIF_PROCS="1", VERIF_SHRINKING="0.01", VERIF_SCALE=str(scale), PYTHONDONTWRITEBYTECODE="1")
    os.makedirs(d + "/out", exist_ok=True)
    for c in order:
        rc, out = sh("./run_check %s" % c, cwd=ROOT, env=env, timeout=400)
        if rc != 0:
            line = [x for x in out.splitlines() if "failure" in x.lower() or "VIOLATION" in x or "Error" in x][:2]
            return c, rc, " ".join(line)[:300]
    return None, 0, ""


def main():
    cmd, args = sys.argv[1], sys.argv[2:]

    def opt(name, default):
        if name in args:
            i = args.index(name)
            v = args[i + 1]
            del args[i:i + 2]
            return type(default)(v)
        return default
    jobs, most, scale, prefix, seed = opt("-j", 6), opt("-n", 10 ** 6), opt("-s", 0.15), opt("-f", ""), opt("--seed", 1)
    if cmd == "list":
        tot = 0
        for f in files():
            n = len(mutants(f))
            tot += n
            print(n, f)
        print(tot)
        return
    done = set()
    outfile = args[-1]
    if os.path.exists(outfile):
        done = {json.loads(x)["id"] for x in open(outfile)}
    copies, lock = Copies(), threading.Lock()
    if cmd == "tests":
        todo = [m for f in files() if f.startswith(prefix) for m in mutants(f) if m["id"] not in done]
        random.Random(seed).shuffle(todo)
        todo = todo[:most]
        with open(outfile, "a") as fp, cf.ThreadPoolExecutor(jobs) as ex:
            def one(m):
                m["survived"] = copies.mutated(m, run_tests)
                with lock:
                    fp.write(json.dumps(m) + "\n")
                    fp.flush()
            list(ex.map(one, todo))
    else:
        ms = [json.loads(x) for x in open(args[0])]
        todo = [m for m in ms if m["survived"] and m["id"] not in done and m["file"].startswith(prefix)]
        random.Random(seed).shuffle(todo)
        anchors = {}
        for x in open(ROOT + "/properties.jsonl"):
            x = json.loads(x)
            anchors[x["id"]] = {f.split("oidcrp/", 1)[1] for f in x["anchors"]["files"] if "oidcrp/" in f}
        kills = collections.defaultdict(collections.Counter)
        checks = sorted(re.match(r"c(\d+)", x).group(0).upper() for x in os.listdir(ROOT + "/checks") if re.match(r"c\d+\.py", x))
        with open(outfile, "a") as fp, cf.ThreadPoolExecutor(jobs) as ex:
            def one(m):
                k = kills[m["file"]]
                order = sorted(checks, key=lambda c: (c in ("C28", "C22") and not k[c], -k[c] - (0.5 if m["file"] in anchors[c] else 0)))
                c, rc, line = copies.mutated(m, lambda d: run_checks(d, m, order, scale))
                with lock:
                    if c:
                        k[c] += 1
                    fp.write(json.dumps(dict(m, killed=c, rc=rc, how=line)) + "\n")
                    fp.flush()
            list(ex.map(one, todo[:most]))
    copies.close()


if __name__ == "__main__":
    main()
