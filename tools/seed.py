"""Build and try the planted bugs of tools/seeds/*.py.

  seed.py build [id...]     write /verif/seeded/<id>/ after confirming, in a scratch copy, that the patch touches original lines only,
                            that the existing tests pass with it and that the demonstration tells the two trees apart
  seed.py matrix [id...]    run the check of the property (or all of -c C01,C02) against each bug; MATRIX.json collects the outcome
"""
import concurrent.futures as cf
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = "2d70167"
PRELUDE = '''import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.pop("REQUESTS_CA_BUNDLE", None)
_tmp = tempfile.mkdtemp()
os.chdir(_tmp)

try:
%s
finally:
    os.chdir("/")
    shutil.rmtree(_tmp, ignore_errors=True)
print("ok")
'''
DEMO_SH = '''#!/bin/sh
# cwd: the repository. Exit 0: the property holds on the demonstrated case.
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def seeds():
    res = {}
    for fn in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s_" + os.path.basename(fn)[:-3], fn)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in res, s["id"]
            res[s["id"]] = s
    return res


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def copy_repo():
    d = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(d, "repo")
    sh("cp -a /repo %s" % r)
    return d, r


def apply_edits(repo, s):
    for rel, old, new in s["edits"]:
        fn = os.path.join(repo, "src/oidcrp", rel)
        src = open(fn).read()
        if src.count(old) != 1:
            raise ValueError("%s: %d matches in %s for %r" % (s["id"], src.count(old), rel, old[:60]))
        open(fn, "w").write(src.replace(old, new))


def original_lines(repo, s, diff):
    """Removed lines must be lines of the original repository."""
    bad, good = [], 0
    fn, ln, blame = None, 0, {}
    for line in diff.splitlines():
        if line.startswith("--- "):
            fn = line[6:]
            out = sh("git blame -s HEAD -- %s" % fn, cwd=repo).stdout.splitlines()
            blame = {i + 1: l.split()[0] for i, l in enumerate(out)}
        elif line.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and fn:
            if not blame[ln].lstrip("^").startswith(BASE):
                bad.append((fn, ln, line))
            else:
                good += 1
            ln += 1
        elif line.startswith(" "):
            ln += 1
    return bad, good


def tests(repo):
    """The repository's own tests against a scratch copy."""
    env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1")
    d = tempfile.mkdtemp(prefix="seedt")
    sh("cp -a %s/tests %s/" % (repo, d))
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -x", cwd=d + "/tests", env=env)
    shutil.rmtree(d)
    return r


def build(s):
    d, repo = copy_repo()
    out = os.path.join(ROOT, "seeded", s["id"])
    try:
        try:
            apply_edits(repo, s)
        except ValueError as e:
            return s["id"], "EDIT " + str(e)
        diff = sh("git diff", cwd=repo).stdout
        bad, good = original_lines(repo, s, diff)
        if bad:
            return s["id"], "NOT ORIGINAL %r" % bad
        if not good:
            return s["id"], "no original line changed"
        stage = os.path.join(d, "bug")
        os.mkdir(stage)
        open(stage + "/patch.diff", "w").write(diff)
        body = "\n".join(("    " + l) if l.strip() else "" for l in s["demo"].strip("\n").split("\n"))
        open(stage + "/demo.py", "w").write(PRELUDE % body)
        open(stage + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(stage + "/demo.sh", 0o755)
        need = set(s.get("files", []))
        if re.search(r"\bop\b", s["demo"]):
            need |= {"op.py", "world.py", "keys.json"}
        elif "world" in s["demo"]:
            need |= {"world.py", "keys.json"}
        if "clock" in s["demo"].lower():
            need |= {"clock.py"}
        for f in need:
            shutil.copy(os.path.join(ROOT, "lib", f), stage)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(stage + "/meta.json", "w"), indent=1)
        r = sh("sh %s/demo.sh" % stage, cwd=repo, timeout=250)
        if r.returncode == 0 or "AssertionError" not in r.stdout:
            return s["id"], "DEMO does not fail with the bug\n" + r.stdout[-500:]
        with_bug = r.stdout.strip().splitlines()[-1:]
        t = tests(repo)
        if t.returncode != 0:
            return s["id"], "TESTS fail: " + " ".join(re.findall(r"^FAILED.*", t.stdout, re.M))[:300] + t.stdout[-200:]
        sh("git checkout -q -- .", cwd=repo)
        if sh("git apply --check %s/patch.diff" % stage, cwd=repo).returncode:
            return s["id"], "PATCH does not apply"
        r = sh("sh %s/demo.sh" % stage, cwd=repo, timeout=250)
        if r.returncode != 0:
            return s["id"], "DEMO fails without the bug\n" + r.stdout[-1500:]
        if sh("git status --short", cwd=repo).stdout.strip():
            return s["id"], "DEMO leaves changes"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        shutil.rmtree(os.path.join(out, "__pycache__"), ignore_errors=True)
        return s["id"], "ok  " + str(with_bug)[:150]
    finally:
        shutil.rmtree(d)


def run_check(s, check):
    d, repo = copy_repo()
    try:
        r = sh("git apply %s" % os.path.join(ROOT, "seeded", s["id"], "patch.diff"), cwd=repo)
        if r.returncode:
            return s["id"], check, "patch: " + r.stdout[-100:], ""
        env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d, VERIF_PROCS=os.environ.get("VERIF_PROCS", "4"))
        r = sh("./run_check %s" % check, cwd=ROOT, env=env, timeout=1200)
        m = re.search(r"^VIOLATION property=%s.*" % check, r.stdout, re.M)
        res = "caught" if r.returncode == 1 and m else "quiet" if r.returncode == 0 else "ERROR"
        info = [l for l in r.stdout.splitlines() if "Failure" in l or "failure" in l or "test=" in l][:1]
        return s["id"], check, res, (info[0] if info else r.stdout[-300:] if res == "ERROR" else "")
    finally:
        shutil.rmtree(d)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    checks = None
    if "-c" in args:
        i = args.index("-c")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    ss = seeds()
    todo = [ss[a] for a in args] if args else list(ss.values())
    if cmd == "build":
        if not args:
            todo = [s for s in todo if not os.path.exists(os.path.join(ROOT, "seeded", s["id"], "patch.diff"))]
        with cf.ThreadPoolExecutor(6) as ex:
            for r in ex.map(build, todo):
                print(*r, flush=True)
    elif cmd == "matrix":
        jobs = [(s, c) for s in todo if os.path.exists(os.path.join(ROOT, "seeded", s["id"])) for c in (checks or [s["property"]])]
        fn = os.path.join(HERE, "matrix.json")
        mat = json.load(open(fn)) if os.path.exists(fn) else {}
        with cf.ThreadPoolExecutor(3) as ex:
            for sid, c, res, info in ex.map(lambda j: run_check(*j), jobs):
                print(sid, c, res, info, flush=True)
                mat.setdefault(sid, {})[c] = res
        json.dump(mat, open(fn, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    main()
