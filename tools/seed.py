"""Makes and confirms a planted bug: seed.py FILE.  FILE defines id, property, needs, breaks,
edits [(file, old, new)] and demo (Python source).  Works in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL, **kw)


def tests(cwd):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=15", "-o", "python_files=tests.py test_*.py *_test.py", "pyactr"], cwd, env=env, timeout=600)
    return r.returncode == 0, r.stdout[-600:]


def make(path):
    g = {}
    exec(open(path).read(), g)
    out = os.path.join(HERE, "seeded", g["id"])
    tmp = tempfile.mkdtemp(dir="/tmp")
    try:
        cp = os.path.join(tmp, "repo")
        shutil.copytree("/repo", cp, symlinks=True)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(g["demo"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null\n')
        r = sh(["bash", os.path.join(out, "demo.sh")], cp)
        if r.returncode != 0:
            return f"{g['id']}: demo fails on the unchanged tree: {r.stdout[-1500:]}"
        for fn, old, new in g["edits"]:
            p = os.path.join(cp, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{g['id']}: {fn}: {s.count(old)} places"
            open(p, "w").write(s.replace(old, new))
            for i, l in enumerate(s[:s.index(old)].count("\n") + 1 + k for k in range(old.count("\n") + 1)):
                pass
        d = sh(["git", "diff"], cp).stdout
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(d)
        # removed lines belong to the original repository
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cp).stdout.split()[-1]
        for fn in {e[0] for e in g["edits"]}:
            old = set(sh(["git", "show", f"{base}:{fn}"], cp).stdout.split("\n"))
            for l in sh(["git", "diff", "-U0", fn], cp).stdout.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in old:
                    return f"{g['id']}: not an original line: {l}"
        r = sh(["bash", os.path.join(out, "demo.sh")], cp)
        if r.returncode == 0:
            return f"{g['id']}: demo passes with the change"
        what = r.stdout.strip().split("\n")[-1][:200]
        ok, t = tests(cp)
        if not ok:
            return f"{g['id']}: the tests fail with the change: {t}"
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, f, indent=1)
            f.write("\n")
        return f"{g['id']}: ok ({what})"
    finally:
        shutil.rmtree(tmp)


bad = 0
for p in sys.argv[1:]:
    r = make(p)
    print(r, flush=True)
