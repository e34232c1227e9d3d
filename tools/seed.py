"""seed.py [ID...]: make /verif/seeded/<id>/ for the planted changes listed in seeds_list.py and confirm each one in a scratch copy:
only original lines change, the tests pass, the demonstration passes without the change and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds_list import SEEDS
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()
OUT = os.path.join(os.path.dirname(HERE), "seeded")
MINE = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--abbrev=8", "--author-date-order"], capture_output=True, text=True).stdout.split())
only = sys.argv[1:]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def original():
    """the commit the session started from"""
    log = sh(["git", "log", "--format=%H %s"], "/repo").stdout.splitlines()
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            return h


ORIG = original()
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" python3 "$here/demo.py"
'''
for sid, s in SEEDS.items():
    if only and sid not in only:
        continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        w = d + "/repo"
        sh(["git", "clone", "-q", "/repo", w], d)
        for f, old, new in s["edits"]:
            p = w + "/PathLib/" + f
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "diff"], w).stdout
        # every removed line is one of the original repository's
        for f in {e[0] for e in s["edits"]}:
            blame = sh(["git", "blame", "-l", "-s", "HEAD", "--", "PathLib/" + f], w).stdout.splitlines()
            old_no = None
            part = [x for x in patch.split("diff --git ") if x.startswith("a/PathLib/%s " % f)][0]
            removed = 0
            for line in part.splitlines():
                if line.startswith("@@"):
                    old_no = int(line.split("-")[1].split(",")[0].split(" ")[0])
                elif old_no is not None:
                    if line.startswith("-"):
                        h = blame[old_no - 1].split(" ")[0].lstrip("^")
                        if sh(["git", "merge-base", "--is-ancestor", h, ORIG], w).returncode != 0:
                            print(sid, "TOUCHES MY LINE", line)
                        removed += 1
                        old_no += 1
                    elif line.startswith(" "):
                        old_no += 1
            if not removed:
                print(sid, "removes nothing")
        out = OUT + "/" + sid
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if s.get("stub"):
            shutil.copytree(os.path.join(os.path.dirname(HERE), "stubs", "FontDocTools"), out + "/FontDocTools", ignore=shutil.ignore_patterns("__pycache__"))
        lay = d + "/lay"
        shutil.copytree(out, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], w, env=env)
        bad = sh(["bash", lay + "/demo.sh"], w)
        good = sh(["bash", lay + "/demo.sh"], "/repo")
        ok = t.returncode == 0 and bad.returncode != 0 and good.returncode == 0
        print(sid, "ok" if ok else "BAD", "tests", t.returncode, "good", good.returncode, "bad", bad.returncode, (bad.stderr.strip().splitlines() or [""])[-1][:100])
        if good.returncode:
            print(good.stderr[-600:])
        if t.returncode:
            print(t.stdout[-500:])
    finally:
        shutil.rmtree(d)
