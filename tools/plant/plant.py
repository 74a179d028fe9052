"""
Make /verif/seeded/<id> from the entries of bugs*.py.

    plant.py [ids...]     build, confirm (stable tests + demo both ways), write

An entry: id, property, edits [(file, old, new)], needs, breaks, demo (code).
"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
WORK = "/tmp/plantwork"


def sh(cmd, cwd=None, timeout=200):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return r.returncode, r.stdout + r.stderr


def load():
    bugs = []
    for path in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    return bugs


def do(b):
    work = os.path.join(WORK, b["id"])
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repo = os.path.join(work, "repo")
    sh(f"cp -a /repo {repo}")
    sh("git checkout -q -- .", cwd=repo)
    demo = os.path.join(work, "demo")
    os.makedirs(demo)
    with open(os.path.join(demo, "demo.py"), "w") as f:
        f.write(b["demo"].lstrip("\n"))
    shutil.copy(os.path.join(HERE, "lib.py"), os.path.join(demo, "lib.py"))
    with open(os.path.join(demo, "demo.sh"), "w") as f:
        f.write(
            "#!/bin/bash\n# cwd: the repository\n"
            "export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n"
            'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        )
    os.chmod(os.path.join(demo, "demo.sh"), 0o755)
    code, out = sh(f"bash {demo}/demo.sh", cwd=repo)
    if code != 0:
        return b["id"], "demo fails on the clean tree", out[-1500:]
    for file, old, new in b["edits"]:
        p = os.path.join(repo, "comb_spec_searcher", file)
        s = open(p).read()
        if s.count(old) != 1:
            return b["id"], f"{s.count(old)} matches in {file}", old
        open(p, "w").write(s.replace(old, new))
    code, out = sh(f"bash {demo}/demo.sh", cwd=repo)
    if code == 0:
        return b["id"], "demo passes with the bug", out[-500:]
    demo_out = out[-400:]
    rc, diff = sh("git diff", cwd=repo)
    code, out = sh(
        "rm -f test_readme.txt; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
        "--continue-on-collection-errors -o junit_family=xunit2 "
        f"--junitxml={work}/junit.xml tests comb_spec_searcher test_readme.txt example.py"
        f"; /usr/bin/python3 /opt/vp/results.py {work}/res.json junit:{work}/junit.xml",
        cwd=repo,
    )
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
    if not os.path.exists(f"{work}/res.json"):
        return b["id"], "tests time out", ""
    got = set(json.load(open(f"{work}/res.json"))["passed"])
    miss = stable - got
    if miss:
        return b["id"], f"{len(miss)} stable tests fail", "\n".join(sorted(miss)[:5])
    dest = os.path.join(SEEDED, b["id"])
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(demo, dest)
    with open(os.path.join(dest, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(dest, "meta.json"), "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
    shutil.rmtree(work)
    return b["id"], "kept", demo_out


if __name__ == "__main__":
    bugs = load()
    ids = [b["id"] for b in bugs]
    assert len(set(ids)) == len(ids)
    want = sys.argv[1:]
    bugs = [b for b in bugs if (b["id"] in want if want else not os.path.exists(os.path.join(SEEDED, b["id"])))]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(do, bugs):
            print(f"== {r[0]}: {r[1]}\n{r[2]}", flush=True)
