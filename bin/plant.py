#!/usr/bin/env python3
"""Plant bugs: plant.py FILE.py [id ...]

FILE.py defines BUGS: a list of dicts with id, property, needs, breaks, edits [(file, old, new)],
demo (Python source that must fail with the change).  Each one is made in a scratch copy of /repo,
tested (suite, demo before and after) and, when it qualifies, stored in seeded/<id>.  Then the
property's check is run against it (in a scratch copy of /verif whose checks import the copy).
"""
import concurrent.futures as cf
import json
import os
import pathlib
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path("/repo")
DEMO_SH = """#!/bin/bash
# cwd: the repository
export PYTHONPATH="$PWD/src" JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 JAX_ENABLE_X64=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, timeout=900, **env):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True,
                       timeout=timeout, env={**os.environ, **env})
    return p.returncode, p.stdout + p.stderr


def stable():
    return set(json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"])


def suite(repo):
    """Names of stable tests that do not pass"""
    xml = repo / "report.xml"
    sh(f". /opt/vp/env.sh; PYTHONPATH={repo}/src:/opt/vp/plugin /opt/venv/bin/python -m pytest -q "
       f"-p no:cacheprovider -p vp_seed --timeout=300 -o junit_family=xunit2 --junitxml={xml} tests", repo)
    out = repo / "out.json"
    sh(["python3", "/opt/vp/results.py", str(out), f"junit:{xml}"], repo)
    res = json.loads(out.read_text())
    passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else \
        {k for k, v in res.items() if v in ("passed", "pass", True)}
    return sorted(stable() - passed)


def blame_ok(copy, patch):
    """Every removed line is one of the original repository"""
    base = sh("git log --format=%H --reverse | head -1", copy)[1].split()[0]
    for block in re.split(r"(?m)^diff --git ", patch)[1:]:
        name = block.split()[0][2:]
        for m in re.finditer(r"(?m)^@@ -(\d+),?(\d*) \+.*\n((?:[ +\-\\].*\n?)*)", block):
            n = int(m.group(1))
            for row in m.group(3).splitlines():
                if row.startswith("-"):
                    out = sh(["git", "blame", "-l", "--root", f"-L{n},{n}", "HEAD", "--", name], copy)[1]
                    if not out.lstrip("^").startswith(base) and base[:30] not in out:
                        return f"{name}:{n} is not an original line"
                if row[:1] in " -":
                    n += 1
    return ""


def one(bug):
    work = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        copy = work / "repo"
        shutil.copytree(REPO, copy, symlinks=True)
        for name, old, new in bug["edits"]:
            f = copy / "src/mpllayout" / name
            text = f.read_text()
            if text.count(old) != 1:
                return bug["id"], f"BAD: {text.count(old)} matches in {name}: {old[:60]!r}"
            f.write_text(text.replace(old, new))
        patch = sh("git diff", copy)[1]
        bad = blame_ok(copy, patch)
        if bad:
            return bug["id"], "BAD: " + bad
        demo = work / "demo"
        demo.mkdir()
        (demo / "demo.py").write_text(bug["demo"].lstrip("\n"))
        (demo / "demo.sh").write_text(DEMO_SH)
        (demo / "demo.sh").chmod(0o755)
        rc0, out0 = sh(["bash", str(demo / "demo.sh")], REPO, 300)
        rc1, out1 = sh(["bash", str(demo / "demo.sh")], copy, 300)
        if rc0 != 0:
            return bug["id"], "BAD: demo fails on the unchanged tree\n" + out0[-1500:]
        if rc1 == 0:
            return bug["id"], "BAD: demo passes with the change"
        failing = suite(copy)
        if failing:
            return bug["id"], f"BAD: suite catches it: {len(failing)} {failing[:3]}"
        dest = VERIF / "seeded" / bug["id"]
        if dest.exists():
            shutil.rmtree(dest)
        shutil.copytree(demo, dest)
        (dest / "patch.diff").write_text(patch)
        (dest / "meta.json").write_text(json.dumps(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        return bug["id"], "planted (" + out1.strip().splitlines()[-1][:120] + ") " + check(bug["property"], copy, work)
    finally:
        shutil.rmtree(work)


def check(prop, copy, work, seed="1"):
    v = work / "verif"
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
    f = v / "check"
    f.write_text(f.read_text().replace("/repo/src", f"{copy}/src"))
    try:
        rc, out = sh(["./check", prop], v, 900, VERIF_SEED=seed, VERIF_TIER="quick")
    except subprocess.TimeoutExpired:
        return "MISSED: no answer in 900 s"
    lines = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return f"CAUGHT ({len(lines)})" if rc == 1 and lines else f"MISSED rc={rc} {out[-300:]}"


def existing(name):
    """Run the check of an already planted bug"""
    d = VERIF / "seeded" / name
    prop = json.loads((d / "meta.json").read_text())["property"]
    work = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        copy = work / "repo"
        shutil.copytree(REPO, copy, symlinks=True)
        rc, out = sh(["git", "apply", str(d / "patch.diff")], copy)
        if rc:
            return name, "BAD: does not apply " + out
        return name, prop + " " + check(prop, copy, work, os.environ.get("VERIF_SEED", "1"))
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    jobs = int(os.environ.get("JOBS", "4"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        if sys.argv[1] == "--existing":
            names = sys.argv[2:] or sorted(p.name for p in (VERIF / "seeded").iterdir())
            todo = [ex.submit(existing, n) for n in names]
        else:
            bugs = runpy.run_path(sys.argv[1])["BUGS"]
            want = sys.argv[2:]
            todo = [ex.submit(one, b) for b in bugs if not want or b["id"] in want]
        for t in cf.as_completed(todo):
            print(*t.result(), flush=True)
