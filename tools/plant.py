"""Plant a bug: build /verif/seeded/<id>/ from a spec and confirm it.

usage: plant.py SPECFILE [ID...]        SPECFILE is Python defining BUGS = [dict(id, property, file, edits,
       needs, breaks, demo), ...]; every edit is (old, new) and `old` must occur once, on lines of the base commit.

A bug is kept when, in a scratch copy of /repo: the patch applies, only base lines change, the baseline tests
still pass, the demo exits 0 without and nonzero with it.  The property's own check is then run against the copy
and the outcome printed (CAUGHT / MISSED); the bug is kept either way.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import warnings

warnings.simplefilter("ignore")
import numpy as np
import pandas as pd


def bars(n, seed=1, start=100.0, vol=0.02):
    """Deterministic OHLCV history."""
    rng = np.random.default_rng(seed)
    close = start * np.exp(np.cumsum(rng.normal(0, vol, n)))
    high = close * (1 + rng.uniform(0.001, vol, n))
    low = close * (1 - rng.uniform(0.001, vol, n))
    volume = rng.integers(100, 10000, n).astype(float)
    op = low + (high - low) * rng.uniform(0, 1, n)
    return pd.DataFrame({"open": op, "high": high, "low": low, "close": close, "volume": volume})


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True), (a[~np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True)][:3],
                                                               b[~np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True)][:3])


'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def baselines(repo, path):
    """line numbers (1-based) of `path` at HEAD that come from the base commit"""
    base = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0][:12]
    out = sh(["git", "-C", repo, "blame", "-s", "--abbrev=12", path]).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.lstrip("^")[:12].startswith(base[:11]) or l[1:].startswith(base[:11])}


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    skip = []
    if os.path.exists("/tmp/failing.txt"):
        for l in open("/tmp/failing.txt"):
            skip += ["--deselect", "test/unit/" + l.strip().split("test/unit/")[-1]]
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        try:
            one(b, tmp, skip)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def one(b, tmp, skip):
    repo = os.path.join(tmp, "repo")
    shutil.copytree("/repo", repo)
    okl = None
    byfile = {}
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT MATCHES", s.count(old), repr(old[:80]))
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", repo, "diff"]).stdout
    # only base lines removed, and something removed or inserted between base lines
    for f in {(e[0] if len(e) == 3 else b["file"]) for e in b["edits"]}:
        okl = baselines("/repo", f)
        for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? \+\d+(?:,\d+)? @@.*$", sh(["git", "-C", repo, "diff", "-U0", f]).stdout, re.M):
            a, n = int(h.group(1)), int(h.group(2) or 1)
            bad = [i for i in range(a, a + n) if i not in okl]
            if bad:
                print(b["id"], "CHANGES NON-BASE LINES", f, bad)
                return
    d = os.path.join(tmp, "d")
    os.makedirs(d)
    open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].strip() + "\nprint('ok')\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
    if r.returncode:
        print(b["id"], "DEMO FAILS ON CLEAN", r.stdout[-500:], r.stderr[-800:])
        return
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo, timeout=300)
    if not r.returncode:
        print(b["id"], "DEMO PASSES WITH BUG")
        return
    why = (r.stderr.strip().splitlines() or [""])[-1][:90]
    t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "python_files=*.py", "test/unit"] + skip, cwd=repo)
    if t.returncode:
        print(b["id"], "TESTS FAIL", t.stdout[-400:])
        return
    out = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    for f in ("demo.py", "demo.sh"):
        shutil.copy(os.path.join(d, f), out)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    r = sh([PY, "run.py", b["property"], "--no-evidence", "--jobs", "4", "--seed", "1"], cwd=HERE, env={"VERIF_REPO": repo})
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(b["id"], b["property"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "|", why, flush=True)


main()
