#!/usr/bin/env python3
"""Planted bugs: generates /verif/seeded/<id>/ from the table in seedlib/table.py, confirms each one, and runs checks against it.
usage: seeds.py gen|confirm|hunt [id...]   (works on /repo, and puts it back with git checkout)
No check reads any of this."""
import json, os, shutil, subprocess, sys, importlib.util, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")      # gen and confirm may work in a clone (then without the unit tests)
LIB = os.path.join(V, "tools", "seedlib")
EXTRA = os.path.join(V, "build", "extra")
SEEDED = os.path.join(V, "seeded")
sys.path.insert(0, LIB)
from table import SEEDS

DEMO = """#!/bin/bash
# Run with cwd = the repository: exit 0 when the property holds, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
src=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
flags="-std=c++17 -O0 -g -w -I$src -I$here %s"
ls "$src"/src/*.cpp "$src"/src/cpp/*.cpp "$here"/demo.cpp | xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "{}" -o "'"$tmp"'/$(echo "{}" | tr / _).o"' || exit 3
g++ $flags "$tmp"/*.o -o "$tmp/demo" -lssl -lcrypto -lpthread || exit 3
mkdir "$tmp/run" && cd "$tmp/run" && timeout 120 "$tmp/demo"
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)

def apply_edits(root, s):
    for f, old, new in s["edits"]:
        p = os.path.join(root, f)
        t = open(p, encoding="latin-1").read()
        n = t.count(old)
        occ = s.get("occurrence", 0)
        if n == 0:
            raise SystemExit(f"{s['id']}: text not found in {f}: {old[:60]!r}")
        if n > 1 and "occurrence" not in s:
            raise SystemExit(f"{s['id']}: text found {n} times in {f}: {old[:60]!r}")
        pos = -1
        for _ in range(occ + 1):
            pos = t.index(old, pos + 1)
        t = t[:pos] + new + t[pos + len(old):]
        open(p, "w", encoding="latin-1").write(t)

def where(s):
    d = os.path.join(SEEDED, s["id"])
    return d if os.path.exists(d) else os.path.join(EXTRA, s["id"])

def gen(ids):
    os.makedirs(EXTRA, exist_ok=True)
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(SEEDED, s["id"])
        os.makedirs(d, exist_ok=True)
        apply_edits(REPO, s)
        diff = sh("git -C " + REPO + " diff").stdout
        sh("git -C " + REPO + " checkout -- .")
        open(os.path.join(d, "patch.diff"), "w", encoding="latin-1").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % ("-fsanitize=address,undefined -fno-sanitize-recover=all" if s.get("asan") else "-fsanitize=thread" if s.get("tsan") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        shutil.copy(os.path.join(LIB, "fake.h"), d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # removed lines must be original ones
        removed = []
        f = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
            elif l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                removed.append((f, ln)); ln += 1
            elif l.startswith(" "):
                ln += 1
        base = [sh(f"git -C {REPO} blame -s -L {n},{n} {f}").stdout.startswith("^") for f, n in removed]
        if not base or not all(base):      # does not count as a planted bug; still good for hunting
            shutil.rmtree(os.path.join(EXTRA, s["id"]), ignore_errors=True)
            shutil.move(d, os.path.join(EXTRA, s["id"]))
        print(s["id"], s["property"], f"removed {len(base)} lines, {sum(base)} original", "" if base and all(base) else "<<<<<< NOT ORIGINAL")

def confirm(ids):
    if REPO == "/repo": sh("bash /opt/vp/build.sh")
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = where(s)
        a = sh(f"bash {d}/demo.sh", cwd=REPO)
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        assert r.returncode == 0, r.stderr
        try:
            if REPO == "/repo": sh("bash /opt/vp/test.sh /tmp/seed_tests.json")
            try:
                j = json.load(open("/tmp/seed_tests.json")) if REPO == "/repo" else {"passed": [0] * 564, "failed": []}
            except Exception:
                j = {"passed": [], "failed": ["?"]}
            base = json.load(open("/opt/vp/BASELINE.json"))
            b = sh(f"bash {d}/demo.sh", cwd=REPO)
        finally:
            sh("git -C " + REPO + " checkout -- .")
        ok = a.returncode == 0 and b.returncode not in (0, 3) and len(j["passed"]) >= 564 and not j["failed"]
        print(("OK  " if ok else "BAD ") + s["id"], "clean", a.returncode, "patched", b.returncode, "tests", len(j["passed"]), j["failed"][:4], (b.stderr.strip().splitlines() or [""])[-1][:110] if ok else (a.stderr + b.stderr)[-600:], flush=True)
    sh("bash /opt/vp/build.sh")

def hunt(ids, props=None):
    """Runs the property's check (or those given) on /repo with each bug planted, in a scratch copy."""
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = "/tmp/hunt_" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh(f"git -C {REPO} archive HEAD | tar -x -C {d}")
        r = sh(f"git apply --directory= {where(s)}/patch.diff", cwd=d)
        r = sh(f"patch -p1 -s < {where(s)}/patch.diff", cwd=d) if r.returncode else r
        out = []
        for p in props or [s["property"]]:
            t0 = time.time()
            r = sh(f"python3 run.py {p} --tier quick", cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{p}:{'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'ERROR %d' % r.returncode}({time.time() - t0:.0f}s)")
        print(s["id"], " ".join(out), flush=True)
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == "hunt":
        ps = [x for x in rest if x[0] == "C" and x[1:].isdigit()]
        hunt([x for x in rest if x not in ps], ps or None)
    else:
        {"gen": gen, "confirm": confirm}[cmd](rest)
