#!/usr/bin/env python3
"""Mutation testing of the checks: makes small changes to the library's sources in scratch copies, drops those that do not compile or
that the repository's own unit tests notice, and runs the quick checks (a fraction of their cases) against the others.
usage: mutate.py OUT.jsonl [--count N] [--seed N] [--slots N] [--files RE] [--fraction N] [--skip OTHER.jsonl]
Everything is built below /tmp/mut; neither /repo nor /verif is written to."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
GROUPS = {  # checks most likely to notice, by file
    "smtpclientbase": "C05 C06 C01 C08 C19 C12 C15 C17 C16 C11 C25 C02 C03 C13 C07 C14 C30 C04".split(),
    "securesmtp": "C16 C09 C10 C08 C07 C14 C15 C29 C19 C05 C11".split(),
    "forced": "C09 C05 C19 C24".split(), "opportunistic": "C09 C25 C05 C19 C24".split(),
    "attachment": "C21 C04 C18 C26 C24".split(), "base64": "C20 C21".split(), "message": "C18 C03 C22 C26 C24".split(),
    "credential": "C18 C26 C11 C24".split(), "errorresolver": ["C23"], "stringutils": "C27 C21 C29".split(),
}


def lines_of(path):
    """Numbers of the lines that are compiled here (no Windows branches, no comments, no preprocessor lines)."""
    out, stack = [], []
    for n, l in enumerate(open(path, encoding="latin-1").read().split("\n")):
        t = l.strip()
        if t.startswith("#"):
            if re.match(r"#\s*ifdef\s+_WIN32", t): stack.append(False)
            elif re.match(r"#\s*if", t): stack.append(True)
            elif re.match(r"#\s*el", t): stack[-1] = not stack[-1]
            elif re.match(r"#\s*endif", t): stack.pop()
            continue
        if all(stack) and t and not t.startswith(("//", "*", "/*")):
            out.append((n, l))
    return out


RULES = [
    (r"(?<![<>=!-])<=(?!=)", ["<"]), (r"(?<![<>=!-])>=(?!=)", [">"]), (r" < (?!<)", [" <= ", " > "]), (r" > (?!>)", [" >= ", " < "]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"\+\+", ["--"]), (r" \+= ", [" = "]), (r"(?<![\w.\"])([1-9]\d*)(?![\w.\"])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(int(m.group(1)) - 1)]),
    (r"(?<![\w.\"])0(?![\w.\"])", ["1"]), (r"nullptr", []), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]),
    (r"\bif \((.*)\) \{$", [lambda m: f"if (!({m.group(1)})) {{", lambda m: "if (true) {", lambda m: "if (false) {"]),
    (r"\bwhile \((.*)\) \{$", [lambda m: "while (false) {"]),
    (r"^(\s*)([\w:.*\[\]>()-]+(?:\(.*\)| [|&+-]?= .*));$", [lambda m: m.group(1) + ";"]),
    (r"^(\s*)return (?!;)(.+);$", [lambda m: m.group(1) + "return {};"]),
    (r"\.length\(\)", [".length() - 1"]), (r"\bstrlen\(([^()]*)\)", [lambda m: f"(strlen({m.group(1)}) + 1)", lambda m: f"(strlen({m.group(1)}) - 1)"]),
    (r"\\r\\n", ["\\\\n", "\\\\r\\\\n\\\\r\\\\n"]), (r"std::move\((\w+)\)", [lambda m: m.group(1)]), (r" \| ", [" & "]), (r" & (?=\w)", [" | "]),
    (r"^(\s*)(m\w+)\(other\.(m\w+)\)(,?.*)$", [lambda m: f"{m.group(1)}{m.group(2)}(){m.group(4)}"]),
]


def mutants(files):
    out = []
    for f in files:
        for n, l in lines_of(os.path.join("/repo", f)):
            for pat, reps in RULES:
                for m in re.finditer(pat, l):
                    for r in reps:
                        new = l[:m.start()] + (r(m) if callable(r) else m.expand(r) if "\\" in r else r) + l[m.end():]
                        if new != l:
                            out.append((f, n, l, new))
    seen, res = set(), []
    for x in out:
        if (x[0], x[1], x[3]) not in seen:
            seen.add((x[0], x[1], x[3])); res.append(x)
    return res


class Slot:
    def __init__(self, k):
        self.d = os.path.join(ROOT, str(k)); self.repo = self.d + "/repo"; self.verif = self.d + "/verif"; self.obj = self.d + "/obj"
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.obj)
        shutil.copytree("/repo", self.repo, ignore=shutil.ignore_patterns("_build", ".git"))
        subprocess.run(f"mkdir {self.verif} && cp -r {V}/run.py {V}/props {V}/harness {V}/KNOWN_FINDINGS {self.verif}/", shell=True, check=True)
        self.flags = f"-std=c++17 -O1 -w -I{self.repo} -I{self.repo}/src -I/usr/include/gtest"
        srcs = sorted(glob.glob(self.repo + "/src/*.cpp") + glob.glob(self.repo + "/src/cpp/*.cpp") + glob.glob(self.repo + "/test/**/*.cpp", recursive=True))
        self.objs = {}
        procs = []
        for s in srcs:
            o = os.path.join(self.obj, s.replace("/", "_") + ".o"); self.objs[s] = o
            procs.append(subprocess.Popen(f"g++ {self.flags} -c {s} -o {o}", shell=True))
            if len(procs) % 8 == 0: [p.wait() for p in procs]
        for p in procs:
            if p.wait(): raise SystemExit("scratch build failed")

    def unit(self, f):
        s = os.path.join(self.repo, f)
        if subprocess.run(f"g++ {self.flags} -c {s} -o {self.obj}/m.o", shell=True, stderr=subprocess.DEVNULL).returncode: return "compile"
        objs = [o for k, o in self.objs.items() if k != s] + [self.obj + "/m.o"]
        r = subprocess.run(["g++"] + objs + ["-o", self.obj + "/unit", "-lgtest", "-lgmock", "-lssl", "-lcrypto", "-lpthread"], stderr=subprocess.PIPE, text=True)
        if r.returncode: return "link " + r.stderr[-300:]
        try:
            r = subprocess.run([self.obj + "/unit", "--gtest_brief=1"], cwd=self.obj, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            return "unit tests"
        return "unit tests" if r.returncode else ""

    def check(self, p, cases):
        try:
            r = subprocess.run(["python3", "run.py", p, "--tier", "quick", "--cases", str(cases), "--no-fuzz"], cwd=self.verif, env=dict(os.environ, VERIF_REPO=self.repo, VERIF_SEED="7"), text=True, capture_output=True, timeout=400)
        except subprocess.TimeoutExpired:
            return "timeout", ""
        for x in glob.glob(self.verif + "/build/" + "*"):
            if os.path.isfile(x) and os.access(x, os.X_OK): os.unlink(x)
        shutil.rmtree(self.verif + "/replays", ignore_errors=True)
        return r.returncode, r.stdout[-600:] + r.stderr[-300:]


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("--count", type=int, default=200); a.add_argument("--seed", type=int, default=1)
    a.add_argument("--slots", type=int, default=2); a.add_argument("--files", default="."); a.add_argument("--fraction", type=int, default=4); a.add_argument("--skip", action="append", default=[])
    a = a.parse_args()
    files = [os.path.relpath(p, "/repo") for p in sorted(glob.glob("/repo/src/*.cpp") + glob.glob("/repo/src/cpp/*.cpp"))]
    files = [f for f in files if re.search(a.files, f)]
    all_ = mutants(files)
    done = {(r["file"], r["line"], r["new"]) for o in a.skip + ([a.out] if os.path.exists(a.out) else []) for r in map(json.loads, open(o))}
    rnd = random.Random(a.seed); rnd.shuffle(all_)
    all_ = [m for m in all_ if (m[0], m[1] + 1, m[3].strip()) not in done][:a.count]
    props = [f"C{i:02d}" for i in range(1, 31)]
    cases = {}
    for p in props:
        m = re.search(r'\brun,\s*(\d+)', open(f"{V}/props/{p}.cpp").read())
        cases[p] = max(int(m.group(1)) // a.fraction, 200)
    kills = {}
    lock = threading.Lock(); out = open(a.out, "a")
    def work(slot):
        while True:
            with lock:
                if not all_: return
                f, n, old, new = all_.pop()
            path = os.path.join(slot.repo, f)
            text = open(path, encoding="latin-1").read(); ls = text.split("\n"); ls[n] = new
            open(path, "w", encoding="latin-1").write("\n".join(ls))
            res = dict(file=f, line=n + 1, old=old.strip(), new=new.strip()); t = time.time()
            u = slot.unit(f)
            if u: res["result"] = u
            else:
                first = next((g for k, g in GROUPS.items() if k in f), [])
                with lock: score = dict(kills.get(f, {}))
                order = sorted(props, key=lambda p: (-score.get(p, 0), first.index(p) if p in first else 99))
                res["result"] = "SURVIVED"; odd = []
                for p in order:
                    rc, text2 = slot.check(p, cases[p])
                    if rc == 1:
                        res["result"] = "killed"; res["by"] = p
                        m = re.search(r"^\[([^\]]*)\] (.*)", text2, re.M); res["how"] = m.group(0)[:200] if m else ""
                        with lock: kills.setdefault(f, {}); kills[f][p] = kills[f].get(p, 0) + 1
                        break
                    if rc != 0: odd.append((p, str(rc), text2[-200:]))
                if odd: res["odd"] = odd
            open(path, "w", encoding="latin-1").write(text)
            res["seconds"] = round(time.time() - t, 1)
            with lock: out.write(json.dumps(res) + "\n"); out.flush()
    ts = [threading.Thread(target=work, args=(Slot(k),)) for k in range(a.slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(ROOT, ignore_errors=True)

main()
