#!/usr/bin/env python3
"""Builds /repo's current sources with the harness and decides one property.

  run.py C07 [--tier quick|thorough] [--seed N] [--cases N] [--wall S] [--only N] [--replay FILE]
  run.py --build-all

Exit 0: the property held on everything explored. Exit 1: VIOLATION line printed. Exit 3: could not be decided.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")
CXX = shutil.which("clang++") or "clang++"
COMMON = ["-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-Wno-everything",
          "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]
LIBS = ["-lssl", "-lcrypto", "-lpthread", "-ldl"]
# properties whose choice sequences are also explored by coverage feedback in the thorough tier
FUZZ_SECONDS = int(os.environ.get("VERIF_FUZZ_SECONDS", "150"))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, os.path.join(REPO, "src"))
        if any(d in ("example", "examples", "test", "tests") for d in rel.split(os.sep)[:-1]):
            continue
        if re.search(rb"^\s*(?:int|auto)\s+main\s*\(", rd(p), re.M):
            continue
        out.append(p)
    return out


def headers(root, pats):
    out = []
    for pat in pats:
        out += glob.glob(os.path.join(root, "**", pat), recursive=True)
    return sorted(set(out))


class BuildError(Exception):
    pass


def compile_one(src, flags, dep_hash, tag):
    key = sha(dep_hash, rd(src), " ".join(flags), src)
    obj = os.path.join(BUILD, "%s-%s-%s.o" % (tag, os.path.splitext(os.path.basename(src))[0], key))
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=BUILD)
    os.close(fd)
    try:
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s does not compile:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, obj)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return obj


def sanitizer(prop):
    m = re.match(rb"// sanitizer: (\S+)", rd(os.path.join(VERIF, "props", prop + ".cpp")))
    return m.group(1).decode() if m else "address,undefined"


LOCALES = [("tr_TR", "ISO-8859-9"), ("tr_TR", "UTF-8"), ("de_DE", "ISO-8859-1")]


def locales():
    """Compiles the locales some properties run under; a locale that can not be made is left out there."""
    d = os.path.join(BUILD, "locales")
    for name, cs in LOCALES:
        to = os.path.join(d, name + "." + cs)
        if os.path.isdir(to):
            continue
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=d)
        try:
            r = subprocess.run(["localedef", "-i", name, "-f", cs, "--no-archive", os.path.join(tmp, name + "." + cs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.isfile(os.path.join(tmp, name + "." + cs, "LC_CTYPE")):
                os.rename(os.path.join(tmp, name + "." + cs), to)
        except OSError:
            pass
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def prune():
    try:
        items = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(BUILD, "*")) if os.path.isfile(p) and not p.endswith(".lock")]
    except OSError:
        return
    items.sort(reverse=True)
    total = 0
    now = time.time()
    for m, s, p in items:
        total += s
        if total > 1500e6 and now - m > 3600:
            try:
                os.unlink(p)
            except OSError:
                pass


def build(prop, fuzz=False, pool=None):
    os.makedirs(BUILD, exist_ok=True)
    psrc = os.path.join(VERIF, "props", prop + ".cpp")
    if b"LOCPATH" in rd(psrc):
        locales()
    san = sanitizer(prop)
    flags = [f for f in COMMON if not f.startswith("-fsanitize=") and not f.startswith("-fno-sanitize")]
    # "work": the library counts the edges it runs through; a deterministic measure of time
    lflags = [] if san == "work" else ["-fsanitize=" + san, "-fno-sanitize-recover=all"]
    flags += lflags
    rflags = flags + (["-fsanitize-coverage=trace-pc-guard"] if san == "work" else [])
    if fuzz:
        flags = flags + ["-DPBT_FUZZ", "-fsanitize=fuzzer-no-link"]
    vhash = sha(rd(CXX) if os.path.getsize(CXX) < 1 << 20 else CXX)
    rhash = sha(vhash, *[rd(p) for p in headers(os.path.join(REPO, "src"), ["*.h", "*.hpp", "*.inc", "*.ipp"])])
    hhash = sha(vhash, *[rd(p) for p in headers(os.path.join(VERIF, "harness"), ["*.h"]) + headers(os.path.join(VERIF, "props"), ["*.h"])])
    jobs = [(s, rflags + (["-fsanitize=fuzzer-no-link"] if fuzz else []), rhash, "r") for s in repo_sources()]
    # model.cpp and the properties see the library's headers; the engine, network and server do not
    for s in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        jobs.append((s, flags, sha(rhash, hhash) if os.path.basename(s) == "model.cpp" else hhash, "h"))
    jobs.append((psrc, flags, sha(rhash, hhash), "p"))
    own = pool is None
    pool = pool or ThreadPoolExecutor(os.cpu_count() or 4)
    futs = [pool.submit(compile_one, *j) for j in jobs]
    try:
        objs = [f.result() for f in futs]
    finally:
        if own:
            pool.shutdown(wait=True)
    exe = os.path.join(BUILD, "%s%s-%s" % (prop, "-fuzz" if fuzz else "", sha(*objs)))
    if not os.path.exists(exe):
        fd, tmp = tempfile.mkstemp(suffix=".exe", dir=BUILD)
        os.close(fd)
        try:
            cmd = [CXX, "-rdynamic"] + lflags + (["-fsanitize=fuzzer"] if fuzz else []) + objs + ["-o", tmp] + LIBS
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("link of %s failed:\n%s" % (prop, r.stdout.decode(errors="replace")[-4000:]))
            os.chmod(tmp, 0o755)
            os.rename(tmp, exe)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
    return exe


def all_props():
    return sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(os.path.join(VERIF, "props", "C[0-9][0-9].cpp")))


def env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    e.pop("UBSAN_OPTIONS", None)
    e.pop("TSAN_OPTIONS", None)
    e.pop("SSL_CERT_FILE", None)
    e.pop("SSL_CERT_DIR", None)
    e["LC_ALL"] = "C"
    e["LOCPATH"] = os.path.join(BUILD, "locales")
    e["OPENSSL_CONF"] = "/dev/null"
    return e


def run_engine(exe, a, seed, tier, out, extra):
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", out, "--known", KNOWN, "--replaydir", os.path.join(VERIF, "replays")] + extra
    r = subprocess.run(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if r.returncode not in (0, 1):
        raise BuildError("harness failed (%d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
    with open(out) as f:
        return json.load(f)


def fuzz_phase(prop, seed, work):
    """Coverage-guided search over the same choice sequences; returns (executions, [crash files])."""
    exe = build(prop, fuzz=True)
    procs = []
    n = os.cpu_count() or 4
    crash = os.path.join(work, "crash")
    corpus = os.path.join(work, "corpus")
    os.makedirs(crash)
    os.makedirs(corpus)
    with open(os.path.join(corpus, "zero"), "wb") as f:
        f.write(b"\0" * 64)
    for k in range(n):
        log = open(os.path.join(work, "log%d" % k), "wb")
        e = env()
        e["TMPDIR"] = work
        procs.append((subprocess.Popen([exe, corpus, "-seed=%d" % (1 + (seed * 131 + k) % 2000000000), "-max_total_time=%d" % FUZZ_SECONDS,
                                        "-max_len=4096", "-timeout=60", "-rss_limit_mb=0", "-reload=1", "-print_final_stats=1", "-len_control=50",
                                        "-artifact_prefix=%s/%d-" % (crash, k)], stdout=log, stderr=log, env=e, cwd=work), log))
    execs = 0
    for p, log in procs:
        try:
            p.wait(timeout=FUZZ_SECONDS + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.close()
    cov = 0
    for k in range(n):
        t = rd(os.path.join(work, "log%d" % k)).decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        if m:
            execs += int(m.group(1))
        else:
            m = re.findall(r"^#(\d+)\s", t, re.M)
            execs += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+)", t)
        if m:
            cov = max(cov, int(m[-1]))
    return execs, cov, sorted(glob.glob(crash + "/*")), corpus


def level_of(prop):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    return c.get("level", "exploration")
    except (OSError, ValueError, KeyError):
        pass
    return "exploration"


ASSUME_THREAD = "This check is built with the thread sanitizer instead; OpenSSL and the C++ runtime are not instrumented."
ASSUME_WORK = "This check is built without sanitizers; work is counted in edges run through in the library's code plus bytes handled by the C library's memory and string functions."
ASSUME = ["The network, resolver, clock and sleep functions are a deterministic model below the libc boundary; OpenSSL and the library run unchanged above it.",
          "The library is built with clang++ -O1 and address/undefined sanitizers, from the sources under /repo/src."]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--wall", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--no-fuzz", action="store_true")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            for p in all_props():
                try:
                    build(p, pool=pool)
                except BuildError as e:
                    print(e, file=sys.stderr)
                    return 3
        return 0
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    try:
        exe = build(a.prop)
    except BuildError as e:
        print(e, file=sys.stderr)
        return 3
    if a.replay or a.only is not None:
        cmd = [exe, "--tier", a.tier, "--seed", str(a.seed)]
        cmd += ["--replay", a.replay] if a.replay else ["--only", str(a.only)]
        return subprocess.run(cmd, env=env()).returncode
    work = tempfile.mkdtemp(prefix="verif.%s." % a.prop)
    try:
        extra = ["--wall", str(a.wall or (240 if a.tier == "quick" else 1800))]
        if a.cases:
            extra += ["--cases", str(a.cases)]
        corpus = os.path.join(VERIF, "corpus", a.prop)
        if os.path.isdir(corpus):
            extra += ["--corpus", corpus]
        try:
            res = run_engine(exe, a, a.seed, a.tier, os.path.join(work, "out.json"), extra)
            fz = None
            if a.tier == "thorough" and not a.no_fuzz and not res["violation"] and sanitizer(a.prop) == "address,undefined":
                execs, cov, crashes, fcorpus = fuzz_phase(a.prop, a.seed, work)
                fz = {"executions": execs, "edges": cov, "crash_inputs": len(crashes)}
                # The engine decides: the fuzzer's corpus and crash inputs are replayed as cases, shrunk and reported by it.
                merged = os.path.join(work, "merged")
                os.makedirs(merged)
                for i, c in enumerate(crashes):
                    shutil.copy(c, os.path.join(merged, "a%05d" % i))
                for i, c in enumerate(sorted(os.listdir(fcorpus))[:6000]):
                    shutil.copy(os.path.join(fcorpus, c), os.path.join(merged, "b%05d" % i))
                cnt = len(os.listdir(merged))
                r2 = run_engine(exe, a, a.seed, a.tier, os.path.join(work, "out2.json"), ["--wall", "900", "--cases", str(cnt), "--corpus", merged])
                fz["corpus_cases_replayed"] = r2["evaluations"]
                res["evaluations"] += r2["evaluations"]
                res["distinct_nontrivial"] += 0
                for k, v in r2["known"].items():
                    res["known"][k] = res["known"].get(k, 0) + v
                if r2["violation"]:
                    for k in ("violation", "tag", "msg", "desc", "replay", "shrink_tries"):
                        res[k] = r2[k]
        except BuildError as e:
            print(e, file=sys.stderr)
            return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune()
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"], "samples": res["samples"],
           "planned": res["planned"], "classes": res["labels"], "inconclusive_not_reproduced": res["flaky"], "inconclusive_note": res["flaky_note"]}
    if fz:
        cov["coverage_guided"] = fz
    if res["known"]:
        cov["known_findings_hit"] = res["known"]
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": level_of(a.prop), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if res["violation"] else 0, "assumptions": ASSUME + {"thread": [ASSUME_THREAD], "work": [ASSUME_WORK]}.get(sanitizer(a.prop), [])}
    tmp = os.path.join(EVID, ".%s.%d" % (a.prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, a.prop + ".json"))
    for k in sorted(res["known"]):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (a.prop, a.tier, a.seed, res["evaluations"], res["distinct_nontrivial"],
          time.time() - t0, (", %d not reproduced: %s" % (res["flaky"], res["flaky_note"][:300])) if res["flaky"] else ""))
    if res["violation"]:
        print("[%s] %s" % (res["tag"], res["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (a.prop, res["replay"]))
        return 1
    if res["evaluations"] == 0:
        print("no case ran", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
