#include "engine.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sim.h"

namespace pbt {

static const size_t REC_CAP = 1 << 20;
static const size_t HASH_CAP = 1 << 21;

struct Shm {
    volatile uint32_t case_index;
    volatile uint32_t done_upto;      // next case to run (worker-local ordinal)
    volatile uint32_t reclen;
    volatile uint32_t evaluations;
    volatile uint32_t nontrivial;
    volatile uint32_t nhashes;
    volatile uint32_t finished;
    volatile uint32_t failed;
    char tag[256];
    char msg[16384];
    char desc[24576];
    char labels[32768];
    char samples[131072];
    uint8_t rec[REC_CAP];
    uint64_t hashes[HASH_CAP];
};

static Shm *g_shm = nullptr;     // the current process's slot
static int64_t g_worker = 0;
static std::string g_scratch_root;

uint64_t hash64(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}
std::string strf(const char *fmt, ...) {
    char buf[8192];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
std::string esc(const std::string &s, size_t max) {
    std::string o;
    size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= max) { o += strf("...(%zu bytes)", s.size()); break; }
        if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\";
        else if (c == '"') o += "\\\"";
        else if (c < 32 || c > 126) o += strf("\\x%02x", c); else o += static_cast<char>(c);
    }
    return o;
}
int64_t real_us() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000LL + ts.tv_nsec / 1000;
}

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
Src::Src(Mode m, uint64_t seed, const uint8_t *buf, size_t n, uint8_t *rec, size_t cap, volatile uint32_t *reclen)
    : mMode(m), mBuf(buf), mN(n), mRec(rec), mRecCap(cap), mRecLen(reclen) {
    uint64_t x = seed;
    s[0] = splitmix(x); s[1] = splitmix(x) | 1;
}
uint8_t Src::byte() {
    uint8_t v = 0;
    if (mMode == kReplay) {
        v = mPos < mN ? mBuf[mPos] : 0;
    } else if (mPos < mRecCap) {
        uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        v = static_cast<uint8_t>((s[1] + b) >> 40);
    }
    if (mPos < mRecCap && mRec) { mRec[mPos] = v; *mRecLen = static_cast<uint32_t>(mPos + 1); }
    mPos++;
    return v;
}
uint64_t Src::bits(int nbytes) {
    uint64_t v = 0;
    for (int i = 0; i < nbytes; i++) v = (v << 8) | byte();
    return v;
}
int64_t Src::range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = static_cast<uint64_t>(hi - lo) + 1;
    int nb = span <= 256 ? 1 : span <= 65536 ? 2 : span <= (1ULL << 24) ? 3 : span <= (1ULL << 32) ? 4 : 8;
    return lo + static_cast<int64_t>(bits(nb) % span);
}
bool Src::chance(unsigned num, unsigned den) {
    if (den <= 256) return byte() * den >= (den - num) * 256u && num > 0;
    return bits(2) * den >= static_cast<uint64_t>(den - num) * 65536u && num > 0;
}
size_t Src::weighted(const std::vector<unsigned> &w) {
    unsigned tot = 0;
    for (unsigned x : w) tot += x;
    unsigned r = static_cast<unsigned>(range(0, tot - 1));
    for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return i; r -= w[i]; }
    return 0;
}

static void put(char *dst, size_t cap, const std::string &s) {
    size_t n = std::min(s.size(), cap - 1);
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

void Ctx::fail(const std::string &tag, const std::string &msg) {
    if (g_shm) {
        put(g_shm->tag, sizeof g_shm->tag, tag);
        put(g_shm->msg, sizeof g_shm->msg, msg);
        put(g_shm->desc, sizeof g_shm->desc, desc);
        g_shm->failed = 1;
    }
    if (verbose) fprintf(stderr, "FAIL [%s] %s\ncase: %s\n", tag.c_str(), msg.c_str(), desc.c_str());
    if (!g_shm) abort();   // libFuzzer
    _exit(77);
}

void Ctx::d(const std::string &s) {
    if (desc.size() >= 20000) return;
    desc += s;
    desc += "; ";
    if (g_shm) put(g_shm->desc, sizeof g_shm->desc, desc);
}

void fatal_from_sim(const char *tag, const std::string &msg) {
    Ctx c;
    if (g_shm) c.desc = g_shm->desc;
    c.fail(tag, msg);
}

static void on_cpu(int) {
    static const char m[] = "case exceeded its CPU bound (endless loop or super-linear work)";
    if (g_shm) {
        strcpy(g_shm->tag, "cpu-bound");
        memcpy(g_shm->msg, m, sizeof m);
        g_shm->failed = 1;
    }
    _exit(77);
}

static void arm(unsigned sec) {
    struct itimerval it {};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}

static void rmtree(const std::string &p) {
    if (p.compare(0, g_scratch_root.size(), g_scratch_root) != 0 || g_scratch_root.size() < 8) return;
    DIR *d = opendir(p.c_str());
    if (d) {
        while (struct dirent *e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string q = p + "/" + n;
            struct stat st;
            if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(q);
            else unlink(q.c_str());
        }
        closedir(d);
    }
    rmdir(p.c_str());
}

static void run_one(Src &src, Ctx &ctx) {
    sim::reset();
    arm(property.cpu_seconds);
    sim::g_in_case = true;
    property.run(src, ctx);
    sim::g_in_case = false;
    arm(0);
    sim::reset();
}

static void init_child(const std::string &scratch, const std::string &errfile) {
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_RDWR);
    if (fd >= 0) { dup2(fd, 0); dup2(fd, 1); if (fd > 2) close(fd); }
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_cpu);
    mkdir(scratch.c_str(), 0700);
}

static uint64_t case_seed(uint64_t seed, uint32_t i) {
    uint64_t x = hash64(std::string(property.id) + ":" + std::to_string(seed) + ":" + std::to_string(i));
    return x;
}

struct Opts {
    std::string tier = "quick", out, replay, known, replaydir = ".", corpus;
    uint64_t seed = 1;
    unsigned workers = 8;
    uint64_t cases = 0;
    unsigned wall = 700;
    bool print = false;
    int64_t only = -1;
};

static std::vector<std::vector<uint8_t>> g_fixed;

static void worker_main(Shm *shm, const Opts &o, unsigned w, uint64_t total, int64_t deadline, const std::string &scratch, const std::string &err) {
    g_shm = shm;
    g_worker = w;
    init_child(scratch, err);
    sim::init_process(scratch);
    size_t nsamples = 0;
    std::map<std::string, unsigned> labels;
    {   // labels survive worker restarts
        std::istringstream is(shm->labels);
        std::string k; unsigned v;
        while (is >> v && std::getline(is, k)) if (k.size() > 1) labels[k.substr(1)] = v;
    }
    uint32_t ord = shm->done_upto;
    if (shm->samples[0]) nsamples = 100;
    unsigned nw = o.workers;
    for (; ; ord++) {
        uint64_t i = static_cast<uint64_t>(ord) * nw + w;
        if (i >= total) break;
        if (real_us() > deadline) break;
        shm->case_index = static_cast<uint32_t>(i);
        shm->done_upto = ord;
        shm->reclen = 0;
        shm->failed = 0;
        shm->tag[0] = 0; shm->msg[0] = 0; shm->desc[0] = 0;
        Ctx ctx;
        ctx.scratch = scratch;
        ctx.tier = o.tier == "thorough";
        if (i < g_fixed.size()) {
            Src src(Src::kReplay, 0, g_fixed[i].data(), g_fixed[i].size(), shm->rec, REC_CAP, &shm->reclen);
            run_one(src, ctx);
        } else {
            Src src(Src::kGenerate, case_seed(o.seed, static_cast<uint32_t>(i)), nullptr, 0, shm->rec, REC_CAP, &shm->reclen);
            run_one(src, ctx);
        }
        shm->evaluations = shm->evaluations + 1;
        for (auto &l : ctx.labels) labels[l.first] += l.second ? 1 : 0;
        if (ctx.nontrivial) {
            shm->nontrivial = shm->nontrivial + 1;
            uint32_t k = shm->nhashes;
            if (k < HASH_CAP) { shm->hashes[k] = hash64(ctx.desc); shm->nhashes = k + 1; }
            if (nsamples < 3) {
                size_t cur = strlen(shm->samples);
                std::string s = ctx.desc.substr(0, 1500);
                for (char &c : s) if (c == '\n') c = ' ';
                s += "\n";
                if (cur + s.size() + 1 < sizeof shm->samples) { memcpy(shm->samples + cur, s.c_str(), s.size() + 1); nsamples++; }
            }
        }
        if ((ord & 63) == 0) {
            std::string l;
            for (auto &x : labels) l += std::to_string(x.second) + " " + x.first + "\n";
            put(shm->labels, sizeof shm->labels, l);
        }
    }
    std::string l;
    for (auto &x : labels) l += std::to_string(x.second) + " " + x.first + "\n";
    put(shm->labels, sizeof shm->labels, l);
    shm->done_upto = ord;
    shm->finished = 1;
    rmtree(scratch);
    _exit(0);
}

static std::string slurp(const std::string &p, size_t max = 1 << 20) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > max) s.resize(max);
    return s;
}

struct Outcome { bool failed = false; std::string tag, msg, desc; std::vector<uint8_t> rec; };

static std::string model_trim(std::string k) { while (!k.empty() && k.back() == ' ') k.pop_back(); return k; }
static void classify_death(int status, const std::string &errtext, Shm *shm, Outcome &o) {
    o.failed = true;
    o.desc = shm->desc;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 77 && shm->failed) {
        o.tag = shm->tag; o.msg = shm->msg;
        return;
    }
    size_t p;
    if ((p = errtext.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
        std::string k = errtext.substr(p + 25, 60);
        k = k.substr(0, k.find_first_of(" :\n"));
        o.tag = "asan:" + k;
        o.msg = errtext.substr(p, 3000);
    } else if ((p = errtext.find("ThreadSanitizer: ")) != std::string::npos) {
        std::string k = errtext.substr(p + 17, 60);
        k = k.substr(0, k.find_first_of("(\n"));
        o.tag = "tsan:" + model_trim(k);
        o.msg = errtext.substr(p, 3500);
    } else if ((p = errtext.find("runtime error: ")) != std::string::npos) {
        size_t b = errtext.rfind('\n', p);
        o.tag = "ubsan";
        o.msg = errtext.substr(b == std::string::npos ? 0 : b + 1, 2000);
    } else if (WIFSIGNALED(status)) {
        o.tag = std::string("signal:") + strsignal(WTERMSIG(status));
        o.msg = errtext.size() > 2000 ? errtext.substr(errtext.size() - 2000) : errtext;
        if ((p = errtext.find("terminate called")) != std::string::npos) { o.tag = "terminate"; o.msg = errtext.substr(p, 1000); }
    } else {
        o.tag = "exit:" + std::to_string(WEXITSTATUS(status));
        o.msg = errtext.size() > 2000 ? errtext.substr(errtext.size() - 2000) : errtext;
    }
}

static Shm *new_shm() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shm *>(p);
}

// Runs one recorded case in a fresh child.
static Outcome run_forked(const std::vector<uint8_t> &buf, bool verbose, int tier, Shm *shm, const std::string &scratch) {
    std::string err = scratch + ".err";
    shm->failed = 0; shm->tag[0] = 0; shm->msg[0] = 0; shm->desc[0] = 0; shm->reclen = 0;
    pid_t pid = fork();
    if (pid == 0) {
        g_shm = shm;
        init_child(scratch, err);
        sim::init_process(scratch);
        Ctx ctx;
        ctx.scratch = scratch;
        ctx.verbose = verbose;
        ctx.tier = tier;
        Src src(Src::kReplay, 0, buf.data(), buf.size(), shm->rec, REC_CAP, &shm->reclen);
        run_one(src, ctx);
        put(shm->desc, sizeof shm->desc, ctx.desc);
        _exit(0);
    }
    int status = 0;
    int64_t t0 = real_us();
    bool killed = false;
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (real_us() - t0 > 120 * 1000000LL) { kill(pid, SIGKILL); waitpid(pid, &status, 0); killed = true; break; }
        struct timespec ts { 0, 300000 };
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    rmtree(scratch);
    Outcome o;
    o.desc = shm->desc;
    if (killed) { o.failed = true; o.tag = "wall-bound"; o.msg = "case did not finish within 120 s"; }
    else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) classify_death(status, slurp(err), shm, o);
    o.rec.assign(shm->rec, shm->rec + std::min<size_t>(shm->reclen, REC_CAP));
    unlink(err.c_str());
    return o;
}

static std::vector<uint8_t> shrink(std::vector<uint8_t> best, const std::string &tag, int tier, const std::string &scratch, int64_t budget_us, unsigned *tries) {
    const unsigned P = 8;
    std::vector<Shm *> shms;
    for (unsigned i = 0; i < P; i++) shms.push_back(new_shm());
    int64_t t0 = real_us();
    auto attempt_batch = [&](std::vector<std::vector<uint8_t>> &cands) -> int {
        // run candidates in parallel groups; return index of the first one that still fails in the same way
        for (size_t base = 0; base < cands.size(); base += P) {
            if (real_us() - t0 > budget_us) return -1;
            std::vector<pid_t> pids;
            size_t n = std::min<size_t>(P, cands.size() - base);
            for (size_t k = 0; k < n; k++) {
                std::string sc = scratch + "_s" + std::to_string(k);
                pid_t pid = fork();
                if (pid == 0) {
                    Outcome o = run_forked(cands[base + k], false, tier, shms[k], sc);
                    for (int t = 0; property.racy && t < 3 && !(o.failed && o.tag == tag); t++) o = run_forked(cands[base + k], false, tier, shms[k], sc);
                    _exit(o.failed && o.tag == tag ? 1 : 0);
                }
                pids.push_back(pid);
            }
            int found = -1;
            for (size_t k = 0; k < n; k++) {
                int st = 0;
                waitpid(pids[k], &st, 0);
                (*tries)++;
                if (found < 0 && WIFEXITED(st) && WEXITSTATUS(st) == 1) found = static_cast<int>(base + k);
            }
            if (found >= 0) return found;
        }
        return -1;
    };
    bool improved = true;
    while (improved && real_us() - t0 < budget_us) {
        improved = false;
        // 1. truncate the tail (zeros are implied)
        while (!best.empty() && best.back() == 0) best.pop_back();
        // 2. delete blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i < best.size() && real_us() - t0 < budget_us;) {
                std::vector<std::vector<uint8_t>> c;
                std::vector<size_t> at;
                for (size_t k = 0, j = i; k < P && j < best.size(); k++, j += len) {
                    std::vector<uint8_t> v = best;
                    v.erase(v.begin() + static_cast<long>(j), v.begin() + static_cast<long>(std::min(best.size(), j + len)));
                    c.push_back(v); at.push_back(j);
                }
                int f = attempt_batch(c);
                if (f >= 0) { best = c[static_cast<size_t>(f)]; improved = true; i = at[static_cast<size_t>(f)]; }
                else i += len * c.size();
            }
            if (len == 1) break;
        }
        // 3. zero blocks
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i < best.size() && real_us() - t0 < budget_us;) {
                std::vector<std::vector<uint8_t>> c;
                size_t j = i;
                for (size_t k = 0; k < P && j < best.size(); j += len) {
                    bool allz = true;
                    for (size_t q = j; q < std::min(best.size(), j + len); q++) allz = allz && best[q] == 0;
                    if (allz) continue;
                    std::vector<uint8_t> v = best;
                    for (size_t q = j; q < std::min(best.size(), j + len); q++) v[q] = 0;
                    c.push_back(v); k++;
                }
                if (c.empty()) break;
                int f = attempt_batch(c);
                if (f >= 0) { best = c[static_cast<size_t>(f)]; improved = true; }
                else i = j;
            }
            if (len == 1) break;
        }
        // 4. lower single bytes
        for (size_t i = 0; i < best.size() && best.size() < 3000 && real_us() - t0 < budget_us; i++) {
            if (!best[i]) continue;
            std::vector<std::vector<uint8_t>> c;
            for (int nv : {1, 2, best[i] / 2, best[i] - 1}) {
                if (nv <= 0 || nv >= best[i]) continue;
                std::vector<uint8_t> v = best;
                v[i] = static_cast<uint8_t>(nv);
                c.push_back(v);
            }
            int f = attempt_batch(c);
            if (f >= 0) { best = c[static_cast<size_t>(f)]; improved = true; }
        }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
    for (Shm *s : shms) munmap(s, sizeof(Shm));
    return best;
}

// ---- known findings: lines "open: property=<id> match=<substring of tag+msg+desc> what=<text>" ----
struct Known { std::string prop, match, what; };
static std::vector<Known> load_known(const std::string &path) {
    std::vector<Known> v;
    std::ifstream f(path);
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 6, "open: ") != 0) continue;
        Known k;
        size_t a = l.find("property="), b = l.find(" match="), c = l.find(" what=");
        if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
        k.prop = l.substr(a + 9, b - a - 9);
        k.match = l.substr(b + 7, c - b - 7);
        k.what = l.substr(c + 6);
        if (k.prop == property.id) v.push_back(k);
    }
    return v;
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

static std::string hex(const std::vector<uint8_t> &v) {
    std::string o;
    for (uint8_t b : v) o += strf("%02x", b);
    return o;
}

static int main_impl(int argc, char **argv) {
    Opts o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") o.tier = next();
        else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = static_cast<unsigned>(atoi(next().c_str()));
        else if (a == "--cases") o.cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--wall") o.wall = static_cast<unsigned>(atoi(next().c_str()));
        else if (a == "--out") o.out = next();
        else if (a == "--replay") o.replay = next();
        else if (a == "--known") o.known = next();
        else if (a == "--replaydir") o.replaydir = next();
        else if (a == "--print") o.print = true;
        else if (a == "--only") o.only = atoll(next().c_str());
        else if (a == "--corpus") o.corpus = next();
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    const char *tmp = getenv("TMPDIR");
    g_scratch_root = std::string(tmp && *tmp ? tmp : "/tmp") + "/vpbt." + std::to_string(getpid());
    mkdir(g_scratch_root.c_str(), 0700);
    int tier = o.tier == "thorough";
    sim::init_shared();   // certificates etc. made once, inherited by all children
    if (property.fixed) property.fixed(g_fixed);
    if (!o.corpus.empty()) {
        std::vector<std::string> names;
        if (DIR *d = opendir(o.corpus.c_str())) {
            while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
            closedir(d);
        }
        std::sort(names.begin(), names.end());
        for (auto &n : names) { std::string s = slurp(o.corpus + "/" + n); g_fixed.emplace_back(s.begin(), s.end()); }
    }

    if (!o.replay.empty()) {
        std::string t = slurp(o.replay);
        std::vector<uint8_t> buf;
        size_t p = t.find("choices=");
        if (p != std::string::npos) {
            for (p += 8; p + 1 < t.size() && isxdigit(static_cast<unsigned char>(t[p])); p += 2)
                buf.push_back(static_cast<uint8_t>(strtoul(t.substr(p, 2).c_str(), nullptr, 16)));
        } else {
            buf.assign(t.begin(), t.end());   // raw corpus file
        }
        Shm *shm = new_shm();
        Outcome r = run_forked(buf, true, tier, shm, g_scratch_root + "/r");
        for (int t = 0; property.racy && t < 20 && !r.failed; t++) r = run_forked(buf, true, tier, shm, g_scratch_root + "/r");
        rmtree(g_scratch_root);
        printf("case: %s\n", r.desc.c_str());
        if (r.failed) { printf("FAILS [%s]\n%s\n", r.tag.c_str(), r.msg.c_str()); return 1; }
        printf("passes\n");
        return 0;
    }
    if (o.only >= 0) {
        Shm *shm = new_shm();
        static std::vector<uint8_t> rec(REC_CAP);
        volatile uint32_t rl = 0;
        (void)shm;
        g_shm = nullptr;
        signal(SIGPROF, on_cpu);
        std::string sc = g_scratch_root + "/o";
        mkdir(sc.c_str(), 0700);
        sim::init_process(sc);
        Ctx ctx; ctx.scratch = sc; ctx.verbose = true; ctx.tier = tier;
        Src src(Src::kGenerate, case_seed(o.seed, static_cast<uint32_t>(o.only)), nullptr, 0, rec.data(), REC_CAP, &rl);
        run_one(src, ctx);
        printf("case %lld: %s\nnontrivial=%d choices=%u\n", static_cast<long long>(o.only), ctx.desc.c_str(), ctx.nontrivial, static_cast<unsigned>(rl));
        rmtree(g_scratch_root);
        return 0;
    }

    uint64_t total = o.cases ? o.cases : (tier ? property.thorough_cases : property.quick_cases);
    int64_t t_start = real_us();
    int64_t deadline = t_start + static_cast<int64_t>(o.wall) * 1000000;
    std::vector<Known> known = load_known(o.known);
    std::map<std::string, unsigned> known_hits;
    std::vector<Shm *> shms;
    std::vector<pid_t> pids(o.workers, 0);
    for (unsigned w = 0; w < o.workers; w++) shms.push_back(new_shm());
    auto start = [&](unsigned w) {
        pid_t pid = fork();
        if (pid == 0) worker_main(shms[w], o, w, total, deadline, g_scratch_root + "/w" + std::to_string(w), g_scratch_root + "/w" + std::to_string(w) + ".err");
        pids[w] = pid;
    };
    for (unsigned w = 0; w < o.workers; w++) start(w);
    unsigned live = o.workers;
    bool violation = false;
    std::string vtag, vmsg, vdesc, replay_path;
    unsigned flaky = 0, excluded = 0;
    std::string flaky_note;
    unsigned shrink_tries = 0;
    Shm *rshm = new_shm();
    while (live > 0) {
        int status = 0;
        pid_t pid = waitpid(-1, &status, WNOHANG);
        if (pid == 0) {
            struct timespec ts { 0, 2000000 };
            syscall(SYS_nanosleep, &ts, nullptr);
            if (real_us() > deadline + 150 * 1000000LL) {   // a worker is stuck without using CPU
                for (pid_t q : pids) if (q > 0) kill(q, SIGKILL);
                deadline = real_us();
            }
            continue;
        }
        if (pid < 0) break;
        unsigned w = 0;
        for (; w < o.workers; w++) if (pids[w] == pid) break;
        if (w == o.workers) continue;
        pids[w] = 0;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shms[w]->finished) { live--; continue; }
        // a case failed
        Outcome oc;
        classify_death(status, slurp(g_scratch_root + "/w" + std::to_string(w) + ".err"), shms[w], oc);
        std::vector<uint8_t> buf(shms[w]->rec, shms[w]->rec + std::min<size_t>(shms[w]->reclen, REC_CAP));
        uint32_t ci = shms[w]->case_index;
        // replay three times in fresh processes
        unsigned again = 0;
        Outcome first;
        for (int k = 0; k < (property.racy ? 20 : 3); k++) {
            Outcome r = run_forked(buf, false, tier, rshm, g_scratch_root + "/rep" + std::to_string(k));
            if (r.failed) { again++; first = r; if (property.racy) { again = 3; break; } }
        }
        if (again == 3) {
            const Known *kf = nullptr;
            std::string hay = first.tag + " " + first.msg + " " + first.desc;
            for (auto &k : known) if (hay.find(k.match) != std::string::npos) { kf = &k; break; }
            if (kf) {
                known_hits[kf->what]++;
            } else {
                violation = true;
                for (pid_t q : pids) if (q > 0) { kill(q, SIGKILL); waitpid(q, nullptr, 0); }
                int64_t budget = (tier ? 300 : 60) * 1000000LL;
                std::vector<uint8_t> small = shrink(buf, first.tag, tier, g_scratch_root + "/sh", budget, &shrink_tries);
                Outcome r = run_forked(small, false, tier, rshm, g_scratch_root + "/fin");
                for (int t = 0; property.racy && t < 10 && !r.failed; t++) r = run_forked(small, false, tier, rshm, g_scratch_root + "/fin");
                if (!r.failed) { small = buf; r = first; }
                vtag = r.tag; vmsg = r.msg; vdesc = r.desc;
                mkdir(o.replaydir.c_str(), 0755);
                replay_path = o.replaydir + "/" + property.id + "-" + strf("%016llx", static_cast<unsigned long long>(hash64(hex(small)))) + ".replay";
                std::ofstream f(replay_path);
                f << "property=" << property.id << "\nseed=" << o.seed << " case=" << ci << " tier=" << o.tier << "\ntag=" << vtag
                  << "\nchoices=" << hex(small) << "\n\n--- case ---\n" << vdesc << "\n--- what failed ---\n" << vmsg << "\n";
                break;
            }
        } else if (again > 0 || true) {
            // Not reproducible from its recorded choices: inconclusive, reported in the evidence, never a violation.
            flaky++;
            flaky_note = oc.tag + ": " + oc.msg.substr(0, 500) + " (case " + std::to_string(ci) + ", reproduced " + std::to_string(again) + "/3)";
        }
        excluded++;
        shms[w]->done_upto = shms[w]->done_upto + 1;
        if (excluded > 2000) { shms[w]->finished = 1; live--; continue; }
        start(w);
    }
    // aggregate
    uint64_t evals = 0, nontriv = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, unsigned> labels;
    std::vector<std::string> samples;
    for (Shm *s : shms) {
        evals += s->evaluations;
        nontriv += s->nontrivial;
        for (uint32_t k = 0; k < s->nhashes; k++) distinct.insert(s->hashes[k]);
        std::istringstream is(s->labels);
        std::string k; unsigned v;
        while (is >> v && std::getline(is, k)) if (k.size() > 1) labels[k.substr(1)] += v;
        std::istringstream ss(s->samples);
        std::string l;
        while (std::getline(ss, l) && samples.size() < 6) samples.push_back(l);
    }
    if (samples.empty()) samples.push_back(violation ? vdesc.substr(0, 1500) : "(no non-trivial case ran)");
    rmtree(g_scratch_root);
    double wall = static_cast<double>(real_us() - t_start) / 1e6;
    std::ostringstream j;
    j << "{\"evaluations\":" << evals << ",\"planned\":" << total << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.size()
      << ",\"wall_s\":" << wall << ",\"flaky\":" << flaky << ",\"flaky_note\":" << jstr(flaky_note) << ",\"rule\":" << jstr(property.rule) << ",\"labels\":{";
    bool f1 = true;
    for (auto &l : labels) { if (!f1) j << ","; f1 = false; j << jstr(l.first) << ":" << l.second; }
    j << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) j << (i ? "," : "") << jstr(samples[i]);
    j << "],\"known\":{";
    f1 = true;
    for (auto &k : known_hits) { if (!f1) j << ","; f1 = false; j << jstr(k.first) << ":" << k.second; }
    j << "},\"violation\":" << (violation ? "true" : "false") << ",\"tag\":" << jstr(vtag) << ",\"msg\":" << jstr(vmsg.substr(0, 3000))
      << ",\"desc\":" << jstr(vdesc.substr(0, 3000)) << ",\"replay\":" << jstr(replay_path) << ",\"shrink_tries\":" << shrink_tries << "}";
    if (!o.out.empty()) { std::ofstream f(o.out); f << j.str() << "\n"; }
    else printf("%s\n", j.str().c_str());
    return violation ? 1 : 0;
}

}  // namespace pbt

#ifndef PBT_FUZZ
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_sigfpe=1:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_init_order=0:max_allocation_size_mb=2048:malloc_context_size=12:quarantine_size_mb=16:allocator_release_to_os_interval_ms=-1:fast_unwind_on_malloc=1:use_sigaltstack=1:symbolize=1";
}
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:abort_on_error=0:exitcode=66:ignore_noninstrumented_modules=1:report_signal_unsafe=0:report_thread_leaks=0:allocator_may_return_null=1:history_size=4"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
#else
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16:max_allocation_size_mb=2048"; }
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    pbt::g_scratch_root = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/vpbt." + std::to_string(getpid());
    mkdir(pbt::g_scratch_root.c_str(), 0700);
    sim::init_shared();
    sim::init_process(pbt::g_scratch_root);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    pbt::Ctx ctx;
    ctx.scratch = pbt::g_scratch_root;
    volatile uint32_t rl = 0;
    pbt::Src src(pbt::Src::kReplay, 0, data, size, nullptr, 0, &rl);
    sim::reset();
    sim::g_in_case = true;
    pbt::property.run(src, ctx);
    sim::g_in_case = false;
    sim::reset();
    return 0;
}
#endif
