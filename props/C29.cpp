// C29: the library neither depends on the state of the process around it nor changes it.
#include "script.h"
#include "values.h"
#include "tables.h"
#include <cerrno>
#include <climits>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <iostream>
#include <locale>
#include <stdexcept>
#include <dirent.h>
#include <fcntl.h>
#include <openssl/err.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "src/base64.h"
#include "src/stringutils.h"
#include "src/errorresolver.h"
using namespace model;
namespace J = jed_utils;
namespace P = jed_utils::cpp;
extern char **environ;

// ---- the surroundings: a generated state of the process --------------------------------------------------
// LOCPATH, set by run.py, leads to these
static const char *kLocales[] = {"tr_TR.ISO-8859-9", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "C.utf8"};
enum { kDfl, kIgn, kHandler };
struct Ambient {
    int loc = 0;            // 0 as it is, 1 C locale, 2 C++ locale with grouped numbers, 3 both set by name, 4 of this thread
    int locale = 0;
    int pipe = kDfl; bool pipe_blocked = false, pipe_pending = false;
    std::vector<unsigned long> errors;   // in OpenSSL's queue before each call
    int err_no = 0;
    int first_fd = 0;       // lower descriptors are in use
    std::vector<std::pair<int64_t, int64_t>> jumps;
    unsigned seed = 1;
    bool alarm = false, other_handlers = false;
    mode_t mask = 022;
};
struct Grouped : std::numpunct<char> {
    char do_thousands_sep() const override { return ','; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "yes"; }
    std::string do_falsename() const override { return "no"; }
};
static volatile sig_atomic_t g_handled = 0;
static void handler(int) { g_handled = g_handled + 1; }
static void handler3(int, siginfo_t *, void *) { g_handled = g_handled + 1; }

static int open_files() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
    return n;
}
struct Snapshot {
    std::vector<std::string> v;
    static Snapshot take() {
        Snapshot s;
        auto put = [&](const std::string &k, const std::string &x) { s.v.push_back(k + " " + x); };
        for (int i = 1; i < 35; i++) {
            struct sigaction a;
            memset(&a, 0, sizeof(a));
            if (sigaction(i, nullptr, &a)) continue;
            put(pbt::strf("the disposition of signal %d:", i), pbt::strf("%p flags %x", reinterpret_cast<void *>(a.sa_handler), a.sa_flags & ~0x04000000));
        }
        sigset_t m, p;
        sigemptyset(&m); sigemptyset(&p);
        pthread_sigmask(SIG_SETMASK, nullptr, &m);
        sigpending(&p);
        std::string ms, ps;
        for (int i = 1; i < 65; i++) { if (sigismember(&m, i) == 1) ms += " " + std::to_string(i); if (sigismember(&p, i) == 1) ps += " " + std::to_string(i); }
        put("the blocked signals:", ms);
        put("the pending signals:", ps);
        put("the number of signals handled:", std::to_string(g_handled));
        put("the C locale:", setlocale(LC_ALL, nullptr));
        put("the thread's locale:", pbt::strf("%p", static_cast<void *>(uselocale(nullptr))));
        put("the C++ locale:", std::locale().name() + std::use_facet<std::numpunct<char>>(std::locale()).grouping());
        char cwd[PATH_MAX] = "";
        if (!getcwd(cwd, sizeof(cwd))) cwd[0] = 0;
        put("the working directory:", cwd);
        mode_t u = umask(0); umask(u);
        put("the umask:", std::to_string(u));
        std::string e;
        for (char **x = environ; *x; x++) e += std::string(*x) + ";";
        put("the environment:", std::to_string(pbt::hash64(e)));
        struct itimerval it;
        getitimer(ITIMER_REAL, &it);
        put("the interval timer:", std::to_string(it.it_interval.tv_sec) + (it.it_value.tv_sec || it.it_value.tv_usec ? " armed" : " off"));
        struct rlimit rl;
        getrlimit(RLIMIT_NOFILE, &rl);
        put("the limit of descriptors:", std::to_string(rl.rlim_cur));
        put("children:", waitpid(-1, nullptr, WNOHANG) < 0 && errno == ECHILD ? "none" : "some");
        put("the flags of std::cout and std::cerr:", pbt::strf("%x %x", static_cast<unsigned>(std::cout.flags()), static_cast<unsigned>(std::cerr.flags())));
        return s;
    }
};

// Applies the surroundings for the time of its life.
class Applied {
 public:
    explicit Applied(const Ambient &a) : mA(a) {
        sigaction(SIGPIPE, nullptr, &mPipe);
        sigaction(SIGUSR1, nullptr, &mUsr);
        sigaction(SIGALRM, nullptr, &mAlrm);
        pthread_sigmask(SIG_SETMASK, nullptr, &mMask);
        mOut = dup(1);
        mMem = memfd_create("out", MFD_CLOEXEC);
        fflush(stdout);
        dup2(mMem, 1);
        struct sigaction n;
        memset(&n, 0, sizeof(n));
        sigemptyset(&n.sa_mask);
        if (a.pipe == kHandler) { n.sa_sigaction = handler3; n.sa_flags = SA_SIGINFO; sigaddset(&n.sa_mask, SIGUSR2); }
        else n.sa_handler = a.pipe == kIgn ? SIG_IGN : SIG_DFL;
        sigaction(SIGPIPE, &n, nullptr);
        if (a.other_handlers || a.alarm) {
            memset(&n, 0, sizeof(n));
            n.sa_handler = handler;
            sigaction(SIGUSR1, &n, nullptr);
            sigaction(SIGALRM, &n, nullptr);
        }
        if (a.alarm) { struct itimerval it{{0, 0}, {3600, 0}}; setitimer(ITIMER_REAL, &it, &mTimer); }
        if (a.pipe_blocked) {
            sigset_t s; sigemptyset(&s); sigaddset(&s, SIGPIPE); sigaddset(&s, SIGHUP);
            pthread_sigmask(SIG_BLOCK, &s, nullptr);
            if (a.pipe_pending) syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), SIGPIPE);
        }
        mUmask = umask(a.mask);
        const char *name = kLocales[a.locale];
        switch (a.loc) {
        case 1: available = setlocale(LC_ALL, name) != nullptr; break;
        case 2: std::locale::global(std::locale(std::locale::classic(), new Grouped)); break;
        case 3: try { std::locale::global(std::locale(name)); } catch (const std::runtime_error &) { available = false; } break;
        case 4: mThread = newlocale(LC_ALL_MASK, name, nullptr); available = mThread != nullptr; if (mThread) uselocale(mThread); break;
        default: break;
        }
    }
    ~Applied() {
        if (mThread) { uselocale(LC_GLOBAL_LOCALE); freelocale(mThread); }
        std::locale::global(std::locale::classic());
        setlocale(LC_ALL, "C");
        if (mA.alarm) setitimer(ITIMER_REAL, &mTimer, nullptr);
        if (mA.pipe_pending) {
            sigset_t p, s; sigemptyset(&p); sigemptyset(&s); sigaddset(&s, SIGPIPE);
            sigpending(&p);
            if (sigismember(&p, SIGPIPE) == 1) { int n; sigwait(&s, &n); }
        }
        pthread_sigmask(SIG_SETMASK, &mMask, nullptr);
        sigaction(SIGPIPE, &mPipe, nullptr);
        sigaction(SIGUSR1, &mUsr, nullptr);
        sigaction(SIGALRM, &mAlrm, nullptr);
        umask(mUmask);
        ERR_clear_error();
        finish();
    }
    // what was written to standard output
    std::string output() {
        std::cout.flush();
        fflush(stdout);
        struct stat st;
        if (fstat(mMem, &st) || st.st_size == 0) return "";
        std::string o(static_cast<size_t>(std::min<off_t>(st.st_size, 300)), 0);
        ssize_t n = pread(mMem, &o[0], o.size(), 0);
        o.resize(n > 0 ? static_cast<size_t>(n) : 0);
        return o.empty() ? "?" : o;
    }
    void finish() { if (mOut >= 0) { dup2(mOut, 1); ::close(mOut); ::close(mMem); mOut = -1; } }
    bool available = true;

 private:
    const Ambient &mA;
    struct itimerval mTimer;
    struct sigaction mPipe, mUsr, mAlrm;
    sigset_t mMask;
    mode_t mUmask;
    int mOut, mMem;
    locale_t mThread = nullptr;
};

// ---- the history -------------------------------------------------------------------------------------------
enum { kSend, kBatch, kCred, kTimeout, kRenew, kServer, kAddress, kType, kText, kBase64, kError, kFile, kAccept, kOpKinds };
static const char *op_names[] = {"sendMail", "setBatchMode", "setCredentials", "setCommandTimeout", "copy or move", "setServerName", "address", "attachment", "text helpers", "base64", "error text", "attached file", "setAcceptSelfSignedCert"};
struct Op { int kind; std::string text; unsigned num = 0; bool on = false; Cred cred; size_t msg = 0; };

static std::vector<std::string> play(pbt::Src &r, const cm::Who &who, const std::vector<Op> &ops, const std::vector<Msg> &msgs, const Ambient *amb, std::string *broken, bool *pipe) {
    std::vector<std::string> out;
    sim::reset();
    Net net;
    std::vector<std::unique_ptr<script::Script>> scripts;
    net.conf = [&](size_t n, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        if (r.chance(1, 3)) { static const std::vector<std::string> au{"auth login", "Auth plain", "AUTH xoauth2 login", "AUTH LOGIN PLAIN", "AUTH\tLOGIN"}; std::string a = r.pick(au); (who.kind == kPlain ? f.ehlo : f.ehlo_tls) = {"size 1000000", a}; }
        if (who.kind == kOpp && r.chance(1, 3)) f.ehlo = {"pipelining", r.chance(1, 2) ? "starttls" : "StartTLS"};
        if (r.chance(1, 5)) f.mail_form = static_cast<int>(r.range(0, 2));
        if (r.chance(1, 6)) f.cert = r.chance(1, 2) ? srv::kSelfSigned : static_cast<srv::Cert>(r.range(0, srv::kSelfSigned));
        if (!r.chance(1, 2)) return f;
        scripts.emplace_back(new script::Script);
        auto *sc = scripts.back().get();
        sc->src = &r;
        sc->dev.push_back(script::gen(r, script::steps_of(who.kind, true, 1), 2));
        sc->last_line = [&net, n]() { return net.servers.size() <= n || net.servers[n]->cmds.empty() ? std::string() : net.servers[n]->cmds.back().line; };
        f.on_step = [sc](srv::Step st, int nth, srv::Reply &x) { return sc->apply(st, nth, x); };
        return f;
    };
    net.tweak = [&](size_t, sim::ConnPlan &p) { if (r.chance(1, 12)) { if (r.chance(1, 2)) p.connect_errno = ECONNREFUSED; else p.connect_delay = -1; } };
    net.install();
    sim::World &w = sim::w();
    w.resolve = [](const std::string &h, std::string &a) { if (h.find("nowhere") != std::string::npos) return false; a = std::string("\x0a\x00\x00\x01", 4); return true; };
    if (amb) {
        w.clock_jumps = amb->jumps;
        if (amb->first_fd) w.next_fd = amb->first_fd;
    }
    // Runs one call of the library in the given surroundings and looks at them afterwards.
    auto call = [&](const std::string &name, const std::function<std::string()> &f) {
        Snapshot before;
        int want_rand = 0;
        if (amb) {
            before = Snapshot::take();
            srand(amb->seed); want_rand = rand(); srand(amb->seed);
            for (unsigned long e : amb->errors) ERR_put_error(ERR_GET_LIB(e), 0, ERR_GET_REASON(e), "elsewhere.c", 1);
            errno = amb->err_no;
        }
        std::string got;
        try { got = f(); }
        catch (const std::invalid_argument &e) { got = std::string("throws invalid_argument ") + e.what(); }
        catch (const std::exception &e) { got = std::string("throws ") + e.what(); }
        if (amb && broken->empty()) {
            if (rand() != want_rand) *broken = name + " changed the sequence of rand()";
            Snapshot after = Snapshot::take();
            for (size_t i = 0; i < before.v.size(); i++) if (i >= after.v.size() || before.v[i] != after.v[i]) { *broken = name + " changed the process: " + before.v[i] + " -> " + (i < after.v.size() ? after.v[i] : ""); break; }
        }
        out.push_back(name + ": " + got);
    };
    std::unique_ptr<Client> cl;
    call("constructor", [&]() { cl = cm::make(who, "mail.example.com", 2525); return std::string("ok"); });
    for (auto &o : ops) {
        call(op_names[o.kind], [&]() -> std::string {
            switch (o.kind) {
            case kSend: {
                int64_t t0 = w.now;
                int rc = cl->send(msgs[o.msg]);
                return pbt::strf("%d after %lld us; log: ", rc, static_cast<long long>(w.now - t0)) + cl->log();
            }
            case kBatch: cl->set_batch(o.on); return cl->batch() ? "on" : "off";
            case kCred: { cl->set_cred(o.cred); Cred k = cl->cred(); return k.user + "/" + k.pass + pbt::strf("/%d", k.method); }
            case kTimeout: cl->set_timeout(o.num); return std::to_string(cl->timeout());
            case kRenew: cl = o.on ? cl->copy() : cl->move(); return cl->server() + pbt::strf(":%u", cl->port());
            case kServer: cl->set_server(o.text); return cl->server();
            case kAddress: { J::MessageAddress a(o.text.c_str(), "Name"); P::MessageAddress b(o.text, "Name"); return std::string(a.getEmailAddress()) + " " + b.getEmailAddress(); }
            case kType: { J::Attachment a(o.text.c_str(), "x"); P::Attachment b(o.text, "x"); return std::string(a.getMimeType()) + " " + b.getMimeType(); }
            case kText: return J::StringUtils::trim(o.text) + "|" + J::StringUtils::trimLeft(o.text) + "|" + J::StringUtils::trimRight(o.text) + "|" + J::StringUtils::toLower(o.text) + "|" + J::StringUtils::toUpper(o.text);
            case kFile: {
                auto text = [](const char *t) { std::string x = t ? t : "none"; delete[] t; return x; };
                J::Attachment a(o.text.c_str(), "x"); P::Attachment b(o.text, "x");
                std::string one = o.on ? text(a.getBase64EncodedFile()) : b.getBase64EncodedFile();
                return one;
            }
            case kBase64: return J::Base64::Encode(reinterpret_cast<const unsigned char *>(o.text.data()), o.text.size()) + "|" + J::Base64::Decode(o.text);
            case kAccept: cl->set_accept_self_signed(o.on); return who.kind == kPlain ? "none" : cl->accept_self_signed() ? "on" : "off";
            default: { J::ErrorResolver e(static_cast<int>(o.num) - 200); return e.getErrorMessage(); }
            }
        });
    }
    call("destructor", [&]() { cl.reset(); return std::string("ok"); });
    for (size_t i = 0; i < net.servers.size(); i++) {
        auto &v = *net.servers[i];
        out.push_back(pbt::strf("connection %zu, port %d, ", i, v.conn ? v.conn->port : 0) + (v.tls_done ? "TLS" : "no TLS"));
        out.push_back("wire: " + v.app_in);
        if (v.tls_done) { std::string p = v.plain_in; out.push_back("before TLS: " + p.substr(0, std::min<size_t>(p.find('\x16'), 200))); }
        if (v.conn && v.conn->writes_after_fin) *pipe = true;
    }
    out.push_back(pbt::strf("%d connections open", sim::open_fds()));
    if (w.hang) out.push_back("hang in " + w.hang_where);
    return out;
}

static Ambient gen_ambient(pbt::Src &s, pbt::Ctx &c) {
    Ambient a;
    a.loc = static_cast<int>(s.weighted({3, 2, 2, 3, 1}));
    a.locale = static_cast<int>(s.index(4));
    if (a.loc) c.d(a.loc == 2 ? "C++ locale with grouped numbers; " : pbt::strf("%s %s; ", a.loc == 1 ? "C locale" : a.loc == 3 ? "C++ and C locale" : "locale of the thread", kLocales[a.locale]));
    a.pipe = static_cast<int>(s.weighted({2, 1, 3}));
    a.pipe_blocked = s.chance(1, 3);
    a.pipe_pending = a.pipe_blocked && a.pipe != kIgn && s.chance(1, 2);
    c.d(std::string("SIGPIPE ") + (a.pipe == kDfl ? "default" : a.pipe == kIgn ? "ignored" : "handled") + (a.pipe_blocked ? " blocked" : "") + (a.pipe_pending ? " pending" : "") + "; ");
    static const std::vector<unsigned long> errs{ERR_PACK(ERR_LIB_SSL, 0, 134), ERR_PACK(ERR_LIB_SSL, 0, 294), ERR_PACK(ERR_LIB_SYS, 0, EPIPE), ERR_PACK(ERR_LIB_SYS, 0, EAGAIN), ERR_PACK(ERR_LIB_X509, 0, 101), ERR_PACK(ERR_LIB_BIO, 0, 103), ERR_PACK(ERR_LIB_EVP, 0, 100)};
    if (s.chance(1, 2)) for (int64_t n = s.range(1, s.chance(1, 6) ? 20 : 3); n > 0; n--) a.errors.push_back(s.pick(errs));
    static const std::vector<int> en{0, EINTR, EAGAIN, EPIPE, ECONNRESET, EINPROGRESS, ENOMEM, EBADF, ETIMEDOUT};
    a.err_no = s.chance(1, 2) ? s.pick(en) : static_cast<int>(s.range(0, 133));
    c.d(pbt::strf("%zu stale OpenSSL errors, errno %d; ", a.errors.size(), a.err_no));
    if (s.chance(1, 4)) {
        struct rlimit rl;
        static const std::vector<int> lows{1020, 1024, 1030, 2047, 5000, 40000, 70000};
        int n = s.pick(lows);
        if (getrlimit(RLIMIT_NOFILE, &rl) == 0 && rl.rlim_cur > static_cast<rlim_t>(n) + 1000) { a.first_fd = n; c.d(pbt::strf("descriptors below %d in use; ", n)); c.label("many descriptors"); }
    }
    if (s.chance(1, 2)) for (int64_t n = s.range(1, 3); n > 0; n--) {
        a.jumps.push_back({s.chance(1, 3) ? 0 : s.range(0, s.chance(1, 2) ? 100000 : 20000000), s.range(-3500, 3500) * 300000});
        c.d(pbt::strf("clock set by %.1f s at %.3f s; ", a.jumps.back().second / 1e6, a.jumps.back().first / 1e6));
    }
    a.seed = static_cast<unsigned>(s.range(1, 1000));
    a.alarm = s.chance(1, 4);
    a.other_handlers = s.chance(1, 2);
    static const std::vector<int> um{022, 077, 0, 0777};
    a.mask = static_cast<mode_t>(s.pick(um));
    return a;
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {3, 3, 3});
    Ambient amb = gen_ambient(s, c);
    std::vector<Msg> msgs;
    std::vector<Op> ops;
    size_t n = static_cast<size_t>(s.range(1, c.tier ? 12 : 8));
    bool sent = false;
    for (size_t i = 0; i < n; i++) {
        Op o;
        o.kind = static_cast<int>(s.weighted({10, 2, 3, 1, 1, 1, 2, 2, 2, 1, 1, 2, who.kind == kPlain ? 0u : 2u}));
        c.d(op_names[o.kind]);
        switch (o.kind) {
        case kSend: {
            MsgOpts m; m.wild_names = s.chance(1, 2); m.wild_body = s.chance(1, 3); m.max_atts = s.chance(1, 3) ? 2 : 0; m.max_rcpt = 2; m.max_file = 300; m.max_body = s.chance(1, 6) ? 5000 : 300;
            o.msg = msgs.size();
            msgs.push_back(gen_msg(s, c, m));
            sent = true;
            break;
        }
        case kBatch: case kRenew: o.on = s.chance(1, 2); break;
        case kAccept: o.on = s.chance(3, 4); break;
        case kCred: o.cred = cm::gen_cred(s, 30); break;
        case kTimeout: o.num = static_cast<unsigned>(s.range(1, 20)); break;
        case kServer: { static const std::vector<std::string> h{"mail.example.com", "SMTP.Indigo.example", " nowhere.example.com", "\xa0", "\x85", "\xc2\xa0", "  ", "mi\xe9.example"}; o.text = s.pick(h); break; }
        case kAddress: { static const std::vector<std::string> a{"INFO@EXAMPLE.COM", "info@ISLAND.IT", "i@i.io", "\xe9t\xe9@example.com", "\xfdi\xdd@example.org", "a\xa0" "b@example.com", "K@x.ki"}; o.text = s.chance(1, 2) ? s.pick(a) : gen_email(s); break; }
        case kType: { o.text = "file." + kMime[s.index(kMime.size())].first; bool up = s.chance(1, 2); for (char &ch : o.text) if (up && ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32); break; }
        case kText: case kBase64: o.text = s.chance(1, 2) ? gen_bytes(s, 40, false) : "\xa0 Iii\xdd\xfd \xe9\xc9\x85 " + gen_word(s, 6) + "=\xe9"; break;
        case kFile: { static const std::vector<std::string> f{"/attached.txt", "/missing.txt", "", "/attached.txt/x"}; size_t k = s.index(4); o.text = c.scratch + (k < 3 ? f[k] : f[0]); o.on = s.chance(1, 2); if (k == 0 || k == 3) write_file(c.scratch + "/attached.txt", "some content\n"); break; }
        case kError: o.num = static_cast<unsigned>(s.range(0, 900)); break;
        default: break;
        }
        if (!o.text.empty()) c.d(" \"" + pbt::esc(o.text, 60) + "\"");
        c.d("; ");
        ops.push_back(o);
    }
    c.label(sent ? "with mail" : "values only");
    std::vector<uint8_t> buf(static_cast<size_t>(s.range(10, 150)));
    for (auto &x : buf) x = s.byte();
    std::string broken, printed;
    bool pipe = false;
    std::vector<std::string> t[2];
    for (int a = 0; a < 2; a++) {
        pbt::Src r(pbt::Src::kReplay, 0, buf.data(), buf.size(), nullptr, 0, nullptr);
        if (a == 0) { t[0] = play(r, who, ops, msgs, nullptr, &broken, &pipe); continue; }
        g_handled = 0;
        sim::reset();
        int files = open_files();
        {
            Applied ap(amb);
            if (!ap.available) c.label("locale not available");
            t[1] = play(r, who, ops, msgs, &amb, &broken, &pipe);
            printed = ap.output();
        }
        sim::reset();
        int now = open_files();
        if (now != files && broken.empty()) broken = pbt::strf("%d files open before, %d after", files, now);
    }
    if (pipe) c.label("write to a closed connection");
    if (amb.loc) c.label("locale");
    if (!amb.errors.empty()) c.label("stale OpenSSL errors");
    if (!amb.jumps.empty()) c.label("clock set");
    c.nontrivial = amb.loc || amb.pipe != kDfl || amb.pipe_blocked || !amb.errors.empty() || amb.err_no || amb.first_fd || !amb.jumps.empty();
    if (!printed.empty()) c.fail("prints", "written to standard output: \"" + pbt::esc(printed) + "\"");
    if (!broken.empty()) c.fail("changes-process", broken);
    for (size_t i = 0; i < t[0].size() || i < t[1].size(); i++) {
        std::string x = i < t[0].size() ? t[0][i] : "(nothing)", y = i < t[1].size() ? t[1][i] : "(nothing)";
        if (x == y) continue;
        size_t d = 0;
        while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
        d = d > 60 ? d - 60 : 0;
        c.fail("depends-on-process", x.substr(0, std::min<size_t>(x.find(':'), 40)) + " gives\n" + pbt::esc(x.substr(d), 500) + "\nand in these surroundings\n" + pbt::esc(y.substr(d), 500));
    }
}
namespace pbt {
Property property{"C29", "the state of the process differs from that of a fresh one (locale, SIGPIPE, stale errors, descriptors in use, wall clock)", run, 7000, 90000};
}
