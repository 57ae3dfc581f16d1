// sanitizer: work
// C30: the cost of a call is proportional to the size of what it is given.
#include "script.h"
#include "values.h"
#include <cstring>
#include <fcntl.h>
#include <stdexcept>
#include "src/base64.h"
#include "src/stringutils.h"
#include "src/serveroptionsanalyzer.h"
#include "src/opportunisticsecuresmtpclient.h"
using namespace model;
namespace J = jed_utils;
namespace P = jed_utils::cpp;

// ---- counting work -------------------------------------------------------------------------------------------
// The library's code reports every edge it runs through (-fsanitize-coverage=trace-pc-guard); the memory and string functions
// defined here replace those of the C library for the whole process and report the bytes they handle.
static bool g_on = false;
static uint64_t g_work = 0, g_bytes = 0;
static inline void step() { if (g_on && !sim::g_inside) g_work++; }
static inline void spend(size_t n) { if (g_on && !sim::g_inside) g_bytes += n; }
extern "C" {
#define PLAIN __attribute__((no_builtin, noinline))
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { step(); }
PLAIN void *memcpy(void *d, const void *s, size_t n) noexcept { spend(8 + n); void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
PLAIN void *mempcpy(void *d, const void *s, size_t n) noexcept { memcpy(d, s, n); return static_cast<char *>(d) + n; }
PLAIN void *memmove(void *d, const void *s, size_t n) noexcept {
    spend(8 + n);
    void *r = d;
    if (d == s || !n) return r;
    if (d < s || static_cast<const char *>(s) + n <= d) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
    char *a = static_cast<char *>(d); const char *b = static_cast<const char *>(s);
    while (n >= 8) { n -= 8; uint64_t v = *reinterpret_cast<const volatile uint64_t *>(b + n); *reinterpret_cast<volatile uint64_t *>(a + n) = v; }
    while (n) { n--; *const_cast<volatile char *>(a + n) = b[n]; }
    return r;
}
PLAIN void *memset(void *d, int c, size_t n) noexcept { spend(8 + n); void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
PLAIN int memcmp(const void *x, const void *y, size_t n) noexcept {
    const unsigned char *a = static_cast<const unsigned char *>(x), *b = static_cast<const unsigned char *>(y);
    size_t i = 0;
    while (i < n && a[i] == b[i]) i++;
    spend(8 + i);
    return i < n ? a[i] - b[i] : 0;
}
PLAIN size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; spend(8 + n); return n; }
PLAIN size_t strnlen(const char *s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) n++; spend(8 + n); return n; }
void *w_memchr(const void *, int, size_t) __asm__("memchr");
char *w_strchr(const char *, int) __asm__("strchr");
char *w_strrchr(const char *, int) __asm__("strrchr");
char *w_strstr(const char *, const char *) __asm__("strstr");
PLAIN void *w_memchr(const void *x, int c, size_t n) {
    const unsigned char *a = static_cast<const unsigned char *>(x);
    size_t i = 0;
    while (i < n && a[i] != static_cast<unsigned char>(c)) i++;
    spend(8 + i);
    return i < n ? const_cast<unsigned char *>(a + i) : nullptr;
}
PLAIN char *w_strchr(const char *s, int c) { size_t i = 0; while (s[i] && s[i] != static_cast<char>(c)) i++; spend(8 + i); return s[i] == static_cast<char>(c) ? const_cast<char *>(s + i) : nullptr; }
PLAIN char *w_strrchr(const char *s, int c) { size_t n = strlen(s) + 1; while (n) { n--; if (s[n] == static_cast<char>(c)) return const_cast<char *>(s + n); } return nullptr; }
PLAIN int strcmp(const char *a, const char *b) noexcept { size_t i = 0; while (a[i] && a[i] == b[i]) i++; spend(8 + i); return static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]); }
PLAIN int strncmp(const char *a, const char *b, size_t n) noexcept { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; spend(8 + i); return i < n ? static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]) : 0; }
PLAIN char *strcpy(char *d, const char *s) noexcept { size_t i = 0; while ((d[i] = s[i])) i++; spend(8 + i); return d; }
PLAIN char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; spend(8 + n); for (; i < n; i++) d[i] = 0; return d; }
PLAIN char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
PLAIN char *strncat(char *d, const char *s, size_t n) noexcept { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; spend(8 + i); return d; }
PLAIN char *w_strstr(const char *h, const char *n) {
    size_t l = strlen(n), i = 0;
    for (;; i++) { size_t k = 0; while (k < l && h[i + k] == n[k]) k++; if (k == l) { spend(8 + i); return const_cast<char *>(h + i); } if (!h[i]) break; }
    spend(8 + i);
    return nullptr;
}
}

struct Work { uint64_t steps = 0, bytes = 0; };
struct Measure {
    Measure() { g_work = g_bytes = 0; g_on = true; }
    ~Measure() { g_on = false; }
    Work stop() { g_on = false; return {g_work, g_bytes}; }
};

// ---- scenarios: one dimension grows, everything else stays -----------------------------------------------------
enum { kBodyLines, kBodyLong, kAttSize, kAttCount, kRcpts, kNames, kReplyLines, kReplyPieces, kMails, kCredLen, kSendPieces, kEhloLines, kValue, kText, kFields, kDims };
static const char *dim_names[] = {"lines of the text", "length of one line of the text", "size of an attachment", "number of attachments", "number of recipients", "length of names and subject",
    "lines of a reply", "pieces of a reply", "mails in a session", "length of the credentials", "text taken in small pieces", "lines of the EHLO reply", "size of a value object", "length of a string", "length of other fields"};
enum { kTimes = 8 };
static const size_t base_size[] = {250, 5000, 3000, 8, 20, 800, 80, 80, 5, 600, 2000, 40, 25, 1200, 1200};

struct Plan {
    int dim; cm::Who who; int flavour = 0, flavour2 = 0; uint64_t seed = 0; size_t piece = 16; srv::Step step = srv::EHLO; bool batch = false; bool cred = false; size_t extra = 1;
};
static uint64_t mix(uint64_t &x) { x += 0x9e3779b97f4a7c15ULL; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static std::string some_text(int flavour, size_t n, uint64_t seed) {          // n units
    std::string o;
    static const char *ends[] = {"\r\n", "\n", "\r"};
    for (size_t i = 0; i < n; i++) {
        uint64_t r = mix(seed);
        switch (flavour) {
        case 0: case 1: case 2: o += "line of text " + std::to_string(r % 1000) + ends[flavour]; break;
        case 3: o += ends[r % 3]; break;
        case 4: o += "." + std::string(ends[r % 3]); break;
        case 5: o += "--sep" + std::to_string(i) + "\r\n"; break;
        case 6: o += "--sep\r\n"; break;
        case 7: o += "--sep" + std::to_string(r % (n + 1)) + "--\n"; break;
        case 8: o += "\"\\\"\\ "; break;
        case 9: o += static_cast<char>(r % 255 + 1); break;
        case 10: o += "-"; break;
        case 11: o += " \t"; break;
        case 12: o += "."; break;
        case 13: o += "a.b-c"; break;
        case 14: o += "=?@<,"; break;
        default: o += static_cast<char>('a' + r % 26); break;
        }
    }
    return o;
}
enum { kTextFlavours = 16 };

// Runs the scenario at a size; returns the work done inside the library and sets a summary of the outcome.
static Work scenario(const Plan &p, size_t n, const std::string &dir, std::string &outcome) {
    sim::reset();
    sim::World &w = sim::w();
    Msg m = simple_msg();
    Cred cred;
    if (p.cred) { cred.set = true; cred.user = "user"; cred.pass = "password"; cred.method = p.flavour2 % 4; }
    size_t mails = 1;
    std::string long_reply;
    srv::Pieces pieces;
    switch (p.dim) {
    case kBodyLines: m.body = some_text(p.flavour % 8, n, p.seed); break;
    case kBodyLong: m.body = some_text(8 + p.flavour % 8, n, p.seed); break;
    case kAttSize: { Att a; a.path = dir + "/big.bin"; a.name = "big.bin"; a.content = some_text(9, n, p.seed); write_file(a.path, a.content); m.atts.push_back(a); break; }
    case kAttCount: for (size_t i = 0; i < n; i++) { Att a; a.path = dir + "/small.txt"; a.name = "n" + std::to_string(i) + ".txt"; a.cid = i % 2 ? "cid" : ""; if (!i) write_file(a.path, "small"); m.atts.push_back(a); } break;
    case kRcpts: for (size_t i = 0; i < n; i++) { Addr a{i % 3 ? "Name, \"" + std::to_string(i) + "\"" : "", "r" + std::to_string(i) + "@example.com"}; (p.flavour % 4 == 0 ? m.to : p.flavour % 4 == 1 ? m.cc : p.flavour % 4 == 2 ? m.bcc : (i % 2 ? m.to : m.bcc)).push_back(a); } break;
    case kNames: { std::string t = some_text(p.flavour % kTextFlavours, n, p.seed); if (p.flavour2 % 2) for (char &c : t) if (c == '\r' || c == '\n') c = '_'; if (p.flavour2 % 3 == 0) m.subject = t; else if (p.flavour2 % 3 == 1) m.from.name = t; else m.to[0].name = t; break; }
    case kFields: { std::string t = some_text(p.flavour % kTextFlavours, n, p.seed); Att a; a.path = dir + "/small.txt"; write_file(a.path, "small"); a.name = p.flavour2 % 2 ? "x" : t; a.cid = p.flavour2 % 2 ? t : ""; m.atts.push_back(a); break; }
    case kMails: mails = n; break;
    case kCredLen: cred.set = true; cred.user = p.flavour2 % 2 ? some_text(9, n, p.seed) : "user"; cred.pass = p.flavour2 % 2 ? "pass" : some_text(15, n, p.seed); cred.method = p.flavour % 4; break;
    case kSendPieces: m.body = some_text(p.flavour % 8, n / 8, p.seed); w.sticky[sim::kSend] = sim::Fault{0, static_cast<int64_t>(p.piece)}; break;
    default: break;
    }
    if (p.dim == kValue || p.dim == kText) {
        Work work;
        if (p.dim == kValue) {
            for (size_t i = 0; i < n; i++) { (i % 3 == 0 ? m.to : i % 3 == 1 ? m.cc : m.bcc).push_back({"N", "a@b.com"}); Att a; a.path = dir + "/none.txt"; a.name = "x"; m.atts.push_back(a); }
            m.body = some_text(0, n, p.seed);
            with_message(m, p.who.api, [&](const J::Message &j) {
                const J::PlaintextMessage *t = dynamic_cast<const J::PlaintextMessage *>(&j);
                Measure me;
                if (t) { J::PlaintextMessage a(*t), b(a), c(std::move(a)); a = b; b = c; c = std::move(a); outcome = std::to_string(b.getToCount()); }
                work = me.stop();
            });
            return work;
        }
        std::string t = some_text(p.flavour, n, p.seed), got;
        Measure me;
        try {
            switch (p.flavour2 % 9) {
            case 0: got = J::StringUtils::trim(t); break;
            case 1: got = J::StringUtils::toUpper(t); break;
            case 2: got = J::Base64::Encode(reinterpret_cast<const unsigned char *>(t.data()), t.size()); break;
            case 3: got = J::Base64::Decode(std::string(t.size() & ~3u, 'A')); break;
            case 4: { J::MessageAddress a((t + "@" + t + ".com").c_str(), t.c_str()); got = std::string(a); break; }
            case 5: { J::Attachment a(("x" + t).c_str(), t.c_str(), t.c_str()), b(a); a = b; got = a.getMimeType(); break; }
            case 6: { J::Credential a(t.c_str(), t.c_str()), b(a); a = b; got = a.getUsername(); break; }
            case 7: { std::unique_ptr<Client> c = cm::make(p.who, "h" + t, 25); c->set_server("g" + t); auto d = c->copy(); got = d->server(); break; }
            default: { std::string o; if (p.flavour % 4 == 1) { o = "250-AUTH"; for (size_t i = 0; i < n; i++) o += i % 3 ? " X" : " LOGIN"; o += "\r\n"; } else if (p.flavour % 4 == 2) { o = "250-" + t.substr(0, t.find_first_of("\r\n")) + "\r\n"; } else for (size_t i = 0; i < n / 20; i++) o += (p.flavour % 4 ? "250-AUTH X" : "250-X") + std::to_string(i) + (i % 5 ? "\r\n" : " AUTH LOGIN\r\n"); o += "250 AUTH PLAIN\r\n"; struct X : J::OpportunisticSecureSMTPClient { using J::OpportunisticSecureSMTPClient::isStartTLSSupported; using J::SMTPClientBase::extractAuthenticationOptions; };
                delete X::extractAuthenticationOptions(o.c_str()); X::isStartTLSSupported(o.c_str()); break; }
            }
        } catch (const std::invalid_argument &) { got = "refused"; }
        work = me.stop();
        outcome = got == "refused" ? got : "ok";
        return work;
    }
    Net net;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f = conf_for(p.who.kind);
        f.auth = [](const std::string &, const std::string &, const std::string &) { return 235; };
        if (p.dim == kEhloLines) {
            std::vector<std::string> &e = p.who.kind == kPlain || (p.who.kind == kOpp && p.flavour2 % 2) ? f.ehlo : f.ehlo_tls;
            std::vector<std::string> x;
            if (p.flavour % 4 == 1) { std::string l = "AUTH"; for (size_t i = 0; i < 3 * n; i++) l += " " + (i % 2 ? "X" + std::to_string(i) : std::string()); x.push_back(l); }
            else if (p.flavour % 4 == 2) x.push_back("XOPTION " + std::string(20 * n, 'x'));
            else for (size_t i = 0; i < n; i++) x.push_back(i % 7 == 3 ? "AUTH X" + std::to_string(i) : "XOPTION" + std::to_string(i) + " with parameters");
            x.insert(x.end(), e.begin(), e.end());
            e = x;
        }
        if (p.dim == kReplyLines || p.dim == kReplyPieces) {
            f.on_step = [&p, n](srv::Step st, int, srv::Reply &r) {
                if (st != p.step) return true;
                std::string code = r.text.substr(0, 3), keep = r.text;
                std::string t;
                for (size_t i = 0; i < n; i++) t += code + "-" + (st == srv::AUTH2 || p.flavour % 2 ? "" : "text of a long reply") + "\r\n";
                r.text = t + keep;
                return true;
            };
            if (p.dim == kReplyPieces) { size_t k = p.piece; f.cut = [k](const std::string &b) { srv::Pieces q; for (size_t i = 0; i < b.size(); i += k) q.push_back({1, b.substr(i, k)}); return q; }; }
        }
        return f;
    };
    net.install();
    sim::w().keep_trace = false;
    sim::w().max_steps = 200000000;
    auto cl = cm::make(p.who);
    if (cred.set) cl->set_cred(cred);
    cl->set_batch(p.batch || p.dim == kMails);
    cl->set_timeout(1000);
    std::string rcs;
    Work work;
    with_message(m, p.who.api, [&](const J::Message &j) {
        Measure me;
        for (size_t i = 0; i < mails; i++) { int rc = cl->send_lib(j); if (rc) { rcs = std::to_string(rc); break; } }
        cl.reset();
        work = me.stop();
    });
    outcome = rcs.empty() ? "0" : rcs;
    if (sim::w().hang) outcome += " hang";
    return work;
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    Plan p;
    p.dim = static_cast<int>(s.weighted({5, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 1, 4, 2}));
    p.who = cm::gen_who(s, c, {4, 1, 1});
    p.flavour = static_cast<int>(s.index(kTextFlavours));
    p.flavour2 = static_cast<int>(s.index(36));
    p.seed = s.bits(4);
    p.piece = static_cast<size_t>(s.weighted({2, 1}) ? s.range(1, 200) : s.range(1, 8));
    if (p.dim == kSendPieces && p.who.kind != kPlain) p.piece = std::max<size_t>(p.piece, 5);
    static const std::vector<srv::Step> plain_steps{srv::GREETING, srv::EHLO, srv::MAIL, srv::RCPT, srv::DATA, srv::EOD};
    p.step = s.pick(plain_steps);
    if (p.who.kind == kForced && p.step == srv::EHLO) p.step = srv::EHLO_TLS;
    p.batch = s.chance(1, 4);
    p.cred = s.chance(1, 4);
    p.extra = static_cast<size_t>(s.range(1, c.tier ? 6 : 3));
    size_t n = base_size[p.dim] * p.extra;
    c.label(dim_names[p.dim]);
    c.d(std::string(dim_names[p.dim]) + pbt::strf(", sizes %zu and %zu, flavours %d %d, pieces of %zu, step %s", n, kTimes * n, p.flavour, p.flavour2, p.piece, srv::step_names[p.step]) + (p.batch ? ", batch" : "") + (p.cred ? ", credentials" : ""));
    std::string o0, o1, o4;
    scenario(p, n, c.scratch, o0);                       // things done once only
    Work w1 = scenario(p, n, c.scratch, o1);
    Work w4 = scenario(p, kTimes * n, c.scratch, o4);
    sim::reset();
    c.d(pbt::strf("; %llu and %llu steps, %llu and %llu bytes handled; result %s", static_cast<unsigned long long>(w1.steps), static_cast<unsigned long long>(w4.steps), static_cast<unsigned long long>(w1.bytes), static_cast<unsigned long long>(w4.bytes), o1.c_str()));
    if (o1 != o4) { c.label("different results"); return; }
    c.nontrivial = true;
    if (o1 != "0" && o1 != "ok" && (p.dim != kValue)) c.label("refused or failed");
    auto growth = [](uint64_t a, uint64_t b, double factor, double slack) { return static_cast<double>(b) / (static_cast<double>(a) + slack / factor); };
    auto judge = [&](const char *what, uint64_t Work::*q, double factor, double slack) {
        uint64_t a = w1.*q, b = w4.*q;
        double g = growth(a, b, factor, slack);
        c.label(std::string(what) + (g <= 2 ? ": growth below 2" : g <= 8.5 ? ": growth 2 to 8.5" : g <= 10 ? ": growth 8.5 to 10" : g <= 12 ? ": growth 10 to 12" : g <= 14 ? ": growth 12 to 14" : ": growth above 14"));
        if (g <= factor) return;
        // A cost that comes up only beyond some size (a buffer moved once) makes one step between two sizes; a law of growth goes on.
        std::string o64;
        Work w64 = scenario(p, kTimes * kTimes * n, c.scratch, o64);
        sim::reset();
        if (o64 == o4 ? growth(b, w64.*q, factor, slack) <= factor : growth(a + w1.steps / 4, b, factor, slack) <= factor) { c.label("one step in the cost"); return; }
        c.fail("superlinear", pbt::strf("%d times the %s costs %.1f times the %s (%llu, then %llu)", kTimes, dim_names[p.dim], static_cast<double>(b) / static_cast<double>(std::max<uint64_t>(a, 1)), what, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b)));
    };
    judge("steps", &Work::steps, 16, 20000);
    judge("bytes handled", &Work::bytes, 20, 100000);
}
namespace pbt {
Property property{"C30", "the same result at both sizes", run, 1500, 15000};
}
