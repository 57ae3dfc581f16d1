// C25: server capabilities are read correctly from every form of EHLO reply.
#include <memory>
#include "common.h"
#include "ehlo.h"
#include "src/opportunisticsecuresmtpclient.h"
#include "src/forcedsecuresmtpclient.h"
#include "src/smtpclient.h"
#include "src/serveroptionsanalyzer.h"
#include "src/cpp/smtpclient.hpp"
#include "src/cpp/opportunisticsecuresmtpclient.hpp"
#include "src/cpp/forcedsecuresmtpclient.hpp"
namespace J = jed_utils;
namespace P = jed_utils::cpp;

struct Opp : J::OpportunisticSecureSMTPClient { using J::OpportunisticSecureSMTPClient::isStartTLSSupported; using J::SMTPClientBase::extractReturnCode; using J::SMTPClientBase::extractAuthenticationOptions; };
struct PPlain : P::SmtpClient { using P::SmtpClient::extractAuthenticationOptions; using P::SmtpClient::extractReturnCode; };
struct POpp : P::OpportunisticSecureSMTPClient { using P::OpportunisticSecureSMTPClient::extractAuthenticationOptions; using P::OpportunisticSecureSMTPClient::extractReturnCode; };
struct PForced : P::ForcedSecureSMTPClient { using P::ForcedSecureSMTPClient::extractAuthenticationOptions; using P::ForcedSecureSMTPClient::extractReturnCode; };

static J::ServerAuthOptions *ask(size_t how, const std::string &t) {
    switch (how) {
    case 1: return PPlain::extractAuthenticationOptions(t);
    case 2: return POpp::extractAuthenticationOptions(t);
    case 3: return PForced::extractAuthenticationOptions(t);
    default: return Opp::extractAuthenticationOptions(t.c_str());
    }
}
static int code(size_t how, const std::string &t) {
    switch (how) {
    case 1: return PPlain::extractReturnCode(t);
    case 2: return POpp::extractReturnCode(t);
    case 3: return PForced::extractReturnCode(t);
    default: return Opp::extractReturnCode(t.c_str());
    }
}
static std::string soup(pbt::Src &s) {
    static const std::vector<std::string> f{"250-", "250 ", "250", "AUTH", "AUTH ", "STARTTLS", "PLAIN", "LOGIN ", "\r\n", "\r", "\n", " ", "-", "\r\n250 ", "250-AUTH", "250 AUTH PLAIN", "999", "-1", "+25", " 25", "0x1", "2147483648", "\xff", "\t", "250-STARTTLS\r\n"};
    std::string o;
    for (int64_t n = s.range(0, 12); n > 0; n--) { if (s.chance(1, 5)) o += model::gen_bytes(s, 20, false); else o += s.pick(f); }
    return o;
}
template <class F> static void no_leak(pbt::Ctx &c, const char *what, F f) {
    f();                                   // first use may initialise things that stay
    sim::Heap a = sim::heap();
    f();
    sim::Heap b = sim::heap();
    c.check(b.blocks == a.blocks, "leak", pbt::strf("%s leaves %lld blocks allocated", what, static_cast<long long>(b.blocks - a.blocks)));
}
static void probes(pbt::Ctx &c, size_t how, const std::string &t) {
    no_leak(c, "extractAuthenticationOptions", [&]() { delete ask(how, t); });
    no_leak(c, "isStartTLSSupported", [&]() { volatile bool b = Opp::isStartTLSSupported(t.c_str()); (void)b; });
    no_leak(c, "extractReturnCode", [&]() { volatile int b = code(how, t); (void)b; });
    no_leak(c, "containsAllOptions", [&]() { volatile bool b = J::ServerOptionsAnalyzer::containsAllOptions(t); (void)b; });
}
// a whole session: what the client does with the capabilities the server announced
using namespace model;
static void session(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {2, 2, 1});
    ehlo::Reply clear = ehlo::gen(s), tls = ehlo::gen(s, 0);
    bool cuts = s.chance(1, 3);
    Net net;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f;
        f.implicit_tls = who.kind == kForced;
        f.raw_ehlo = clear.text();
        f.raw_ehlo_tls = tls.text();
        if (cuts) f.cut = [&s](const std::string &b) { return cm::cut(s, b, 8, 400000); };
        return f;
    };
    net.install();
    static const char *names[] = {"", "PLAIN", "LOGIN", "XOAUTH2"};
    auto cl = cm::make(who);
    Cred k;
    k.method = static_cast<int>(s.range(0, 3));
    k.user = "user"; k.pass = "secret";
    cl->set_cred(k);
    int rc = cl->send(model::simple_msg());
    c.d("whole session, clear \"" + pbt::esc(clear.text(), 300) + "\" tls \"" + pbt::esc(tls.text(), 300) + pbt::strf("\" method %d -> %d", k.method, rc));
    if (net.servers.empty()) c.fail("no-connection", pbt::strf("sendMail returned %d without connecting", rc));
    auto &v = *net.servers.back();
    std::string dia = "\n" + net.describe();
    bool offered = ehlo::starttls(clear), asked = false;
    std::string mech;
    for (auto &x : v.cmds) {
        if (x.step == srv::STARTTLS) asked = true;
        if (x.step == srv::AUTH && mech.empty()) mech = ehlo::upper(x.line.substr(5, x.line.find(' ', 5) - 5));
    }
    if (who.kind == kOpp) c.check(asked == offered, "starttls", std::string("STARTTLS is ") + (offered ? "offered but not used" : "used but not offered") + dia);
    const bool secured = who.kind == kForced || (who.kind == kOpp && offered);
    std::string expect;
    if (secured || who.kind == kPlain) {
        auto m = ehlo::mechs(secured ? tls : clear);
        for (int j = 1; j < 4 && expect.empty(); j++) if ((!k.method || k.method == j) && m.count(names[j])) expect = names[j];
        c.check(mech == expect, "mechanism", "the mechanism used is \"" + mech + "\", by the capabilities it should be \"" + expect + "\"" + dia);
        c.check((rc == 0) == !expect.empty(), "result", pbt::strf("sendMail returned %d", rc) + dia);
    }
    cl.reset();
    cm::tidy(c);
    c.nontrivial = true;
    c.label("whole session");
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    if (s.chance(1, 100)) { session(s, c); return; }
    size_t how = s.index(4);
    if (s.chance(1, 5)) {
        std::string t = soup(s);
        c.d("text \"" + pbt::esc(t) + "\"");
        probes(c, how, t);
        c.label("arbitrary text");
        return;
    }
    ehlo::Reply r = ehlo::gen(s);
    r.final_nl = !s.chance(1, 6);
    std::string t = r.text();
    c.d("reply \"" + pbt::esc(t, 600) + "\"");
    bool tls = ehlo::starttls(r);
    auto m = ehlo::mechs(r);
    c.check(Opp::isStartTLSSupported(t.c_str()) == tls, "starttls", std::string("STARTTLS is ") + (tls ? "offered but not recognised" : "not offered but recognised"));
    {
        std::unique_ptr<J::ServerAuthOptions> o(ask(how, t));
        struct { const char *n; bool got; } k[] = {{"PLAIN", o && o->Plain}, {"LOGIN", o && o->Login}, {"XOAUTH2", o && o->XOAuth2}, {"PLAIN-CLIENTTOKEN", o && o->Plain_ClientToken}, {"OAUTHBEARER", o && o->OAuthBearer}, {"XOAUTH", o && o->XOAuth}};
        for (auto &x : k) c.check(x.got == (m.count(x.n) > 0), "auth", std::string("mechanism ") + x.n + " is " + (x.got ? "not offered but recognised" : "offered but not recognised"));
    }
    c.check(code(how, t) == 250, "code", "return code of the reply is read as " + std::to_string(code(how, t)));
    // completeness after every line and, inside lines, wherever the started line can not look final
    size_t pos = 0;
    for (size_t i = 0; i < r.lines.size(); i++) {
        bool last = i + 1 == r.lines.size();
        size_t len = 4 + r.lines[i].size();
        for (size_t k : {size_t(1), size_t(3)}) c.check(!J::ServerOptionsAnalyzer::containsAllOptions(t.substr(0, pos + k)), "complete", pbt::strf("reply cut after %zu bytes is taken for complete", pos + k));
        if (!last) {
            for (size_t k : {len, len + 1, len + 2}) c.check(!J::ServerOptionsAnalyzer::containsAllOptions(t.substr(0, pos + k)), "complete", pbt::strf("reply cut after %zu bytes is taken for complete", pos + k));
            pos += len + 2;
        } else {
            c.check(J::ServerOptionsAnalyzer::containsAllOptions(t), "complete", "the complete reply is taken for incomplete");
        }
    }
    // other codes
    int k = static_cast<int>(s.range(100, 999));
    std::string reply = std::to_string(k) + (s.chance(1, 2) ? " " : "-") + soup(s);
    c.check(code(how, reply) == k, "code", "reply \"" + pbt::esc(reply) + "\" is read as code " + std::to_string(code(how, reply)));
    if (s.chance(1, 4)) probes(c, how, t);
    if (tls) c.label("starttls");
    if (!m.empty()) c.label("auth");
    if (r.lines.size() == 1) c.label("single line");
    c.nontrivial = r.lines.size() > 1;
}
namespace pbt {
Property property{"C25",
    "A case is an EHLO reply drawn from the grammar (any order, letter case, separators, look-alike keywords and mechanisms, with or without the last line ending; the AUTH mechanisms in one or several lines, optionally repeated in the AUTH= spelling) read by the library's parsers "
    "and by a reference reader; one case in five is arbitrary text (no crash, no leak); one in a hundred is a whole session, in which the client has to use STARTTLS and the mechanisms as announced. Non-trivial: a reply of more than one line, or a whole session.",
    run, 500000, 5000000};
}
