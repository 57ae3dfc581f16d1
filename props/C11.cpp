// C11: authentication uses an offered mechanism with exactly the user's credentials.
#include "common.h"
#include "ehlo.h"
using namespace model;

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {3, 2, 2});
    size_t sessions = static_cast<size_t>(s.weighted({4, 3, 2})) + 1;
    static const char *names[] = {"", "PLAIN", "LOGIN", "XOAUTH2"};
    Net net;
    ehlo::Reply clear, tls;
    bool opp_tls = true, cuts = false;
    int verdict = 235, refuse_at = 0, refuse_code = 535;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f;
        f.implicit_tls = who.kind == kForced;
        f.raw_ehlo = clear.text();
        f.raw_ehlo_tls = tls.text();
        if (cuts) f.cut = [&s](const std::string &b) { return cm::cut(s, b, 8, 400000); };
        f.auth = [&verdict](const std::string &, const std::string &, const std::string &) { return verdict; };
        f.on_step = [&](srv::Step st, int, srv::Reply &r) {
            if (verdict == 235) return true;
            if ((refuse_at == 1 && st == srv::AUTH) || (refuse_at == 2 && st == srv::AUTH2) || (refuse_at == 3 && (st == srv::AUTH3 || st == srv::AUTH))) {
                if (refuse_at == 3 && st == srv::AUTH && srv::code_of(r.text) == 334) return true;
                r.text = std::to_string(refuse_code) + (refuse_code == 334 ? " eyJzdGF0dXMiOiI0MDEifQ==\r\n" : " 5.7.8 refused\r\n");
            }
            return true;
        };
        return f;
    };
    net.install();
    auto cl = cm::make(who);
    bool batch = false, open = false, have = false, authed = false;
    Cred k;
    const bool huge = s.chance(1, 60);
    const size_t max_len = s.chance(1, 40) ? 32000 : s.chance(1, 6) ? 1500 : 40;
    for (size_t i = 0; i < sessions; i++) {
        for (int64_t ops = i == 0 ? 2 : s.weighted({3, 2, 1}); ops > 0; ops--) {
            switch (s.weighted({5, 1, 1, 1, 1})) {
            case 0:
                if (i == 0 && ops == 1 && s.chance(1, 8)) break;
                k = cm::gen_cred(s, max_len);
                if (huge && s.chance(1, 2)) {        // around the sizes at which an encoder may break its lines
                    static const std::vector<int64_t> marks{49152, 49152, 65536, 98304, 100000};
                    std::string &p = s.chance(3, 4) ? k.pass : k.user;
                    const size_t size = static_cast<size_t>(s.pick(marks) + s.range(-40, 4));
                    while (p.size() < size) p += static_cast<char>('!' + p.size() * 7 % 90);
                    c.label("huge credentials");
                }
                if (k.method == 3 || s.chance(1, 3)) for (std::string *p : {&k.user, &k.pass}) for (char &ch : *p) if (static_cast<unsigned char>(ch) < 2) ch = 'x';
                cl->set_cred(k); have = true; c.d(pbt::strf("credentials (%zu and %zu bytes, %s); ", k.user.size(), k.pass.size(), k.method ? names[k.method] : "implicit")); break;
            case 1: { auto o = cl->copy(); cl = std::move(o); open = false; c.d("copy; "); break; }
            case 2: { auto o = cl->move(); cl = std::move(o); c.d("move; "); break; }
            case 3: { auto o = cm::make(who); bool mv = s.chance(1, 2); if (mv) o->assign_move(*cl); else { o->assign(*cl); open = false; } cl = std::move(o); c.d("assign; "); break; }
            default: if (!open) { batch = s.chance(1, 2); cl->set_batch(batch); c.d(batch ? "batch; " : "no batch; "); }
            }
        }
        if (i == 0 && s.chance(1, 6)) { cl = cm::make(who); have = false; batch = false; c.d("no credentials; "); }
        opp_tls = who.kind != kOpp || !s.chance(1, 5);
        std::vector<std::string> offer;
        for (int j = 1; j < 4; j++) if (s.chance(1, 2)) offer.push_back(names[j]);
        bool want = s.chance(7, 8);
        tls = ehlo::gen(s, 0, want, &offer);
        clear = who.kind == kPlain ? tls : ehlo::gen(s, who.kind == kOpp && opp_tls ? 1 : 0, -1);
        if (who.kind == kOpp) opp_tls = ehlo::starttls(clear);
        cuts = s.chance(1, 3);
        static const std::vector<int> codes{535, 530, 534, 538, 454, 504, 501, 334, 500, 421, 250, 220, 432, 555, 599, 100, 200, 236};
        verdict = s.chance(1, 4) ? s.pick(codes) : 235;
        refuse_at = static_cast<int>(s.range(1, 3));
        refuse_code = verdict;
        bool reuse = open;
        auto mechs = ehlo::mechs(tls);
        int expect = 0;
        if (have) {
            if (k.method) { if (mechs.count(names[k.method])) expect = k.method; }
            else for (int j = 1; j < 4 && !expect; j++) if (mechs.count(names[j])) expect = j;
        }
        size_t acc = net.accepted().size(), conns = net.servers.size();
        int rc = cl->send(simple_msg());
        c.d(pbt::strf("offers:"));
        for (auto &x : mechs) c.d(x + ",");
        c.d(pbt::strf("%s verdict %d -> %d; ", opp_tls ? "" : " no STARTTLS,", verdict, rc));
        if (net.servers.empty()) c.fail("no-connection", pbt::strf("sendMail returned %d without connecting", rc));
        auto &v = *net.servers.back();
        bool delivered = net.accepted().size() == acc + 1;
        std::string dia = "\n" + net.describe();
        auto mail_cmd = [&]() { for (auto &x : v.cmds) if (x.step == srv::MAIL) return true; return false; };
        if (reuse) {
            if (net.servers.size() != conns || rc != 0 || !delivered) c.fail("batch", pbt::strf("a mail in batch mode on the open connection: result %d", rc) + dia);
            if (v.auths.size() > (authed ? 1u : 0u)) c.fail("auth-again", "authenticated again on the open connection" + dia);
            continue;
        }
        authed = false;
        if (net.servers.size() != conns + 1) c.fail("connections", "the mail took " + std::to_string(net.servers.size() - conns) + " connections" + dia);
        bool any_auth = !v.auths.empty();
        for (auto &x : v.cmds) if (x.step == srv::AUTH || ehlo::upper(x.line).compare(0, 4, "AUTH") == 0) any_auth = true;
        bool needed = have && opp_tls;
        if (!needed) {
            if (any_auth) c.fail("auth-unwanted", have ? "AUTH without TLS" + dia : "AUTH although no credentials are set" + dia);
            if (rc != 0 || !delivered) c.fail("not-delivered", pbt::strf("sendMail returned %d although no authentication was needed", rc) + dia);
            open = batch;
            c.label(have ? "no STARTTLS: no authentication" : "no credentials");
            continue;
        }
        c.nontrivial = true;
        if (!expect) {
            if (any_auth) c.fail("not-offered", "AUTH with a mechanism the server does not offer (or the user did not choose)" + dia);
            if (mail_cmd() || delivered) c.fail("unauthenticated", "mail command without authentication" + dia);
            if (rc != -84) c.fail("code", pbt::strf("sendMail returned %d, not the not-supported code -84, when no mechanism fits", rc) + dia);
            c.label("no mechanism fits");
            open = false;
            continue;
        }
        c.label(std::string(names[expect]) + (k.method ? " recommended" : " implicit"));
        std::string mech;
        for (auto &x : v.cmds) if (x.step == srv::AUTH) { mech = ehlo::upper(x.line.substr(5, x.line.find(' ', 5) - 5)); break; }
        if (mech != names[expect]) c.fail("mechanism", "authenticated with \"" + mech + "\", expected " + names[expect] + dia);
        bool refused = verdict != 235;
        if (v.auths.size() != 1) c.fail("exchange", std::to_string(v.auths.size()) + " authentication exchanges, expected 1" + dia);
        auto &a = v.auths[0];
        bool complete = a.mech != "LOGIN" || verdict == 235 || refuse_at == 3 || (refuse_code == 334);
        if (!a.wellformed) c.fail("format", "the server can not decode the authentication data" + dia);
        if (a.mech != "LOGIN" || complete || refuse_at == 2) { if (a.user != k.user) c.fail("user", "the server decodes another user name: \"" + pbt::esc(a.user, 200) + "\" for \"" + pbt::esc(k.user, 200) + "\""); }
        if (complete && a.pass != k.pass) c.fail("password", "the server decodes another password: \"" + pbt::esc(a.pass, 200) + "\" for \"" + pbt::esc(k.pass, 200) + "\"");
        if (refused) {
            c.label("refused");
            if (rc == 0) c.fail("result", "sendMail returned 0 after a refused authentication" + dia);
            if (mail_cmd() || delivered) c.fail("unauthenticated", "mail command after a refused authentication" + dia);
            open = false;
        } else {
            if (rc != 0 || !delivered) c.fail("not-delivered", pbt::strf("sendMail returned %d although the server accepted the authentication", rc) + dia);
            bool seen_auth = false;
            for (auto &x : v.cmds) { if (x.step == srv::AUTH) seen_auth = true; if (x.step == srv::MAIL && !seen_auth) c.fail("unauthenticated", "mail command before authentication" + dia); }
            open = batch;
            authed = true;
        }
    }
    cl.reset();
    cm::tidy(c);
}
namespace pbt {
Property property{"C11", "credentials were set and a session that allows authentication was opened", run, 22000, 200000};
}
