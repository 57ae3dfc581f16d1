// C09: nothing sensitive is sent unencrypted when TLS is offered or required.
#include "common.h"
#include "ehlo.h"
using namespace model;

// Is rest a sequence of TLS records (the last one possibly cut off)?
static bool tls_records(const std::string &b, size_t i, size_t &bad) {
    while (i < b.size()) {
        bad = i;
        unsigned char t = static_cast<unsigned char>(b[i]);
        if (t < 20 || t > 24) return false;
        if (i + 1 < b.size() && b[i + 1] != 3) return false;
        if (i + 5 > b.size()) return true;
        size_t n = static_cast<size_t>(static_cast<unsigned char>(b[i + 3])) * 256 + static_cast<unsigned char>(b[i + 4]);
        if (n > 16384 + 2048) return false;
        i += 5 + n;
    }
    return true;
}
static std::string around(const std::string &b, size_t i) { return pbt::esc(b.substr(i, 120), 120); }

struct Plan { bool offered = false, ehlo_ok = true, starttls_ok = true, tls_ok = true; };

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {0, 3, 1});
    size_t sessions = static_cast<size_t>(s.weighted({3, 4, 3, 2})) + 1;
    Net net;
    std::vector<Plan> plan;
    std::vector<std::unique_ptr<ehlo::Reply>> replies;
    net.conf = [&](size_t n, sim::Conn &) {
        srv::Conf f;
        Plan p;
        f.implicit_tls = who.kind == kForced && !s.chance(1, 6);
        replies.emplace_back(new ehlo::Reply(ehlo::gen(s, s.weighted({3, 2}) == 0 ? 1 : 0, -1)));
        f.raw_ehlo = replies.back()->text();
        p.offered = who.kind == kOpp && ehlo::starttls(*replies.back());
        f.raw_ehlo_tls = ehlo::gen(s, -1, s.chance(3, 4) ? 1 : -1).text();
        if (s.chance(1, 2)) f.cut = [&s](const std::string &b) { return cm::cut(s, b, 8, 500000); };
        if (s.chance(1, 4)) f.cut_cipher = [&s](const std::string &b) { return cm::cut(s, b, 6, 500000); };
        switch (s.weighted({6, 1, 1, 1, 1, 1})) {
        case 0: break;
        case 1: f.tls_mode = srv::Conf::kTlsGarbage; break;
        case 2: f.tls_mode = srv::Conf::kTlsSilent; break;
        case 3: f.tls_mode = srv::Conf::kTlsClose; break;
        case 4: f.tls_mode = srv::Conf::kTlsReset; break;
        default: f.tls_mode = srv::Conf::kTlsCloseMid; break;
        }
        p.tls_ok = f.tls_mode == srv::Conf::kTlsOk;
        switch (s.weighted({6, 1, 1, 1})) {
        case 0: f.cert = s.chance(1, 3) ? srv::kChain : srv::kTrusted; break;
        case 1: f.cert = srv::kSelfSigned; break;
        case 2: f.cert = srv::kExpired; break;
        default: f.cert = srv::kUntrustedCA; break;
        }
        if (f.cert != srv::kTrusted && f.cert != srv::kChain) p.tls_ok = false;
        if (s.chance(1, 8)) { f.inject_after_starttls = s.chance(1, 2) ? "250 ok\r\n" : "250-mail\r\n250 AUTH PLAIN LOGIN\r\n235 ok\r\n"; p.tls_ok = false; }
        int ehlo_kind = static_cast<int>(s.weighted({10, 1, 1})), st_kind = static_cast<int>(s.weighted({6, 2, 1, 1, 1}));
        if (ehlo_kind) p.ehlo_ok = false;
        if (st_kind) p.starttls_ok = false;
        static const std::vector<std::string> refusals{"454 TLS not available due to temporary reason\r\n", "501 Syntax error\r\n", "502 not implemented\r\n", "503 no\r\n", "250 ok\r\n", "554 no\r\n", "221 bye\r\n", "120 later\r\n"};
        std::string st = s.pick(refusals);
        f.on_step = [ehlo_kind, st_kind, st](srv::Step x, int, srv::Reply &r) {
            if (x == srv::EHLO && ehlo_kind == 1) r.text = "502 5.5.1 not implemented\r\n";
            if (x == srv::EHLO && ehlo_kind == 2) { r.text.resize(r.text.size() / 2); r.complete = false; r.fin = true; }
            if (x == srv::STARTTLS) switch (st_kind) {
                case 1: r.text = st; break;
                case 2: r.silent = true; break;
                case 3: r.text = "220"; r.complete = false; r.fin = true; break;
                case 4: r.silent = true; r.rst = true; break;
                default: break;
            }
            return true;
        };
        c.d(pbt::strf("[conn %zu: %s%s%s%s%s] ", n, who.kind == kForced ? (f.implicit_tls ? "TLS" : "plaintext server") : p.offered ? "STARTTLS offered" : "no STARTTLS", p.ehlo_ok ? "" : " EHLO fails", p.starttls_ok ? "" : " STARTTLS fails", p.tls_ok ? "" : " TLS fails",
                         f.inject_after_starttls.empty() ? "" : " injection"));
        if (who.kind == kForced ? !f.implicit_tls || !p.tls_ok : p.offered && !(p.starttls_ok && p.tls_ok)) c.nontrivial = true;
        if (n && who.kind == kOpp && p.offered && !plan[n - 1].offered) c.nontrivial = true;
        plan.push_back(p);
        return f;
    };
    net.install();
    auto cl = cm::make(who);
    cl->set_timeout(2);
    Cred k = cm::gen_cred(s);
    k.pass = "Secret-" + k.pass + "-Word";
    bool any_cred = false;
    for (size_t i = 0; i < sessions; i++) {
        for (int64_t ops = s.weighted({3, 3, 2, 1}); ops > 0; ops--) {
            switch (s.weighted({3, 3, 2, 2, 2, 1, 1, 1})) {
            case 0: if (!any_cred) { cl->set_cred(k); any_cred = true; c.d("setCredentials; "); } break;
            case 1: { bool b = s.chance(1, 2); cl->set_keep_base(!b); c.d(b ? "keepBase(false); " : "keepBase(true); "); break; }
            case 2: { auto o = cl->copy(); cl = std::move(o); c.d("copy; "); break; }
            case 3: { auto o = cl->move(); cl = std::move(o); c.d("move; "); break; }
            case 4: { auto o = cm::make(who, "other.example.com"); if (s.chance(1, 2)) o->set_keep_base(true); bool mv = s.chance(1, 2); if (mv) o->assign_move(*cl); else o->assign(*cl); cl = std::move(o); c.d(mv ? "move-assign; " : "assign; "); break; }
            case 5: { bool b = s.chance(1, 2); cl->set_batch(b); c.d(b ? "batch(true); " : "batch(false); "); break; }
            case 6: { bool b = s.chance(1, 2); cl->set_accept_self_signed(b); c.d(b ? "acceptSelfSigned; " : "refuseSelfSigned; "); break; }
            default: { auto o = cm::make(who, "other.example.com"); o->set_keep_base(s.chance(1, 2)); cl->assign(*o); any_cred = false; cl->set_timeout(2); c.d("assign fresh; "); }
            }
        }
        Msg m = simple_msg();
        m.body = "The sensitive body text of this mail";
        m.from.email = "sender@secret.example";
        size_t acc = net.accepted().size();
        int rc = cl->send(m);
        c.d(pbt::strf("send -> %d; ", rc));
        size_t now = net.accepted().size();
        if ((rc == 0) != (now > acc) && !(now > acc)) c.fail("result", "sendMail returned 0 but no mail was accepted\n" + net.describe());
        c.label(rc == 0 ? "mail sent" : "mail not sent");
    }
    cl.reset();
    std::vector<std::string> secret{k.pass};
    for (size_t sh = 0; sh < 3; sh++) {       // the password inside any base64 text
        std::string e = srv::b64enc(std::string(sh, 'x') + k.pass);
        size_t from = sh == 0 ? 0 : sh == 1 ? 2 : 3;
        secret.push_back(e.substr(from, e.size() - 4 - from));
    }
    for (size_t i = 0; i < net.servers.size(); i++) {
        auto &v = *net.servers[i];
        std::string w;
        for (auto &e : sim::w().trace) if (e.kind == 'W' && e.conn == v.conn_id) w += e.bytes;
        std::string at = pbt::strf("connection %zu: ", i);
        size_t bad = 0;
        if (who.kind == kForced) {
            if (!tls_records(w, 0, bad)) c.fail("plaintext", at + "the forced TLS client sent something that is no TLS record: \"" + around(w, bad) + "\"\n" + net.describe());
            continue;
        }
        size_t p = 0;
        bool offered = plan[i].offered && plan[i].ehlo_ok, hello = false, up = false;
        std::string plain;
        while (p < w.size()) {
            if (static_cast<unsigned char>(w[p]) == 22 && hello) { up = true; break; }
            size_t e = w.find("\r\n", p);
            std::string l = w.substr(p, e == std::string::npos ? e : e - p);
            std::string u = ehlo::upper(l);
            plain += l + "\r\n";
            if (u.compare(0, 5, "AUTH ") == 0) c.fail("auth-in-clear", at + "AUTH outside TLS: \"" + pbt::esc(l, 100) + "\"\n" + net.describe());
            if (u.compare(0, 5, "EHLO ") == 0) hello = true;
            else if (offered && u != "STARTTLS" && u != "QUIT") c.fail("plaintext", at + "STARTTLS was offered but this went outside TLS: \"" + pbt::esc(l, 100) + "\"\n" + net.describe());
            if (e == std::string::npos) break;
            p = e + 2;
        }
        if (up && !tls_records(w, p, bad)) c.fail("plaintext", at + "after the start of TLS the client sent something that is no TLS record: \"" + around(w, bad) + "\"\n" + net.describe());
        for (auto &x : secret) if (plain.find(x) != std::string::npos) c.fail("secret-in-clear", at + "the password went outside TLS\n" + net.describe());
        for (auto &mail : v.mails)
            if (offered && !mail.tls) c.fail("plaintext", at + "a mail went outside TLS although STARTTLS was offered\n" + net.describe());
        if (offered) c.label("STARTTLS offered");
        else if (plan[i].ehlo_ok) c.label("STARTTLS not offered");
        if (v.tls_done) c.label("TLS established");
    }
    cm::tidy(c);
}
namespace pbt {
Property property{"C09", "TLS was offered or required and something stood in its way, or a session without STARTTLS came before one with it", run, 27000, 200000};
}
