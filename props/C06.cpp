// C06: the SMTP dialogue follows the protocol and waits for each reply.
#include "script.h"
using namespace model;
using namespace srv;

// Judges the commands one connection saw. msgs: the mails sent over it, in order.
static std::string judge(const SmtpServer &v, const std::vector<script::Said> &said, Kind kind, bool cred, bool batch, bool starttls_offered, const std::vector<Msg> &msgs) {
    enum { kStart, kHello, kNeedEhloTls, kReady, kAuth2, kAuth3, kMailed, kData, kDead, kEnd } st = kStart;
    auto bad = [&](const Cmd &x, const char *why) { return std::string(why) + ": \"" + pbt::esc(x.line, 120) + "\""; };
    if (said.empty() || said[0].step != GREETING || said[0].code != 220) st = kDead;
    bool authed = false;
    size_t mail = 0, idx = 0, tries = 0;
    long refused_list = -1;
    auto list_of = [&](const Msg &m, size_t i) -> long { return i < m.to.size() ? 0 : i < m.to.size() + m.cc.size() ? 1 : 2; };
    for (auto &x : v.cmds) {
        if (x.early) return bad(x, "command sent before the previous reply was read completely");
        if (!x.crlf) return bad(x, "command not ended by CRLF");
        if (x.step != EOD && x.line.find_first_of(std::string("\r\n\0", 3)) != std::string::npos) return bad(x, "line break inside a command");
        if (st == kEnd) return bad(x, "command after QUIT");
        if (x.step == QUIT) {
            if (st == kNeedEhloTls || st == kAuth2 || st == kAuth3 || st == kData) return bad(x, "QUIT in the middle of an exchange");
            st = kEnd;
            continue;
        }
        if (refused_list >= 0) {
            if (x.step != RCPT) return bad(x, "command after a refused recipient");
        } else if (st == kDead) return bad(x, "command after a refusal or without a reply");
        bool ok = x.code == 250;
        switch (x.step) {
        case EHLO:
            if (st != kStart || kind == kForced) return bad(x, "EHLO out of place");
            st = ok ? kHello : kDead;
            break;
        case EHLO_TLS:
            if (!(st == kNeedEhloTls || (kind == kForced && st == kStart))) return bad(x, "EHLO out of place");
            st = ok ? kReady : kDead;
            break;
        case STARTTLS:
            if (kind != kOpp || st != kHello || !starttls_offered) return bad(x, "STARTTLS out of place");
            st = x.code == 220 ? kNeedEhloTls : kDead;
            break;
        case AUTH:
            if (st == kHello && kind == kOpp) return bad(x, "AUTH without TLS");
            if ((st != kReady && st != kHello) || !cred || authed) return bad(x, "AUTH out of place");
            if (x.line == "AUTH LOGIN") st = x.code == 334 ? kAuth2 : kDead;
            else { authed = x.code == 235; st = authed ? kReady : kDead; }
            break;
        case AUTH2: if (st != kAuth2) return bad(x, "unexpected line"); st = x.code == 334 ? kAuth3 : kDead; break;
        case AUTH3: if (st != kAuth3) return bad(x, "unexpected line"); authed = x.code == 235; st = authed ? kReady : kDead; break;
        case MAIL:
            if (st == kHello && kind == kOpp && starttls_offered) return bad(x, "MAIL without STARTTLS");
            if (st != kReady && st != kHello) return bad(x, "MAIL out of place");
            if (cred && !authed && !(kind == kOpp && !starttls_offered)) return bad(x, "MAIL without authentication");
            if (mail >= msgs.size()) return bad(x, "MAIL for no message");
            if (mail && !batch) return bad(x, "second mail on a connection outside batch mode");
            tries++;
            idx = 0;
            if (ok) { st = kMailed; tries = 0; }
            else if (x.code != 501 || tries >= 3) st = kDead;
            break;
        case RCPT: {
            if (st != kMailed) return bad(x, "RCPT out of place");
            auto all = all_rcpts(msgs[mail]);
            if (idx >= all.size()) return bad(x, "RCPT beyond the recipients of the message");
            if (refused_list >= 0 && list_of(msgs[mail], idx) != refused_list) return bad(x, "RCPT of another list after a refused recipient");
            std::string want = "<" + all[idx] + ">";
            if (x.line.find(want) == std::string::npos) return bad(x, ("RCPT does not name " + want).c_str());
            if (x.code == 251 || x.code == 252) ok = true;
            if (!ok) {
                if (x.code < 0) { st = kDead; refused_list = -1; break; }
                refused_list = list_of(msgs[mail], idx);
            }
            idx++;
            break;
        }
        case DATA:
            if (st != kMailed || idx != all_rcpts(msgs[mail]).size()) return bad(x, "DATA before all recipients were named");
            st = x.code == 354 ? kData : kDead;
            break;
        case EOD:
            if (st != kData) return bad(x, "mail content out of place");
            st = ok ? kReady : kDead;
            if (ok) mail++;
            break;
        default: return bad(x, "command that is not part of the dialogue");
        }
    }
    if (!v.errors.empty()) return v.errors[0];
    if (!v.leftover().empty() && st != kData) return "incomplete line left behind: \"" + pbt::esc(v.leftover(), 100) + "\"";
    if (!batch && mail == 1 && st != kEnd) return "a delivered mail was not followed by QUIT";
    return "";
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    bool opp_tls = who.kind != kOpp || !s.chance(1, 4);
    bool cred = s.chance(1, 2), batch = s.chance(1, 3);
    Cred k;
    k.set = cred; k.user = "user@example.com"; k.pass = "pass word"; k.method = static_cast<int>(s.weighted({2, 2, 4, 2}));
    int method = k.method ? k.method : 1;
    size_t mails = s.weighted({4, 3, 2, 1}) + 1;
    std::vector<Msg> msgs;
    for (size_t i = 0; i < mails; i++) {
        MsgOpts o;
        o.max_rcpt = 3; o.big_lists = s.chance(1, 2); o.max_body = s.chance(1, 4) ? 3000 : 300; o.wild_body = s.chance(1, 3); o.max_atts = s.chance(1, 8) ? 1 : 0; o.max_file = 900; o.wild_names = s.chance(1, 4);
        msgs.push_back(gen_msg(s, c, o));
    }
    auto steps = script::steps_of(who.kind, cred, method, opp_tls);
    std::vector<std::unique_ptr<script::Script>> scripts;
    std::vector<std::vector<script::Deviation>> plan(mails);
    int form = static_cast<int>(s.weighted({6, 2, 2}));
    unsigned timeout = static_cast<unsigned>(s.range(2, 6));
    size_t cuts = s.chance(1, 2) ? static_cast<size_t>(s.range(2, 8)) : 0;
    c.d(pbt::strf("%s%s%zu mails; spelling %d; replies in up to %zu pieces; ", batch ? "batch; " : "", opp_tls ? "" : "no STARTTLS; ", mails, form, cuts));
    if (cred) c.d(pbt::strf("credentials method %d; ", k.method));
    for (size_t i = 0; i < mails; i++) {
        size_t n = s.weighted({2, 4, 1});
        for (size_t j = 0; j < n; j++) {
            auto d = script::gen(s, steps, all_rcpts(msgs[i]).size());
            if (batch && s.chance(1, 3)) d.nth += static_cast<int>(s.range(0, 3));
            plan[i].push_back(d);
        }
        c.d(pbt::strf("connection %zu: %s", i, script::show(plan[i]).c_str()));
    }
    Net net;
    net.conf = [&](size_t n, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        f.mail_form = form;
        scripts.emplace_back(new script::Script);
        auto *sc = scripts.back().get();
        sc->src = &s;
        if (n < plan.size()) sc->dev = plan[n];
        sc->last_line = [&net, n]() { return net.servers.size() <= n || net.servers[n]->cmds.empty() ? std::string() : net.servers[n]->cmds.back().line; };
        f.on_step = [sc](srv::Step st, int nth, srv::Reply &r) { return sc->apply(st, nth, r); };
        if (cuts) f.cut = [&](const std::string &b) { return cm::cut(s, b, cuts, (timeout - 1) * 900000LL); };
        return f;
    };
    net.install();
    auto cl = cm::make(who);
    cl->set_timeout(timeout);
    cl->set_batch(batch);
    if (cred) cl->set_cred(k);
    std::vector<std::vector<Msg>> on(1);
    for (size_t i = 0; i < mails; i++) {
        size_t before = net.servers.size(), acc = net.accepted().size();
        int rc = cl->send(msgs[i]);
        size_t conn = net.servers.empty() ? 0 : net.servers.size() - 1;
        if (on.size() <= conn) on.resize(conn + 1);
        for (size_t k = std::min(before, conn); k <= conn; k++) on[k].push_back(msgs[i]);
        if (!batch) {
            if (sim::open_fds()) c.fail("not-closed", pbt::strf("sendMail returned %d outside batch mode and left its connection open\n", rc) + net.describe());
            if (net.accepted().size() > acc && !net.servers[conn]->quit) { auto &sv = *net.servers[conn]; if (!sv.conn->server_closed) c.fail("no-quit", "a delivered mail was not followed by QUIT\n" + net.describe()); }
        }
        c.label(rc == 0 ? "mail sent" : "mail not sent");
    }
    cl.reset();
    for (size_t i = 0; i < net.servers.size(); i++) {
        if (on.size() <= i) on.resize(i + 1);
        auto &v = *net.servers[i];
        // after the server closed the connection QUIT may not arrive
        std::string e = judge(v, scripts[i]->said, who.kind, cred, batch, opp_tls, on[i]);
        if (e == "a delivered mail was not followed by QUIT" && v.conn->server_closed) e.clear();
        if (!e.empty()) c.fail("dialogue", pbt::strf("connection %zu: ", i) + e + "\nreplies:" + script::show(scripts[i]->said) + "\n" + net.describe());
        for (auto &x : scripts[i]->said) if (x.deviates && x.what != script::kGoodVariant) c.nontrivial = true;
    }
    if (mails > 1 && batch) c.nontrivial = true;
    if (cuts) c.nontrivial = true;
    cm::tidy(c);
}
namespace pbt {
Property property{"C06", "the server deviates at a reached step, cuts its replies, or several mails share a connection", run, 26000, 250000};
}
