// C05: sendMail reports success only for accepted mail, and the right failure otherwise.
#include "script.h"
using namespace model;

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    bool opp_tls = who.kind != kOpp || !s.chance(1, 4);
    bool cred = s.chance(1, 2);
    Cred k;
    k.set = cred; k.user = "user@example.com"; k.pass = "pass word"; k.method = static_cast<int>(s.weighted({2, 2, 4, 2}));
    std::vector<std::string> mech{"PLAIN", "LOGIN", "XOAUTH2"}, offered;
    if (s.chance(1, 5)) { for (auto &m : mech) if (s.chance(1, 2)) offered.push_back(m); } else offered = mech;
    // the mechanism the client is going to use
    int method = 0;
    auto has = [&](const char *m) { return std::find(offered.begin(), offered.end(), m) != offered.end(); };
    for (int i = 1; i <= 3; i++) if (!method && has(mech[static_cast<size_t>(i - 1)].c_str()) && (k.method == 0 || k.method == i)) method = i;
    bool auth_missing = cred && method == 0 && (who.kind != kOpp || opp_tls);
    MsgOpts o;
    o.max_rcpt = 3; o.big_lists = s.chance(1, 4); o.max_body = 700; o.max_atts = s.chance(1, 6) ? 1 : 0; o.max_file = 200;
    Msg m = gen_msg(s, c, o);
    script::Script sc;
    sc.src = &s;
    size_t n = s.weighted({1, 6, 2});
    auto steps = script::steps_of(who.kind, cred && method, method, opp_tls);
    for (size_t i = 0; i < n; i++) sc.dev.push_back(script::gen(s, steps, all_rcpts(m).size()));
    int form = static_cast<int>(s.weighted({6, 1, 1}));
    bool batch = s.chance(1, 4);
    c.d(pbt::strf("%s%sspelling %d; %s", batch ? "batch; " : "", opp_tls ? "" : "no STARTTLS; ", form, script::show(sc.dev).c_str()));
    if (cred) c.d(pbt::strf("credentials method %d, %zu mechanisms offered; ", k.method, offered.size()));
    c.d(pbt::strf("%zu/%zu/%zu recipients", m.to.size(), m.cc.size(), m.bcc.size()));
    Net net;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f = conf_for(who.kind, false);
        std::string a = "AUTH";
        for (auto &x : offered) a += " " + x;
        if (who.kind == kPlain && !offered.empty()) f.ehlo.push_back(a);
        if (!offered.empty()) f.ehlo_tls.push_back(a);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        f.mail_form = form;
        f.on_step = [&](srv::Step st, int nth, srv::Reply &r) { return sc.apply(st, nth, r); };
        return f;
    };
    sc.last_line = [&]() { return net.servers.back()->cmds.empty() ? std::string() : net.servers.back()->cmds.back().line; };
    net.install();
    auto cl = cm::make(who);
    cl->set_timeout(static_cast<unsigned>(s.range(1, 5)));
    cl->set_batch(batch);
    if (cred) cl->set_cred(k);
    int rc = cl->send(m);
    size_t accepted = net.accepted().size();
    auto want = script::allowed(sc.said, {m.to.size(), m.cc.size(), m.bcc.size()}, auth_missing);
    for (auto &x : sc.said) if (x.deviates) { c.label(std::string(script::what_names[x.what]) + " at " + srv::step_names[x.step]); if (x.what != script::kGoodVariant) c.nontrivial = true; }
    c.label(rc == 0 ? "result 0" : rc > 0 ? "result is a server code" : "result is a client code");
    if (!want.count(rc)) c.fail("result", pbt::strf("sendMail returned %d, expected one of %s after:%s\n", rc, cm::show(want).c_str(), script::show(sc.said).c_str()) + net.describe());
    if (rc == 0 && accepted != 1) c.fail("result", pbt::strf("sendMail returned 0 but the server accepted %zu mails", accepted));
    if (rc == 0 && !check_envelope(m, net.accepted()[0]).empty()) c.fail("result", "sendMail returned 0 but " + check_envelope(m, net.accepted()[0]));
    if (sim::w().hang) c.fail("hang", sim::w().hang_where);
    cl.reset();
}
namespace pbt {
Property property{"C05", "the server deviates from the normal dialogue at a step that was reached (refusal, silence, close, reset, malformed or broken reply)", run, 45000, 500000};
}
