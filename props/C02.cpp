// C02: the envelope is the sender and every To, Cc and Bcc recipient, exactly.
#include "common.h"
using namespace model;

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    MsgOpts o;
    o.big_lists = true; o.max_rcpt = s.chance(1, 15) ? 60 : s.chance(1, 4) ? 12 : 4;
    o.max_atts = s.chance(1, 6) ? 1 : 0; o.max_body = 400; o.wild_names = s.chance(1, 2); o.allow_no_to = who.api == kC; o.max_file = 100;
    Msg m = gen_msg(s, c, o);
    // recognisable blind recipients; some of them are also named openly
    std::vector<std::string> secret;
    for (size_t i = 0; i < m.bcc.size(); i++) {
        if (s.chance(1, 6) && !m.to.empty()) { m.bcc[i] = m.to[s.index(m.to.size())]; continue; }
        m.bcc[i].email = "zzblind" + std::to_string(i) + "qx@hidden.example.net";
        m.bcc[i].name = s.chance(1, 2) ? "Zzhidden" + std::to_string(i) + "qy" : "";
        secret.push_back("zzblind" + std::to_string(i) + "qx");
        if (!m.bcc[i].name.empty()) secret.push_back("Zzhidden" + std::to_string(i) + "qy");
        if (i && s.chance(1, 8)) m.bcc[i] = m.bcc[i - 1];
    }
    if (s.chance(1, 10)) m.from = m.to.empty() ? m.from : m.to[0];
    int form = static_cast<int>(s.weighted({6, 3, 3, 1}));
    bool batch = s.chance(1, 5);
    c.d(pbt::strf("server accepts sender spelling %d; ", form) + show(m));
    c.nontrivial = all_rcpts(m).size() >= 2 || form > 0;
    c.label("spelling " + std::to_string(form));
    if (!m.bcc.empty()) c.label("bcc");
    if (m.to.empty()) c.label("no To");
    if (m.single_ctor) c.label("single-recipient constructor");
    Net net;
    net.conf = [&](size_t, sim::Conn &) { srv::Conf f = conf_for(who.kind); f.mail_form = form; return f; };
    net.install();
    auto cl = cm::make(who);
    cl->set_batch(batch);
    size_t mails = batch || s.chance(1, 8) ? static_cast<size_t>(s.range(1, 3)) : 1;
    std::vector<Msg> sent{m};
    for (size_t i = 1; i < mails; i++) {
        if (s.chance(1, 2)) { MsgOpts q = o; q.max_rcpt = 4; q.max_atts = 0; Msg n = gen_msg(s, c, q); n.from = m.from; sent.push_back(n); c.d("; then " + show(n)); continue; }
        Msg n = m; std::reverse(n.to.begin(), n.to.end()); if (!n.to.empty() || !n.bcc.empty()) n.cc.clear(); sent.push_back(n); }
    for (auto &x : sent) {
        int rc = cl->send(x);
        if (form < 3 && rc != 0) c.fail("not-sent", "sendMail returned " + std::to_string(rc) + "\n" + net.describe());
        if (form == 3 && rc != 501) c.fail("refused-sender", "every sender spelling was refused with 501 but sendMail returned " + std::to_string(rc));
        if (form == 3) break;
    }
    cl.reset();
    for (auto &v : net.servers) for (auto &k : v->cmds) if (k.step == srv::MAIL) {
        std::string a = k.line.substr(10);
        size_t e = a.find_last_not_of("> "), b = a.find_last_of("< ", e);
        std::string addr = a.substr(b == std::string::npos ? 0 : b + 1, e - (b == std::string::npos ? 0 : b + 1) + 1);
        if (addr != m.from.email) c.fail("other-sender", "MAIL command names <" + pbt::esc(addr) + "> instead of <" + pbt::esc(m.from.email) + ">: " + pbt::esc(k.line));
    } else if (k.step == srv::RCPT && form == 3) c.fail("recipient-after-refusal", "RCPT sent although the sender was refused: " + pbt::esc(k.line));
    auto got = net.accepted();
    if (form == 3) { if (!got.empty()) c.fail("mail-count", "mail accepted without a sender"); return; }
    if (got.size() != sent.size()) c.fail("mail-count", std::to_string(got.size()) + " mails accepted, expected " + std::to_string(sent.size()) + "\n" + net.describe());
    auto err = net.errors();
    if (!err.empty()) c.fail("protocol", err[0] + "\n" + net.describe());
    for (size_t i = 0; i < sent.size(); i++) {
        std::string e = check_envelope(sent[i], got[i]);
        if (!e.empty()) c.fail("envelope", e + "\n" + net.describe());
        std::string low = lower(got[i].data);
        for (auto &t : secret) if (low.find(lower(t)) != std::string::npos) c.fail("bcc-visible", "the mail content names the Bcc recipient " + t);
        if (find_header(parse_mail(got[i].data).headers, "Bcc")) c.fail("bcc-visible", "the mail content has a Bcc header");
    }
}
namespace pbt {
Property property{"C02", "at least two recipients, or a server that refuses the first sender spelling", run, 24000, 250000};
}
