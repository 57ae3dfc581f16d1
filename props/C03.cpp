// C03: the mail headers name the sender, visible recipients, subject and content kind.
#include "common.h"
using namespace model;

static bool special(const std::string &n) { return n.find_first_of("()<>[]:;@\\,.\"") != std::string::npos; }
static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    MsgOpts o;
    o.big_lists = true; o.max_rcpt = s.chance(1, 8) ? 30 : 4; o.max_atts = s.chance(1, 8) ? 1 : 0; o.max_body = 600; o.wild_names = true; o.wild_body = s.chance(1, 2);
    o.allow_no_to = who.api == kC; o.max_file = 100;
    Msg m = gen_msg(s, c, o);
    if (s.chance(1, 12)) {   // long names
        std::string l(static_cast<size_t>(s.range(60, 900)), 'n');
        (s.chance(1, 2) || m.to.empty() ? m.from : m.to[0]).name = s.chance(1, 2) ? l : l + ", \"x\"";
    }
    c.d(show(m));
    c.nontrivial = special(m.from.name);
    for (auto *l : {&m.to, &m.cc}) for (auto &a : *l) if (special(a.name)) c.nontrivial = true;
    if (!m.cc.empty()) c.label("cc");
    if (m.html) c.label("html");
    Net net;
    net.conf = [&](size_t, sim::Conn &) { srv::Conf f = conf_for(who.kind); f.mail_form = static_cast<int>(s.weighted({6, 1, 1})); return f; };
    net.install();
    auto cl = cm::make(who);
    int rc = cl->send(m);
    size_t extra = 0;
    if (rc == 0 && s.chance(1, 5)) extra = cm::sequel(s, c, net, *cl, who, o, [](const Msg &x, const srv::Mail &y) { return check_headers(x, parse_mail(y.data)); });
    cl.reset();
    std::vector<srv::Mail> hold;
    const srv::Mail &d = cm::only_mail(c, net, rc, hold, extra);
    Parsed p = parse_mail(d.data);
    std::string e = check_headers(m, p);
    if (!e.empty()) c.fail("headers", e);
    if (p.parts.size() != 1 + m.atts.size()) c.fail("parts", std::to_string(p.parts.size()) + " parts received, expected " + std::to_string(1 + m.atts.size()));
}
namespace pbt {
Property property{"C03", "a sender, To or Cc display name contains a character special in mail headers", run, 26000, 250000};
}
