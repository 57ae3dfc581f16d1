// C01: the message text arrives at the server exactly as it was given.
#include "common.h"
using namespace model;

static bool tricky(const std::string &b) {
    if (b.size() >= 512) return true;
    if (!b.empty() && b[0] == '.') return true;
    for (size_t i = 0; i < b.size(); i++) {
        if ((b[i] == '\n' || b[i] == '\r') && i + 1 < b.size() && (b[i + 1] == '.' || b[i + 1] == '-')) return true;
        if (b[i] == '\r' && (i + 1 == b.size() || b[i + 1] != '\n')) return true;
        if (b[i] == '\n' && (i == 0 || b[i - 1] != '\r')) return true;
    }
    return false;
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    MsgOpts o;
    o.max_rcpt = 1; o.max_atts = s.chance(1, 4) ? 2 : 0; o.wild_body = true; o.max_file = 200;
    o.max_body = s.chance(1, 10) ? (c.tier ? 300000 : 70000) : s.chance(1, 3) ? 9000 : 1500;
    Msg m = gen_msg(s, c, o);
    if (s.chance(1, 8) && o.max_body > 60000) {       // long text, from a small pattern
        std::string pat = gen_body(s, 300, true);
        if (pat.empty()) pat = "\n.";
        std::string b;
        size_t want = static_cast<size_t>(s.range(20000, static_cast<int64_t>(o.max_body)));
        while (b.size() < want) b += pat;
        m.body = b;
    }
    if (s.chance(1, 250)) {                           // very long text, around powers of two
        static const std::vector<int64_t> marks{65536, 100000, 131072, 262144, 524288, 1000000, 1048576, 2097152};
        std::string pat = gen_body(s, 200, true) + "\r\n." + gen_word(s, 20);
        size_t want = static_cast<size_t>(s.pick(marks) + s.range(-40, 40));
        m.body.clear();
        while (m.body.size() < want) { m.body += pat; if (m.body.size() % 7 == 0) m.body += std::to_string(m.body.size()); }
        m.body.resize(want);
        c.label("huge text");
    }
    // an attachment whose name reappears in the text must not confuse anybody either
    bool lenient = s.chance(1, 3), auth = s.chance(1, 4);
    c.d(std::string(lenient ? "lenient server; " : "") + show(m));
    c.nontrivial = tricky(m.body);
    if (m.body.size() >= 512) c.label("over 512 bytes");
    if (!m.atts.empty()) c.label("attachments");
    if (m.html) c.label("html");
    Net net;
    net.conf = [&](size_t, sim::Conn &) { srv::Conf f = conf_for(who.kind); f.lenient_lf = lenient; return f; };
    net.install();
    auto cl = cm::make(who);
    if (auth) { Cred k; k.set = true; k.user = "user"; k.pass = "secret"; cl->set_cred(k); }
    if (s.chance(1, 5)) cl->set_batch(true);
    int rc = cl->send(m);
    size_t extra = 0;
    if (rc == 0 && s.chance(1, 5)) {
        o.max_body = s.chance(1, 2) ? 80 : 1200;
        extra = cm::sequel(s, c, net, *cl, who, o, [](const Msg &x, const srv::Mail &y) { return check_text(x, parse_mail(y.data)); });
    }
    cl.reset();
    std::vector<srv::Mail> hold;
    const srv::Mail &d = cm::only_mail(c, net, rc, hold, extra);
    auto err = net.errors();
    if (!err.empty()) c.fail("protocol", err[0] + "\n" + net.describe());
    Parsed p = parse_mail(d.data);
    std::string e = check_text(m, p);
    if (!e.empty()) c.fail("text", e);
    if (p.parts.size() != 1 + m.atts.size()) c.fail("parts", std::to_string(p.parts.size()) + " parts received, expected " + std::to_string(1 + m.atts.size()));
}
namespace pbt {
Property property{"C01", "the text has a lone CR or LF, a line beginning with a dot or hyphen, or at least 512 bytes", run, 28000, 300000};
}
