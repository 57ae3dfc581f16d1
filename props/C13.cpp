// C13: no message field can add SMTP commands, headers, recipients or MIME parts.
#include "common.h"
using namespace model;

static std::string hostile(pbt::Src &s) {
    static const std::vector<std::string> brk{"\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\n.\r\n", "\n.\n", "\r\r", "\r\n ", "\n\t", "\r\n--sep\r\n", "\r\n--sep--\r\n", "\x0b", "\x0c", "\xc2\x85", "\xe2\x80\xa8"};
    static const std::vector<std::string> load{"Bcc: victim@example.net", "RCPT TO: <victim@example.net>", "X-Header: y", "MAIL FROM: <x@example.net>", "DATA", "QUIT", "RSET", "Content-Type: text/html", ".", "Subject: other", "To: victim@example.net",
        "<script>", ">", "<victim@example.net>", "\"", "\\", "\";", "\" <victim@example.net>", "--sep--", "Content-ID: <x>", "boundary=x", " ", "250 ok", "a", ",", "victim@example.net,"};
    std::string o = s.chance(1, 2) ? gen_word(s, 8) : "";
    size_t n = static_cast<size_t>(s.range(1, s.chance(1, 20) ? 60 : 4));
    for (size_t i = 0; i < n; i++) {
        o += s.pick(brk);
        switch (s.weighted({4, 2, 1})) {
        case 0: o += s.pick(load); break;
        case 1: o += gen_word(s, 6); break;
        default: o += std::string(static_cast<size_t>(s.range(1, 1500)), 'L');
        }
    }
    if (s.chance(1, 3)) o += s.pick(brk);
    if (s.chance(1, 8)) o = "\"" + o + "\"";
    return o + "w";
}
struct Seen { int rc; std::vector<std::string> cmds, envelope, shape, problems, errors; size_t mails; std::string text, dialogue; };
static std::string verb(const srv::Cmd &x) {
    if (x.line.find_first_of("\r\n") != std::string::npos) return "line break inside a command: " + x.line;
    if (x.step == srv::MAIL) return "MAIL";
    return std::string(srv::step_names[x.step]) + (x.step == srv::EOD || x.step == srv::AUTH || x.step == srv::AUTH2 || x.step == srv::AUTH3 ? "" : " " + x.line);
}
static Seen deliver(const cm::Who &who, const Msg &m, int form, bool lf, bool cred) {
    sim::reset();
    Net net;
    net.conf = [&](size_t, sim::Conn &) { srv::Conf f = conf_for(who.kind); f.mail_form = form; f.lenient_lf = lf; return f; };
    net.install();
    Seen r;
    {
        auto cl = cm::make(who);
        if (cred) { Cred k; k.set = true; k.user = "user"; k.pass = "pass"; cl->set_cred(k); }
        r.rc = cl->send(m);
    }
    r.mails = net.accepted().size();
    for (auto &v : net.servers) {
        for (auto &x : v->cmds) r.cmds.push_back(verb(x));
        r.errors.insert(r.errors.end(), v->errors.begin(), v->errors.end());
        if (!v->leftover().empty()) r.errors.push_back("left over: " + pbt::esc(v->leftover(), 80));
    }
    for (auto &d : net.accepted()) {
        r.envelope.push_back("from " + d.from);
        for (auto &x : d.rcpts) r.envelope.push_back("to " + x);
        Parsed p = parse_mail(canon_breaks(d.data));
        r.problems.insert(r.problems.end(), p.problems.begin(), p.problems.end());
        for (auto &h : p.headers) r.shape.push_back(lower(h.name));
        r.shape.push_back(p.media);
        if (!trim(p.preamble).empty()) r.shape.push_back("text before the first part");
        if (!trim(p.epilogue).empty()) r.shape.push_back("text behind the last part");
        r.shape.push_back(p.closed ? "closed" : "not closed");
        for (size_t i = 0; i < p.parts.size(); i++) {
            r.shape.push_back("part");
            for (auto &h : p.parts[i].headers) r.shape.push_back(lower(h.name));
            std::string b = p.parts[i].body;
            while (b.size() >= 2 && b.compare(b.size() - 2, 2, "\r\n") == 0) b.resize(b.size() - 2);
            r.shape.push_back("body " + pbt::strf("%016llx", static_cast<unsigned long long>(pbt::hash64(b))));
        }
    }
    r.dialogue = net.describe();
    if (!net.accepted().empty()) r.text = net.accepted()[0].data;
    return r;
}
static void same(pbt::Ctx &c, const char *what, const std::vector<std::string> &a, const std::vector<std::string> &b, const Seen &h) {
    if (a == b) return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    c.fail(what, std::string("the ") + what + " differ from those of the harmless mail at " + std::to_string(i) + ": \"" + (i < b.size() ? pbt::esc(b[i], 200) : "end") + "\" instead of \"" + (i < a.size() ? pbt::esc(a[i], 200) : "end") + "\"\n" + h.dialogue + pbt::esc(h.text, 3000));
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {6, 1, 1});
    MsgOpts o;
    o.max_rcpt = 3; o.max_atts = s.chance(2, 3) ? 3 : 0; o.max_body = 400; o.max_file = 500;
    Msg plain = gen_msg(s, c, o);
    int form = static_cast<int>(s.weighted({3, 3, 1}));
    bool lf = s.chance(1, 2), cred = s.chance(1, 4);
    // the harmless mail has a harmless word wherever the hostile one has something hostile
    Msg bad = plain;
    std::vector<std::pair<std::string *, std::string *>> field{{&plain.subject, &bad.subject}, {&plain.from.name, &bad.from.name}};
    for (size_t i = 0; i < plain.to.size(); i++) field.push_back({&plain.to[i].name, &bad.to[i].name});
    for (size_t i = 0; i < plain.cc.size(); i++) field.push_back({&plain.cc[i].name, &bad.cc[i].name});
    for (size_t i = 0; i < plain.bcc.size(); i++) field.push_back({&plain.bcc[i].name, &bad.bcc[i].name});
    for (size_t i = 0; i < plain.atts.size(); i++) { field.push_back({&plain.atts[i].name, &bad.atts[i].name}); field.push_back({&plain.atts[i].cid, &bad.atts[i].cid}); }
    size_t n = static_cast<size_t>(s.weighted({5, 2, 1})) + 1;
    for (size_t i = 0; i < n; i++) {
        auto &f = s.pick(field);
        *f.first = "harmless";
        *f.second = hostile(s);
    }
    c.d(pbt::strf("sender spelling %d; %s", form, lf ? "server takes bare LF as line end; " : "") + show(bad));
    Seen a = deliver(who, plain, form, lf, cred);
    if (a.rc != 0 || a.mails != 1) { c.label("harmless mail not delivered"); return; }
    Seen b = deliver(who, bad, form, lf, cred);
    c.nontrivial = true;
    c.label(b.rc == 0 ? "hostile mail sent" : "hostile mail refused");
    if (b.rc != 0) {
        if (b.mails) c.fail("result", pbt::strf("sendMail returned %d but a mail was accepted\n", b.rc) + b.dialogue);
        std::vector<std::string> pre;
        for (size_t i = 0; i < b.cmds.size() && i < a.cmds.size() && b.cmds[i] != "QUIT QUIT"; i++) pre.push_back(a.cmds[i]);
        std::vector<std::string> got = b.cmds;
        if (!got.empty() && got.back() == "QUIT QUIT") got.pop_back();
        same(c, "commands", pre, got, b);
        return;
    }
    same(c, "commands", a.cmds, b.cmds, b);
    same(c, "envelope", a.envelope, b.envelope, b);
    same(c, "headers and parts", a.shape, b.shape, b);
    same(c, "faults in the mail", a.problems, b.problems, b);
    same(c, "protocol errors", a.errors, b.errors, b);
    cm::tidy(c);
}
namespace pbt {
Property property{"C13", "the same mail with harmless and with hostile fields, both sent", run, 22000, 200000};
}
