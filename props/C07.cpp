// C07: how the network splits or delays server replies does not change the outcome.
#include <map>
#include "ehlo.h"
#include "common.h"
using namespace model;

struct Seen {
    std::vector<int> rc;
    std::vector<std::string> cmds;
    std::vector<std::string> mails;
    std::string log;
};
static std::string norm_log(std::string l) {
    size_t p;
    while ((p = l.find("\ns: ")) != std::string::npos) l.erase(p, 4);
    return l;
}
static std::string long_text(pbt::Src &s) {
    static const std::vector<int64_t> marks{64, 512, 1000, 1018, 1020, 1022, 1024, 1026, 2040, 2048, 4096, 5000, 16384, 40000};
    int64_t n = s.pick(marks) + s.range(-8, 8);
    return std::string(static_cast<size_t>(n), 'y');
}
static std::string rich_reply(pbt::Src &s, int code) {
    std::string k = std::to_string(code), o;
    size_t n = s.weighted({4, 3, 1}) == 0 ? 1 : static_cast<size_t>(s.range(1, s.chance(1, 6) ? 80 : 6));
    for (size_t i = 0; i < n; i++) {
        o += k + (i + 1 < n ? "-" : " ");
        if (s.chance(1, 5)) o += long_text(s);
        else o += cm::text_line(s, 50);
        o += "\r\n";
    }
    return o;
}
// null characters in the text, as a broken server may send them
static void add_nulls(pbt::Src &s, std::string &t) {
    for (int64_t n = s.range(1, 3); n > 0; n--) {
        size_t at = 4 + s.index(t.size() - 4);
        if (t[at] != '\r' && t[at] != '\n' && t[at - 1] != '\n' && t[at - 2] != '\n' && t[at - 3] != '\n' && t[at - 4] != '\n') t[at] = '\0';
    }
}
static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    bool cred = s.chance(1, 2), batch = s.chance(1, 4);
    unsigned T = static_cast<unsigned>(s.range(2, 8));
    size_t mails = batch ? static_cast<size_t>(s.range(1, 2)) : 1;
    MsgOpts o;
    o.max_rcpt = 2; o.max_body = 1500;
    Msg m = gen_msg(s, c, o);
    // what the server says is decided once
    std::map<std::pair<int, int>, std::string> said;
    std::string greeting = s.chance(1, 2) ? rich_reply(s, 220) : "220 mail.example.com\r\n";
    static const std::vector<std::string> all{"PLAIN", "LOGIN", "XOAUTH2"};
    const bool nulls = s.chance(1, 10);
    if (nulls && greeting.size() > 8) add_nulls(s, greeting);
    ehlo::Reply first = ehlo::gen(s, who.kind == kOpp ? 1 : 0, who.kind == kPlain ? 1 : -1, &all), inner = ehlo::gen(s, 0, 1, &all);
    if (s.chance(1, 3)) { auto &l = (who.kind == kForced || s.chance(1, 2) ? inner : first).lines; l.insert(l.begin() + static_cast<long>(s.index(l.size() + 1)), "X-LONG " + long_text(s)); }
    int refuse = s.chance(1, 5) ? static_cast<int>(s.range(srv::MAIL, srv::EOD)) : -1;
    auto text = [&](srv::Step st, int nth, const std::string &def) {
        auto it = said.find({st, nth});
        if (it != said.end()) return it->second;
        std::string t = def;
        int code = srv::code_of(def);
        if (static_cast<int>(st) == refuse && nth == 0) t = rich_reply(s, 552);
        else if (st == srv::GREETING || st == srv::EHLO || st == srv::EHLO_TLS) t = def;
        else if (s.chance(1, 2)) t = rich_reply(s, code);
        if (nulls && t.size() > 8 && st != srv::EHLO && st != srv::EHLO_TLS && s.chance(1, 2)) add_nulls(s, t);
        return said[{st, nth}] = t;
    };
    size_t pieces = s.chance(1, 4) ? 400 : static_cast<size_t>(s.range(2, 12));
    bool cipher = who.kind != kPlain && s.chance(1, 2);      // cut TLS bytes instead of application bytes
    int64_t budget = s.chance(3, 4) ? static_cast<int64_t>(T - 1) * 1000000 : 0;
    c.d(pbt::strf("%s%u s timeout; up to %zu pieces of %s, delayed up to %lld s; ", batch ? "batch; " : "", T, pieces, cipher ? "TLS bytes" : "replies", static_cast<long long>(budget / 1000000)));
    c.d("greeting " + pbt::esc(greeting, 80) + " ehlo " + pbt::esc(first.text(), 160) + " / " + pbt::esc(inner.text(), 160));
    if (refuse >= 0) c.d(std::string("refused at ") + srv::step_names[refuse]);
    size_t cuts = 0, longest = greeting.size();
    auto once = [&](bool split) {
        Seen r;
        sim::reset();
        Net net;
        net.conf = [&](size_t, sim::Conn &) {
            srv::Conf f = conf_for(who.kind);
            f.greeting = greeting;
            f.raw_ehlo = first.text(); f.raw_ehlo_tls = inner.text();
            f.on_step = [&](srv::Step st, int nth, srv::Reply &x) { x.text = st == srv::QUIT ? x.text : text(st, nth, x.text); longest = std::max(longest, x.text.size()); return true; };
            if (split) {
                auto cutter = [&](const std::string &b, int64_t bud) { auto p = cm::cut(s, b, pieces, bud); if (p.size() > 1) cuts++; return p; };
                if (cipher) f.cut_cipher = [=](const std::string &b) { return cutter(b, budget / 4); };
                else f.cut = [=](const std::string &b) { return cutter(b, budget); };
            }
            return f;
        };
        net.install();
        auto cl = cm::make(who);
        cl->set_timeout(T);
        cl->set_batch(batch);
        if (cred) { Cred k; k.set = true; k.user = "user"; k.pass = "secret"; cl->set_cred(k); }
        for (size_t i = 0; i < mails; i++) r.rc.push_back(cl->send(m));
        r.log = cl->log();
        cl.reset();
        for (auto &v : net.servers) { for (auto &x : v->cmds) r.cmds.push_back(x.line); for (auto &x : v->mails) r.mails.push_back((x.accepted ? "+" : "-") + x.from + "\n" + x.data); if (!v->errors.empty()) c.fail("protocol", v->errors[0]); }
        cm::tidy(c);
        return r;
    };
    Seen a = once(false), b = once(true);
    c.nontrivial = cuts > 0;
    if (longest > 1024) c.label("replies over 1024 bytes");
    if (budget) c.label("delayed pieces");
    if (cipher) c.label("TLS bytes cut");
    if (refuse >= 0) c.label("refusal");
    auto rcs = [](const std::vector<int> &v) { std::string x; for (int i : v) x += std::to_string(i) + " "; return x; };
    if (nulls) c.label("null characters");
    if (refuse < 0 && !nulls) for (int x : a.rc) if (x != 0) c.fail("one-piece", "sendMail returned " + rcs(a.rc) + "although every reply arrived in one piece and accepted the mail");
    if (a.rc != b.rc) c.fail("result", "one piece: " + rcs(a.rc) + " cut: " + rcs(b.rc));
    if (a.cmds != b.cmds) c.fail("commands", "one piece:\n" + cm::to_str(a.cmds) + "cut:\n" + cm::to_str(b.cmds));
    if (a.mails != b.mails) c.fail("mail", "the mail received differs");
    std::string la = norm_log(a.log), lb = norm_log(b.log);
    if (la != lb) {
        size_t i = 0;
        while (i < la.size() && i < lb.size() && la[i] == lb[i]) i++;
        size_t f = i > 60 ? i - 60 : 0;
        c.fail("log", "communication logs differ at " + std::to_string(i) + ": one piece ..." + pbt::esc(la.substr(f, 160)) + " cut ..." + pbt::esc(lb.substr(f, 160)));
    }
}
namespace pbt {
Property property{"C07", "at least one reply (or TLS flight) was cut into several segments", run, 16000, 150000};
}
