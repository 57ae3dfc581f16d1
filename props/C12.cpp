// C12: the communication log is complete, in order, and free of the password.
#include "common.h"
#include "ehlo.h"
using namespace model;

static void erase_all(std::string &t, const std::string &x) {
    std::string o;
    size_t p = 0, q;
    while ((q = t.find(x, p)) != std::string::npos) { o.append(t, p, q - p); p = q + x.size(); }
    o.append(t, p, std::string::npos);
    t = o;
}
// The text of client items without the marks and line ends of the log
static std::string flat(std::string t) {
    erase_all(t, "\nc: ");
    erase_all(t, "\\r\\n");
    erase_all(t, "\r"); erase_all(t, "\n");
    return t;
}
static std::string stuff(const std::string &d) {
    std::string o;
    bool bol = true;
    for (size_t i = 0; i < d.size(); i++) { if (bol && d[i] == '.') o += '.'; o += d[i]; bol = d[i] == '\n' && i > 0 && d[i - 1] == '\r'; }
    return o;
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {4, 2, 2});
    bool opp_tls = who.kind != kOpp || !s.chance(1, 4), batch = s.chance(1, 3);
    size_t mails = static_cast<size_t>(s.weighted({4, 3, 2})) + 1;
    bool big = s.chance(1, 30);
    Cred k;
    if (s.chance(2, 3)) {
        k = cm::gen_cred(s);
        k.pass = "S3cr~" + k.pass + "~T0k!end";
        if (s.chance(1, 20)) k.pass += std::string(static_cast<size_t>(s.range(1, 9000)), 'p') + "~";
        k.user = "user-" + model::gen_word(s, 8);      // the user name is not secret and may equal part of anything
    }
    Net net;
    unsigned serial = 0;
    struct Given { size_t conn; srv::Step step; size_t cmd; std::string text, token; bool mail_end; };
    std::vector<Given> given;
    int refuse_step = s.chance(1, 4) ? static_cast<int>(s.range(srv::GREETING, srv::EOD)) : -1, refuse_nth = static_cast<int>(s.weighted({3, 1, 1}));
    static const std::vector<int> refusals{554, 334, 535, 421, 450, 501, 354, 251, 599};
    int refusal = s.pick(refusals);
    if (k.set && s.chance(1, 6)) { refuse_step = s.chance(2, 3) ? srv::AUTH : s.chance(1, 2) ? srv::AUTH2 : srv::AUTH3; refuse_nth = 0; }
    int verdict = s.chance(1, 8) ? 535 : 235;
    size_t max_text = s.chance(1, 4) ? 3000 : 60, max_lines = s.chance(1, 6) ? 60 : 5;
    bool cuts = s.chance(1, 3), nulls = s.chance(1, 12);
    if (nulls) c.label("null characters");
    net.conf = [&](size_t n, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        f.auth = [&verdict](const std::string &, const std::string &, const std::string &) { return verdict; };
        f.mail_form = n % 3 == 2 ? 1 : 0;
        if (cuts) f.cut = [&s](const std::string &b) { return cm::cut(s, b, 5, 800000); };
        f.on_step = [&, n](srv::Step st, int nth, srv::Reply &r) {
            if (st == srv::QUIT) return true;
            int code = srv::code_of(r.text);
            if (st == refuse_step && nth == refuse_nth && code < 400) code = refusal;
            std::string cs = std::to_string(code), token = pbt::strf("tk%08x.%u", 0x9e3779b9u * ++serial, serial);
            if (st == srv::EHLO || st == srv::EHLO_TLS) {
                if (code == 250) r.text = "250-" + token + " greets you\r\n" + r.text.substr(r.text.find('\n') + 1);
                else r.text = cs + " " + token + "\r\n";
            } else {
                std::string last = cs + " " + (s.chance(1, 2) ? cm::text_line(s, max_text) + " " : "") + token + "\r\n";
                r.text.clear();
                if (s.chance(1, 3)) for (int64_t i = s.range(1, static_cast<int64_t>(max_lines)); i > 0; i--) r.text += cs + "-" + cm::text_line(s, max_text) + "\r\n";
                r.text += last;
                // a null character in the text hides nothing of what follows
                if (nulls && r.text.size() > token.size() + 12) for (int64_t i = s.range(0, 2); i > 0; i--) { size_t at = 5 + s.index(r.text.size() - token.size() - 7); bool free = true; for (size_t b = at - 4; b <= at; b++) free = free && r.text[b] != '\r' && r.text[b] != '\n'; if (free) r.text[at] = '\0'; }
            }
            given.push_back(Given{n, st, net.servers.size() > n ? net.servers[n]->cmds.size() : 0, r.text, token, st == srv::EOD});
            return true;
        };
        return f;
    };
    net.install();
    auto cl = cm::make(who);
    cl->set_batch(batch);
    cl->set_timeout(3);
    if (k.set) cl->set_cred(k);
    c.d(pbt::strf("%s%s%zu mails%s; ", batch ? "batch; " : "", opp_tls ? "" : "no STARTTLS; ", mails, k.set ? pbt::strf("; credentials method %d", k.method).c_str() : ""));
    if (refuse_step >= 0) c.d(pbt::strf("%d at %s#%d; ", refusal, srv::step_names[refuse_step], refuse_nth));
    for (size_t i = 0; i < mails; i++) {
        MsgOpts o;
        o.max_rcpt = s.chance(1, 10) ? 30 : 3; o.max_body = big ? 300000 : s.chance(1, 4) ? 9000 : 600; o.wild_body = s.chance(1, 3); o.max_atts = s.chance(1, 5) ? 2 : 0; o.wild_names = s.chance(1, 4);
        Msg m = gen_msg(s, c, o);
        erase_all(m.body, "c: ");        // what the log itself writes before each line: flat() could not tell them apart
        erase_all(m.body, "\\r\\n");
        if (big) m.body += std::string(static_cast<size_t>(s.range(1, 300000)), 'B');
        if (i && s.chance(1, 6)) { auto x = s.chance(1, 2) ? cl->copy() : cl->move(); cl = std::move(x); c.d("copied or moved; "); }
        c.d(pbt::strf("mail %zu: ", i) + pbt::esc(show(m), 160) + "; ");
        int rc = cl->send(m);
        if (given.empty()) continue;
        std::string log = cl->log();
        size_t conn = net.servers.size() - 1;
        auto &v = *net.servers[conn];
        auto where = [&](const std::string &what) { return what + pbt::strf("\n(sendMail returned %d) log:\n", rc) + pbt::esc(log, 3000) + "\n" + net.describe(); };
        c.nontrivial = c.nontrivial || log.size() > 4096 || k.set || i > 0;
        if (log.size() > 4096) c.label("log over 4 KiB");
        // no trace of the secret
        if (k.set) {
            std::vector<std::pair<std::string, std::string>> secret{{"the password", k.pass}};
            for (size_t sh = 0; sh < 3; sh++) {
                std::string e = srv::b64enc(std::string(sh, 'x') + k.pass);
                size_t from = sh == 0 ? 0 : 4;
                secret.push_back({"the encoded password", e.substr(from, e.size() - 4 - from)});
            }
            for (auto &a : v.auths) { if (!a.initial.empty()) secret.push_back({"the encoded credentials", a.initial}); }
            for (auto &x : v.cmds) if (x.step == srv::AUTH3) secret.push_back({"the encoded password", x.line});
            for (auto &x : secret) if (log.find(x.second) != std::string::npos) c.fail("secret", where("the log contains " + x.first));
            c.label("credentials");
        }
        // the dialogue in order
        size_t pos = 0, data_end = 0;
        size_t mail_no = 0;
        for (auto &g : given) {
            if (g.conn != conn) {
                if (log.find(g.token) != std::string::npos) c.fail("old-log", where("the log still contains a reply of an earlier session: " + g.text));
                continue;
            }
            size_t at = log.find(g.token, pos);
            std::string what = std::string(srv::step_names[g.step]) + " reply \"" + pbt::esc(g.text, 200) + "\"";
            if (at == std::string::npos) c.fail("reply-missing", where("the log does not contain the " + what + " in its place"));
            if (log.find(g.token, at + 1) != std::string::npos) c.fail("reply-twice", where("the log contains twice the " + what));
            // the lines of the reply
            std::string first = g.text.substr(0, std::min(g.text.find("\r\n"), g.text.find('\0')));
            size_t rs = log.find("\ns: " + first, pos);
            if (rs == std::string::npos || rs > at) c.fail("reply-incomplete", where("the log does not contain the beginning of the " + what + " as a server item"));
            size_t q = rs + 4;
            for (size_t b = 0; b < g.text.size();) {
                size_t e = g.text.find("\r\n", b);
                for (size_t z = b; z <= e;) {              // pieces between null characters
                    size_t y = std::min(e, g.text.find('\0', z));
                    std::string l = g.text.substr(z, y - z);
                    size_t f = log.find(l, q);
                    if (f == std::string::npos || (z == 0 && f != q)) c.fail("reply-incomplete", where("the log lacks the text \"" + pbt::esc(l, 200) + "\" of the " + what));
                    q = f + l.size();
                    z = y + 1;
                }
                b = e + 2;
            }
            std::string region = log.substr(pos, rs - pos);
            if (g.step != srv::GREETING) {
                const srv::Cmd &x = v.cmds[g.cmd - 1];
                std::string want = "\nc: " + x.line;
                if (g.step == srv::AUTH || g.step == srv::AUTH2 || g.step == srv::AUTH3) {
                    if (g.step == srv::AUTH && region.find("\nc: ") == std::string::npos) c.fail("command-missing", where("the log has no client item for the authentication"));
                } else if (g.step == srv::EOD) {
                    std::string d = v.mails[mail_no++].data, got = flat(region);
                    Parsed p = parse_mail(d);
                    if (!p.parts.empty()) {      // up to the end of the text; attachments and delimiters are not claimed
                        size_t h = d.find("\r\n\r\n");
                        size_t part = h == std::string::npos ? h : d.find("\r\n\r\n", h + 2);
                        if (part != std::string::npos) d = d.substr(0, part + 4 + p.parts[0].body.size());
                    }
                    std::string a = flat(d), b = flat(stuff(d));
                    if (got.compare(0, a.size(), a) != 0 && got.compare(0, b.size(), b) != 0) {
                        size_t k2 = 0;
                        while (k2 < got.size() && k2 < a.size() && got[k2] == a[k2]) k2++;
                        c.fail("text-missing", where(pbt::strf("the headers and text of the mail are not in the log; first difference at %zu: sent \"", k2) + pbt::esc(a.substr(k2, 100)) + "\", logged \"" + pbt::esc(got.substr(k2, 100)) + "\""));
                    }
                    if (region.find("\nc: ") == std::string::npos) c.fail("command-missing", where("no client item for the mail"));
                } else if (region.find(want) == std::string::npos) c.fail("command-missing", where("the log does not contain as a client item the command \"" + pbt::esc(x.line, 200) + "\" before its reply"));
            }
            pos = at + g.token.size();
            data_end = pos;
        }
        if (!batch && v.quit && log.find("QUIT", data_end) == std::string::npos) c.fail("command-missing", where("the log does not contain QUIT"));
        c.label(rc == 0 ? "mail sent" : "mail not sent");
    }
    cl.reset();
    cm::tidy(c);
}
namespace pbt {
Property property{"C12", "credentials are set, the log outgrows 4 KiB, or a later session of the same client", run, 14000, 120000};
}
