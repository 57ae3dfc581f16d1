// Helpers shared by the properties that run whole sessions.
#pragma once
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "engine.h"
#include "model.h"
#include "server.h"
#include "sim.h"

namespace cm {
using model::Msg;
using model::Kind;
using model::Api;
typedef std::set<int> Codes;

struct Who { Kind kind = model::kPlain; Api api = model::kC; };
inline Who gen_who(pbt::Src &s, pbt::Ctx &c, std::vector<unsigned> w = {4, 2, 2}) {
    Who x;
    x.kind = static_cast<Kind>(s.weighted(w));
    x.api = static_cast<Api>(s.index(2));
    c.label(std::string(model::api_names[x.api]) + " " + model::kind_names[x.kind]);
    c.d(std::string(model::api_names[x.api]) + " " + model::kind_names[x.kind] + " client; ");
    return x;
}
inline std::unique_ptr<model::Client> make(const Who &x, const std::string &host = "mail.example.com", unsigned port = 587) { return model::make_client(x.kind, x.api, host, port); }

// Every descriptor closed, nothing foreign touched, nobody waited without a limit.
inline void tidy(pbt::Ctx &c, bool closed = true) {
    sim::World &w = sim::w();
    if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
    if (!w.foreign.empty()) c.fail("foreign-descriptor", "operation on a descriptor that is not the client's: " + w.foreign[0]);
    if (closed && sim::open_fds()) c.fail("descriptor-leak", std::to_string(sim::open_fds()) + " connections still open at the end");
}
// Exactly one mail accepted, with the result 0.
inline const srv::Mail &only_mail(pbt::Ctx &c, const model::Net &net, int rc, std::vector<srv::Mail> &hold, size_t extra = 0) {
    if (rc != 0) c.fail("not-sent", "sendMail returned " + std::to_string(rc) + " although the server accepted everything\n" + net.describe());
    hold = net.accepted();
    if (hold.size() != 1 + extra) c.fail("mail-count", std::to_string(hold.size()) + " mails accepted by the server, expected " + std::to_string(1 + extra) + "\n" + net.describe());
    return hold[0];
}
// Further mails through the same client: other messages, built where the earlier ones were, and the same message
// again after a file it names has changed.  Each is compared with what it was built from; returns their number.
template <class Check> size_t sequel(pbt::Src &s, pbt::Ctx &c, const model::Net &net, model::Client &cl, const Who &who, const model::MsgOpts &o, Check check) {
    size_t done = 0;
    auto look = [&](const Msg &m, int rc) {
        std::vector<srv::Mail> got = net.accepted();
        if (rc != 0) c.fail("not-sent", "a later sendMail returned " + std::to_string(rc) + " although the server accepted everything\n" + net.describe());
        if (got.size() != 2 + done) c.fail("mail-count", std::to_string(got.size()) + " mails accepted by the server, expected " + std::to_string(2 + done) + "\n" + net.describe());
        done++;
        std::string e = check(m, got.back());
        if (!e.empty()) c.fail("later-mail", "mail " + std::to_string(done + 1) + ": " + e);
    };
    for (size_t n = static_cast<size_t>(s.range(1, 3)); n > 0; n--) {
        Msg m = model::gen_msg(s, c, o);
        c.d("; then " + model::show(m));
        if (m.atts.empty() || s.chance(1, 2)) { look(m, cl.send(m)); continue; }
        model::with_message(m, who.api, [&](const jed_utils::Message &lib) {
            look(m, cl.send_lib(lib));
            const std::string path = m.atts[s.index(m.atts.size())].path, content = s.chance(1, 2) ? model::gen_bytes(s, 300, true) : model::gen_bytes(s, 3000, true);
            model::write_file(path, content);
            for (auto &a : m.atts) if (a.path == path) a.content = content;
            c.d("; again with " + path + " holding " + std::to_string(content.size()) + " bytes");
            look(m, cl.send_lib(lib));
        });
    }
    c.label("further mails");
    return done;
}

// ---- documented result codes per step --------------------------------------------------------------
inline Codes step_codes(srv::Step s) {
    switch (s) {
    case srv::GREETING: return {-3};
    case srv::EHLO: return {-20, -21};
    case srv::STARTTLS: return {-30, -31};
    case srv::EHLO_TLS: return {-59, -60};
    case srv::AUTH: case srv::AUTH2: case srv::AUTH3: return {-81, -82};
    case srv::MAIL: return {-85, -86};
    case srv::RCPT: return {-87, -88};
    case srv::DATA: return {-89, -90};
    case srv::EOD: return {-91, -92, -93, -94, -95, -96, -97, -98};
    case srv::QUIT: return {-99};
    default: return {};
    }
}
inline Codes tls_codes() { Codes c; for (int i = -58; i <= -50; i++) c.insert(i); return c; }
inline void add(Codes &a, const Codes &b) { a.insert(b.begin(), b.end()); }
inline std::string show(const Codes &c) { std::string o; for (int x : c) o += (o.empty() ? "" : ",") + std::to_string(x); return "{" + o + "}"; }
// what the steps from s onward (through the end of the mail) may report when the connection breaks
inline Codes from_step(srv::Step s) {
    Codes r;
    for (int k = s; k <= srv::EOD; k++) add(r, step_codes(static_cast<srv::Step>(k)));
    if (s <= srv::EHLO_TLS) add(r, tls_codes());
    return r;
}
inline int good_code(srv::Step s) {
    switch (s) {
    case srv::GREETING: case srv::STARTTLS: return 220;
    case srv::AUTH2: return 334;
    case srv::AUTH3: return 235;
    case srv::DATA: return 354;
    case srv::QUIT: return 221;
    default: return 250;
    }
}

// ---- credentials and mechanisms ---------------------------------------------------------------------
inline model::Cred gen_cred(pbt::Src &s, size_t max = 24) {
    model::Cred c;
    c.set = true;
    auto text = [&](size_t n) {
        std::string o;
        switch (s.weighted({5, 2, 2})) {
        case 0: o = model::gen_word(s, 10); break;
        case 1: o = model::gen_bytes(s, n, false); break;
        default: o = "\xc3\xa9" + model::gen_word(s, 6) + "=+/\\\"'<> %s\t" + model::gen_word(s, 3); break;
        }
        for (char &ch : o) if (static_cast<unsigned char>(ch) == 1) ch = 2;      // \001 separates the fields of XOAUTH2
        return o;
    };
    c.user = "u" + text(max);
    c.pass = "p" + text(max);
    c.method = static_cast<int>(s.weighted({3, 2, 2, 2}));
    return c;
}

// ---- cutting replies ---------------------------------------------------------------------------------
// Cuts bytes into at most n pieces, the delays adding up to at most budget microseconds.
inline srv::Pieces cut(pbt::Src &s, const std::string &b, size_t n, int64_t budget) {
    srv::Pieces p;
    size_t pos = 0;
    while (pos < b.size()) {
        size_t len = b.size() - pos;
        if (p.size() + 1 < n && len > 1) {
            switch (s.weighted({3, 2, 2})) {
            case 0: len = std::min<size_t>(len, static_cast<size_t>(s.range(1, 6))); break;
            case 1: len = static_cast<size_t>(s.range(1, static_cast<int64_t>(len))); break;
            default: {      // inside a line ending
                size_t e = b.find('\n', pos);
                if (e != std::string::npos && e > pos) len = e - pos + (s.chance(1, 3) ? 1 : 0);
                break;
            }
            }
        }
        int64_t d = 0;
        if (budget > 0 && s.chance(1, 2)) { d = s.range(0, budget); budget -= d; }
        p.push_back({d, b.substr(pos, len)});
        pos += len;
    }
    return p;
}

// ---- replies ----------------------------------------------------------------------------------------
inline std::string text_line(pbt::Src &s, size_t max = 40) {
    static const std::vector<std::string> typical{"2.1.0 Ok", "2.0.0 queued as 4F2", "5.0 seconds", "5.1.1 unknown", "4.7.0 later", "550 refused", "250", "354 go", "-1", "(none)", "ok 250-ok", "4.", "5.", "5.7.1 <a@b>", "421", "error", "failed: 0", "\t", " ", "250 ok 250"};
    // words that servers use, in no particular order: the wording of a reply has no meaning
    static const std::vector<std::string> word{"closing", "connection", "transmission", "channel", "error", "rejected", "denied", "refused", "failed", "failure", "timeout", "try", "again", "later", "busy", "unavailable", "temporarily", "mailbox", "full", "quota",
        "exceeded", "unknown", "user", "not", "found", "invalid", "syntax", "command", "unrecognized", "bad", "sequence", "authentication", "required", "successful", "accepted", "STARTTLS", "TLS", "ready", "start", "mail", "input", "end", "with", "queued", "message",
        "id", "sender", "recipient", "ok", "OK", "Ok", "bye", "service", "encryption", "needed", "closed", "enclosed", "files", "password", "credentials", "virus", "spam", "policy", "disconnect", "shutting", "down", "limit", "too", "many", "recipients", "SMTP", "ESMTP",
        "AUTH", "PLAIN", "LOGIN", "QUIT", "DATA", "relay", "access", "greylisted", "no", "such", "next", "retry", "deferred", "delivered", "sent", "success", "warning", "deprecated", "certificate", "expired", "welcome", "hello", "<CRLF>.<CRLF>"};
    std::string t;
    switch (s.weighted({2, 2, 4})) {
    case 0: t = s.pick(typical); break;
    case 1: for (int64_t n = s.range(1, 5); n > 0; n--) { t += (t.empty() ? "" : " ") + s.pick(word); if (s.chance(1, 8)) t += s.pick(std::vector<std::string>{",", ".", ":", ";", "!", "..."}); if (s.chance(1, 10)) t[t.size() - 1] = static_cast<char>(t[t.size() - 1] ^ ((t[t.size() - 1] | 32) >= 'a' ? 32 : 0)); } break;
    default: t = model::gen_bytes(s, max, false);
    }
    if (t.size() > max) t.resize(max);
    for (char &ch : t) if (ch == '\r' || ch == '\n' || !ch) ch = '.';
    return t;
}
// a complete, well-formed reply with the given code, in one or several lines
inline std::string good_reply(pbt::Src &s, int code, size_t max_lines = 4, size_t max_text = 60) {
    std::string k = std::to_string(code), o;
    size_t n = s.weighted({5, 2, 1}) ? static_cast<size_t>(s.range(1, static_cast<int64_t>(max_lines))) : 1;
    for (size_t i = 0; i < n; i++) o += k + (i + 1 < n ? "-" : " ") + (s.chance(1, 3) ? "ok" : text_line(s, max_text)) + "\r\n";
    return o;
}
inline std::string to_str(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += pbt::esc(x, 200) + "\n"; return o; }
// ---- comparing with a fresh client --------------------------------------------------------------------
// The mail without the boundary text, which may be chosen freely.
inline std::string canon(const srv::Mail &m) {
    model::Parsed p = model::parse_mail(m.data);
    std::string d = m.data;
    if (p.boundary.size() >= 3) for (size_t i = 0; (i = d.find(p.boundary, i)) != std::string::npos; i++) d.replace(i, p.boundary.size(), "*");
    std::string o = "from " + m.from;
    for (auto &r : m.rcpts) o += " to " + r;
    return o + (m.tls ? " tls" : "") + " user " + m.user + "\n" + d;
}
inline std::vector<std::string> lines(const std::vector<srv::Cmd> &v, size_t from) {
    std::vector<std::string> o;
    for (size_t i = from; i < v.size() && v[i].step != srv::QUIT; i++) { o.push_back(std::string(v[i].tls ? "tls " : "") + srv::step_names[v[i].step] + " " + (v[i].step == srv::EOD ? "" : v[i].line)); if (v[i].step == srv::EOD) break; }
    return o;
}
}  // namespace cm
