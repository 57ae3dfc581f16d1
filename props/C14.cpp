// C14: no server byte stream can crash, corrupt or fool the client.
#include "common.h"
#include "ehlo.h"
using namespace model;

// Something else than the reply good.
static std::string stream(pbt::Src &s, const std::string &good, bool &surplus) {
    static const std::vector<std::string> piece{"250 ok\r\n", "250-a\r\n", "250", "220 x\r\n", "354 go\r\n", "235 yes\r\n", "334 VXNlcm5hbWU6\r\n", "221 bye\r\n", "-250 x\r\n", "2500 x\r\n", "25 x\r\n", "99999999999 x\r\n", "-1\r\n", "\r\n", "\n", "\r", "\n\n\n", "250\r\n", "250-\r\n", "250 \r\n",
        "AUTH", "250-AUTH", "250-AUTH ", "250-AUTH PLAIN LOGIN XOAUTH2\r\n", "250 AUTH=PLAIN\r\n", "250-STARTTLS\r\n", "STARTTLS", "250 STARTTLS", " ", "-", "0", "+250 ok\r\n", " 250 ok\r\n", "0x250\r\n", "250ok\r\n", "250\tok\r\n", "250-a\r\n550 b\r\n", "550-a\r\n250 b\r\n", "250 ok\n", "250-x\n250 ok\n", "%s%s%s%n\r\n", "\x15\x03\x01", "\xff\xfb\x01"};
    std::string o;
    switch (s.weighted({6, 4, 4, 3, 2, 2, 1, 1, 2})) {
    case 0:          // a mutated reply
        o = good;
        for (int64_t n = s.range(1, 4); n > 0 && !o.empty(); n--) {
            size_t at = s.index(o.size());
            switch (s.range(0, 7)) {
            case 6: {        // a long word
                size_t sp = o.find_first_of(" -\r", at);
                std::string w(static_cast<size_t>(s.chance(1, 4) ? s.range(200, 5000) : s.range(10, 200)), static_cast<char>('A' + s.index(26)));
                o.insert(sp == std::string::npos ? at : sp, s.chance(1, 2) ? " " + w : w);
                break;
            }
            case 7: {        // many words
                size_t sp = o.find('\r', at);
                std::string w;
                for (int64_t k = s.chance(1, 4) ? s.range(100, 1000) : s.range(5, 100); k > 0; k--) w += s.chance(1, 2) ? " x" : " PLAIN";
                o.insert(sp == std::string::npos ? at : sp, w);
                break;
            }
            case 0: o[at] = static_cast<char>(s.byte()); break;
            case 1: o.erase(at, static_cast<size_t>(s.range(1, 4))); break;
            case 2: o.insert(at, 1, static_cast<char>(s.byte())); break;
            case 3: o.insert(at, s.pick(piece)); break;
            case 4: o.resize(at); break;
            default: o.insert(0, s.pick(piece)); break;
            }
        }
        break;
    case 1: for (int64_t n = s.range(1, 8); n > 0; n--) o += s.pick(piece); break;
    case 2: o = gen_bytes(s, 300, true); if (s.chance(1, 2)) o += "\r\n"; break;
    case 3: o = good; for (int64_t n = s.range(1, 4); n > 0; n--) o += s.pick(piece); surplus = true; break;     // surplus behind it
    case 4: {        // long lines, with and without line ends
        size_t n = static_cast<size_t>(s.chance(1, 8) ? s.range(60000, 140000) : s.range(480, 9000));
        o = good.substr(0, 4) + std::string(n, static_cast<char>(s.chance(1, 4) ? s.byte() : 'x'));
        if (s.chance(2, 3)) o += "\r\n";
        break;
    }
    case 5: {        // very many lines
        size_t n = static_cast<size_t>(s.range(20, 2000));
        for (size_t i = 0; i < n; i++) o += good.substr(0, 3) + "-" + (i % 7 ? "LINE\r\n" : "AUTH PLAIN\r\n");
        if (s.chance(2, 3)) o += good.substr(0, 3) + " end\r\n";
        break;
    }
    case 6: o = std::string(static_cast<size_t>(s.range(1, 40)), '\0') + good; break;
    case 7: { size_t n = static_cast<size_t>(s.range(1, 3000)); for (size_t i = 0; i < n; i++) o += "\r\n"; break; }
    default: { static const std::vector<int64_t> mark{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385}; size_t n = static_cast<size_t>(s.pick(mark) + s.range(-12, 12)); o = good.substr(0, 4); if (n > o.size() + 2) o += std::string(n - o.size() - 2, 'm'); o += "\r\n"; if (s.chance(1, 3)) o[o.size() - 2] = 'm'; }
    }
    return o;
}
// Can b begin with a complete reply of code 250? Forms that RFC 5321 leaves open are let through.
static bool begins_with_250(const std::string &b) {
    if (b.compare(0, 3, "250") != 0) return false;
    if (b.size() > 3 && b[3] >= '0' && b[3] <= '9') return false;
    for (size_t p = 0; p < b.size();) {
        size_t e = b.find_first_of("\r\n", p);
        if (e == std::string::npos) return false;
        if (b.compare(p, 3, "250") == 0 && (e == p + 3 || b[p + 3] != '-')) return true;
        p = e + 1;
    }
    return false;
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {4, 3, 2});
    bool cred = s.chance(1, 2), batch = s.chance(1, 4), opp_tls = who.kind != kOpp || !s.chance(1, 4);
    size_t mails = static_cast<size_t>(s.range(1, 3));
    unsigned T = static_cast<unsigned>(s.range(1, 4)), den = static_cast<unsigned>(s.range(2, 9));
    int cipher = s.chance(1, 4) ? static_cast<int>(s.range(0, 12)) : -1;       // which piece of TLS bytes is damaged
    bool any_surplus = false, hit = false;
    std::string eod_text;
    Net net;
    net.conf = [&](size_t, sim::Conn &conn) {
        srv::Conf f = conf_for(who.kind);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        if (s.chance(1, 4)) { f.raw_ehlo = ehlo::gen(s, who.kind == kOpp ? opp_tls : -1, -1).text(); f.raw_ehlo_tls = ehlo::gen(s, -1, -1).text(); }
        if (s.chance(1, 12)) { f.tls_mode = srv::Conf::kTlsGarbage; hit = true; }
        if (s.chance(1, 8)) f.inject_after_starttls = gen_bytes(s, 200, true);
        f.on_step = [&](srv::Step st, int, srv::Reply &r) {
            if (st == srv::EOD) eod_text = r.text;
            if (!s.chance(1, den)) return true;
            bool sp = false;
            r.text = stream(s, r.text, sp);
            any_surplus = any_surplus || sp;
            // surplus is also what comes behind the first complete reply of a replaced text
            r.complete = reply_complete(r.text);
            hit = true;
            if (s.chance(1, 5)) r.fin = true;
            else if (s.chance(1, 12)) r.rst = true;
            if (st == srv::EOD) eod_text = r.text;
            else any_surplus = true;
            c.label(srv::step_names[st]);
            c.d(std::string(srv::step_names[st]) + "=" + pbt::esc(r.text, 60) + "; ");
            return true;
        };
        if (s.chance(1, 2)) f.cut = [&](const std::string &b) { return cm::cut(s, b, 12, T * 700000LL); };
        int left = cipher;
        if (cipher >= 0) f.cut_cipher = [&s, left, &hit](const std::string &b) mutable {
            std::string x = b;
            if (left-- == 0 && !x.empty()) {
                hit = true;
                switch (s.range(0, 3)) {
                case 0: x[s.index(x.size())] ^= static_cast<char>(1 << s.index(8)); break;
                case 1: x.resize(s.index(x.size())); break;
                case 2: x.insert(s.index(x.size() + 1), gen_bytes(s, 60, true)); break;
                default: x = gen_bytes(s, 400, true);
                }
            }
            return cm::cut(s, x, 4, 100000);
        };
        if (s.chance(1, 8)) {      // bytes nobody asked for
            std::string b = s.chance(1, 2) ? "250 ok\r\n" : gen_bytes(s, 100, true);
            conn.deliver(b, s.range(0, 3000000));
            any_surplus = true; hit = true;
            c.d("unasked: " + pbt::esc(b, 40) + "; ");
        }
        return f;
    };
    net.install();
    auto cl = cm::make(who);
    cl->set_timeout(T);
    cl->set_batch(batch);
    if (cred) cl->set_cred(cm::gen_cred(s));
    Msg m = simple_msg();
    if (s.chance(1, 3)) m.body = std::string(3000, 'b');
    const int64_t limit = (static_cast<int64_t>(T) + 2) * 1000000;
    auto bounded = [&](const char *when) {
        sim::event(when);
        if (sim::w().hang) c.fail("hang", "waited without any limit in " + sim::w().hang_where);
        if (sim::w().max_gap > limit) c.fail("waited-too-long", pbt::strf("waited %.3f s with a command timeout of %u s between: %s", static_cast<double>(sim::w().max_gap) / 1e6, T, sim::w().max_gap_where.c_str()));
    };
    sim::event("start");
    for (size_t i = 0; i < mails; i++) {
        eod_text.clear();
        if (i && s.chance(1, 4)) {          // the next mail is sent by a copy or by the client moved elsewhere
            bool copy = s.chance(1, 2);
            cl = copy ? cl->copy() : cl->move();
            if (s.chance(1, 2)) m.body = std::string(static_cast<size_t>(s.range(1, 9000)), 'c');
            c.label(copy ? "copied client" : "moved client");
            c.d(copy ? "copied; " : "moved; ");
        }
        size_t ev0 = sim::w().trace.size(), n0 = 0;
        for (auto &v : net.servers) n0 += v->mails.size();
        int rc = cl->send(m);
        bounded("sendMail returned");
        c.d(pbt::strf("-> %d; ", rc));
        c.label(rc == 0 ? "returned 0" : "returned an error");
        (void)cl->log();
        if (rc != 0) continue;
        size_t n1 = 0;
        for (auto &v : net.servers) n1 += v->mails.size();
        if (!any_surplus && n1 != n0 + 1) c.fail("fooled", "sendMail returned 0 but the server never saw the end of the mail\n" + net.describe());
        auto &v = *net.servers.back();
        if (!v.tls_done) {
            std::string sent, back;
            size_t end = std::string::npos, last = 0;
            for (size_t e = ev0; e < sim::w().trace.size(); e++) {
                auto &x = sim::w().trace[e];
                if (x.conn != v.conn_id) continue;
                if (x.kind == 'W') { sent += x.bytes; size_t p = sent.rfind("\r\n.\r\n"); if (p != std::string::npos && p != end) { end = p; last = e; back.clear(); } }
                else if (x.kind == 'R') back += x.bytes;
            }
            (void)last;
            if (!begins_with_250(back)) c.fail("fooled", "sendMail returned 0, but after the end of the mail the server said \"" + pbt::esc(back, 300) + "\"\n" + net.describe());
        } else if (!any_surplus && !begins_with_250(eod_text)) c.fail("fooled", "sendMail returned 0, but after the end of the mail the server said (in TLS) \"" + pbt::esc(eod_text, 300) + "\"\n" + net.describe());
    }
    cl.reset();
    bounded("destroyed");
    c.nontrivial = hit;
    cm::tidy(c);
}
namespace pbt {
Property property{"C14", "the server sent something other than the normal replies at a reached point", run, 35000, 350000};
}
