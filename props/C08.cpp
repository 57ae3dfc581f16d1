// C08: nothing the server does or omits can block the client past its timeout.
#include "script.h"
using namespace model;

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {3, 2, 3});
    bool opp_tls = who.kind != kOpp || !s.chance(1, 4);
    bool cred = s.chance(1, 2), batch = s.chance(1, 3), unset = s.chance(1, 8);
    int64_t T = unset ? 5 : s.weighted({2, 3, 3}) == 0 ? 1 : s.range(1, s.chance(1, 10) ? 120 : 9);
    size_t mails = static_cast<size_t>(s.range(1, batch ? 3 : 2));
    Cred k;
    k.set = cred; k.user = "user"; k.pass = "secret"; k.method = static_cast<int>(s.weighted({2, 1, 3, 1}));
    int method = k.method ? k.method : 1;
    MsgOpts o;
    o.max_rcpt = 2; o.max_body = s.chance(1, 3) ? 60000 : 800;
    Msg m = gen_msg(s, c, o);
    static const std::vector<std::string> kinds{"silent at a step", "partial reply, then silence", "endless bytes without a line end", "endless continuation lines", "late reply", "connection never completes", "connection completes late",
        "stops reading", "stops reading for a while", "TLS silent", "TLS garbage", "TLS closes", "TLS breaks off mid handshake", "slow handshake", "handshake trickles", "reply trickles byte by byte", "connection resets mid TLS", "endless replies without text", "connection refused", "name not found", "refusal at a step", "closed at a step", "reset at a step", "a TLS record of a reply trickles byte by byte"};
    size_t kind = s.index(kinds.size());
    bool tls = who.kind == kForced || (who.kind == kOpp && opp_tls);
    if (!tls && ((kind >= 9 && kind <= 14) || kind == 16 || kind == 23)) kind = s.index(9);
    // unusual timeouts: none at all, and those whose milliseconds or microseconds do not fit in 32 bits
    static const std::vector<int64_t> odd{0, 0, 1000, 2147, 2148, 4294, 4295, 40000, 100000, 2147483, 2147484, 4294967, 4294968, 2147483647LL, 2147483648LL, 4294967295LL};
    if (!tls && !unset && (kind <= 1 || (kind >= 4 && kind <= 8)) && s.chance(1, 12)) { T = s.pick(odd); c.label("unusual timeout"); }
    auto steps = script::steps_of(who.kind, cred, method, opp_tls);
    srv::Step step = s.pick(steps);
    if (kind == 23) while (step < srv::EHLO_TLS) step = s.pick(steps);
    int nth = batch && step >= srv::MAIL ? static_cast<int>(s.range(0, 2)) : 0;
    int64_t late = 0;        // how late the awaited thing comes, in ms
    switch (s.weighted({2, 1, 3})) {
    case 0: late = s.range(0, std::min<int64_t>(std::max<int64_t>(T - 1, 0), 2000000) * 1000); break;
    case 1: late = s.range(0, 4000) + std::max<int64_t>(T - 1, 0) * 1000; break;
    default: late = (T + 3) * 1000 + s.range(0, 200000);
    }
    int64_t window = s.range(0, s.chance(1, 2) ? 300 : 20000), bad_conn = static_cast<int64_t>(s.index(mails));
    c.label(kinds[kind]);
    c.d(pbt::strf("timeout %lld s%s; %s%s; %zu mails; %s", static_cast<long long>(T), unset ? " (default)" : "", batch ? "batch; " : "", opp_tls ? "" : "no STARTTLS", mails, kinds[kind].c_str()));
    if (kind <= 4 || kind == 15 || kind == 17 || kind == 23) c.d(pbt::strf("%s#%d", srv::step_names[step], nth));
    if (kind == 4 || kind == 6 || kind == 8 || kind == 13) c.d(pbt::strf("%lld ms late", static_cast<long long>(late)));
    if (kind == 7 || kind == 8) c.d(pbt::strf("after %lld bytes", static_cast<long long>(window)));
    if (kind >= 18) c.d(srv::step_names[step]);
    static const std::vector<int> errs{ECONNREFUSED, ENETUNREACH, ETIMEDOUT, EHOSTUNREACH, EADDRNOTAVAIL, ECONNRESET}, refusals{421, 450, 451, 452, 454, 432, 500, 535, 550, 554};
    int err = s.pick(errs), refusal = s.pick(refusals);
    bool applied = false, never = false, maybe = false;
    Net net;
    net.conf = [&](size_t n, sim::Conn &conn) {
        srv::Conf f = conf_for(who.kind);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        if (!batch && static_cast<int64_t>(n) != bad_conn) return f;
        if (batch && n > 0) return f;
        if (kind == 7 || kind == 8) { conn.window = window; if (kind == 8) conn.window_reopen = sim::w().now + late * 1000; applied = true; maybe = true; }
        if (kind == 9) f.tls_mode = srv::Conf::kTlsSilent;
        if (kind == 10) f.tls_mode = srv::Conf::kTlsGarbage;
        if (kind == 11) f.tls_mode = srv::Conf::kTlsClose;
        if (kind == 12) f.tls_mode = srv::Conf::kTlsCloseMid;
        if (kind == 16) f.tls_mode = srv::Conf::kTlsReset;
        if ((kind >= 9 && kind <= 12) || kind == 16) { applied = true; never = true; }
        if (kind == 13) { f.handshake_delay = late * 1000; applied = true; maybe = true; if (late > (T + 2) * 1000) never = true; }
        if (kind == 14) {
            f.cut_cipher = [&](const std::string &b) { srv::Pieces p; size_t n = b.size() / 20 + 1; for (size_t i = 0; i < b.size(); i += n) p.push_back({T * 600000, b.substr(i, n)}); return p; };
            applied = true; never = true;
        }
        if (kind == 23)
            f.cut_cipher = [&](const std::string &b) {
                srv::Pieces p;
                if (!applied) { p.push_back({0, b}); return p; }
                size_t n = b.size() / 40 + 1;
                for (size_t i = 0; i < b.size(); i += n) p.push_back({T * 1000000 * 3 / 4, b.substr(i, n)});
                return p;
            };
        f.on_step = [&](srv::Step st, int nn, srv::Reply &r) {
            if (st != step || nn != nth || (kind > 4 && kind != 15 && kind != 17 && kind < 20)) return true;
            if (kind == 23) { applied = true; never = true; r.complete = false; return true; }
            // nothing to wait for: the client must not take its time either
            if (kind == 20) { r.text = std::to_string(refusal) + " no\r\n"; applied = true; maybe = true; return true; }
            if (kind == 21 || kind == 22) { r.text.clear(); (kind == 21 ? r.fin : r.rst) = true; r.complete = false; applied = true; maybe = true; return true; }
            std::string g = std::to_string(srv::code_of(r.text));
            applied = true; never = true;
            r.complete = false;
            switch (kind) {
            case 0: r.silent = true; break;
            case 1: { size_t k2 = static_cast<size_t>(s.range(1, static_cast<int64_t>(r.text.size()) - 1)); r.text.resize(k2); break; }
            case 2: r.text = std::string(3000, 'z'); break;
            case 3: r.text.clear(); for (int i = 0; i < 500; i++) r.text += g + "-more\r\n"; break;
            case 17: r.text.clear(); for (int i = 0; i < 300; i++) r.text += g + "\r\n"; never = false; maybe = true; r.complete = true; break;
            case 4: r.delay = late * 1000; r.complete = true; never = late > (T + 2) * 1000; maybe = !never; break;
            default: break;     // trickling is done by cut
            }
            return true;
        };
        if (kind == 2 || kind == 3 || kind == 15 || kind == 17)
            f.cut = [&](const std::string &b) {
                srv::Pieces p;
                if (!applied || b.size() < 30) { if (!applied) { p.push_back({0, b}); return p; } }
                size_t n = kind == 3 ? 10 : kind == 17 ? 5 : 1;
                for (size_t i = 0; i < b.size(); i += n) p.push_back({T * 1000000 * 3 / 4, b.substr(i, n)});
                return p;
            };
        return f;
    };
    net.tweak = [&](size_t n, sim::ConnPlan &p) {
        if (batch ? n > 0 : static_cast<int64_t>(n) != bad_conn) return;
        if (kind == 5) { p.connect_delay = -1; applied = true; never = true; }
        if (kind == 18) { (s.chance(1, 2) ? p.connect_errno : p.so_error) = err; applied = true; never = true; }
        if (kind == 6) { p.connect_delay = late * 1000; applied = true; never = late > (T + 2) * 1000; maybe = !never; }
    };
    net.install();
    if (kind == 19) sim::w().resolve = [&](const std::string &, std::string &) { applied = true; never = true; return false; };
    auto cl = cm::make(who);
    if (!unset) cl->set_timeout(static_cast<unsigned>(T));
    cl->set_batch(batch);
    if (cred) cl->set_cred(k);
    const int64_t limit = (T + 2) * 1000000;
    auto bounded = [&](const char *when) {
        sim::event(when);
        sim::World &w = sim::w();
        if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
        if (w.max_gap > limit) c.fail("waited-too-long", pbt::strf("waited %.3f s with a command timeout of %lld s between: %s\n", static_cast<double>(w.max_gap) / 1e6, static_cast<long long>(T), w.max_gap_where.c_str()) + net.describe());
    };
    sim::event("start");
    for (size_t i = 0; i < mails; i++) {
        bool before = applied;
        size_t acc = net.accepted().size();
        int rc = cl->send(m);
        bounded("sendMail returned");
        bool delivered = net.accepted().size() > acc;
        if (rc == 0 && !delivered) c.fail("result", "sendMail returned 0 but the server has not accepted the mail\n" + net.describe());
        if (!before && applied && never && rc == 0) c.fail("result", "sendMail returned 0 although a needed reply did not come in time\n" + net.describe());
        if (!applied && rc != 0 && T) c.fail("result", pbt::strf("sendMail returned %d although the server did everything in time\n", rc) + net.describe());
        if (!before && applied && maybe && !never && late <= (T - 1) * 1000 && kind != 7 && kind < 17 && T && T < 2147483 && rc != 0)
            c.fail("gave-up-early", pbt::strf("sendMail returned %d although everything came within the timeout\n", rc) + net.describe());
        if (!before && applied) c.label(rc == 0 ? "mail sent in spite of it" : "mail not sent");
    }
    cl.reset();
    bounded("destroyed");
    c.nontrivial = applied;
    cm::tidy(c);
}
namespace pbt {
Property property{"C08", "the stall was reached: a reply, a handshake, a connection or room to send was withheld or late", run, 28000, 250000};
}
