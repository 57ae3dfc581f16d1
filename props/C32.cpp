// C32: the client goes on as soon as what it waits for has happened.
#include "script.h"
using namespace model;
using sim::Fault;

static void run(pbt::Src &s, pbt::Ctx &c) {
    const int64_t kTolerance = 60000;              // microseconds for each thing the client does
    cm::Who who = cm::gen_who(s, c, {3, 3, 3});
    bool opp_tls = who.kind != kOpp || !s.chance(1, 4), batch = s.chance(1, 3);
    Cred k;
    k.set = s.chance(1, 2); k.user = "user"; k.pass = "pass word"; k.method = static_cast<int>(s.weighted({2, 1, 2, 1}));
    static const std::vector<int64_t> limits{1, 2, 3, 5, 8, 30, 60, 300, 4000, 100000};
    const int64_t T = s.pick(limits), most = std::min<int64_t>(T * 1000 - 200, s.chance(1, 8) ? 50000 : 4000);      // longest delay, in ms
    size_t mails = static_cast<size_t>(s.range(1, batch ? 4 : 2));
    auto steps = script::steps_of(who.kind, k.set, k.method ? k.method : 1, opp_tls);
    struct Plan { Msg m; std::vector<script::Deviation> dev; int idle = 0; int64_t pause = 0; };
    std::vector<Plan> plan(mails);
    for (size_t i = 0; i < mails; i++) {
        MsgOpts o;
        o.max_rcpt = 3; o.max_body = s.chance(1, 6) ? 6000 : 200; o.max_atts = s.chance(1, 8) ? 2 : 0; o.max_file = s.chance(1, 4) ? 6000 : 200;
        plan[i].m = gen_msg(s, c, o);
        if (s.chance(2, 3)) for (int64_t n = s.range(1, 2); n > 0; n--) {
            script::Deviation d = script::gen(s, steps, all_rcpts(plan[i].m).size());
            if (d.what == script::kSilent) d.what = script::kClose;
            if (d.what == script::kMalformed) d.what = script::kGoodVariant;
            plan[i].dev.push_back(d);
        }
        if (i && s.chance(1, 8)) plan[i].idle = static_cast<int>(s.range(1, 2));
        if (i && s.chance(1, 4)) plan[i].pause = s.range(1, 100000) * 1000;
    }
    const unsigned slow = s.weighted({2, 3, 2});   // how often something takes time
    auto delay = [&]() { return slow && s.chance(slow, 3) ? s.chance(1, 3) ? s.range(0, 1000) : s.range(0, most * 1000) : int64_t{0}; };
    const bool cuts = s.chance(1, 3), tls_cuts = !cuts && who.kind != kPlain && s.chance(1, 3);      // instead of replies that come late in one piece
    c.d(pbt::strf("timeout %lld s; %s%s%s; ", static_cast<long long>(T), batch ? "batch; " : "", opp_tls ? "" : "no STARTTLS; ", k.set ? "credentials" : ""));
    script::Script sc;
    sc.src = &s;
    int nth[srv::kSteps] = {0};
    Net net;
    net.conf = [&](size_t, sim::Conn &q) {
        srv::Conf f = conf_for(who.kind);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        f.handshake_delay = delay() / 4;
        if (s.chance(1, 8)) {                      // no room to send for a while
            int64_t d = s.range(1, most * 1000);
            q.window = s.range(0, s.chance(1, 2) ? 300 : 5000);
            q.window_reopen = sim::w().now + d;
            sim::w().arrivals.push_back(q.window_reopen);
            c.label("stops reading for a while");
            c.d(pbt::strf("stops reading after %lld bytes for %lld ms; ", static_cast<long long>(q.window), static_cast<long long>(d / 1000)));
        }
        f.on_step = [&](srv::Step st, int, srv::Reply &r) {
            auto &sv = *net.servers.back();
            sc.last_line = [&sv]() { return sv.cmds.empty() ? std::string() : sv.cmds.back().line; };
            sc.apply(st, nth[st]++, r);
            if (!cuts && !tls_cuts) r.delay = delay();
            return true;
        };
        if (cuts) f.cut = [&](const std::string &b) { return cm::cut(s, b, 5, most * 1000); };
        if (tls_cuts) f.cut_cipher = [&](const std::string &b) { return cm::cut(s, b, 4, most * 250); };
        return f;
    };
    int refused = static_cast<int>(s.weighted({12, 1, 1, 1, 1}));
    std::vector<std::pair<int64_t, std::string>> marks;                      // what the client did besides writing and closing
    net.tweak = [&](size_t n, sim::ConnPlan &p) {
        marks.emplace_back(sim::w().now, "attempt to connect");
        p.connect_delay = delay();
        if (n) return;
        if (refused == 1) p.connect_errno = ECONNREFUSED;
        if (refused == 2) p.so_error = EHOSTUNREACH;
        if (refused == 3) p.immediate = true;
    };
    net.install();
    sim::World &w = sim::w();
    if (refused == 4) w.resolve = [](const std::string &, std::string &) { return false; };
    static const char *how[] = {"", "connection refused; ", "connection fails later; ", "connected at once; ", "unknown name; "};
    c.d(how[refused]);
    if (s.chance(1, 4)) for (int64_t n = s.range(1, 6); n > 0; n--) {        // interrupted and partial calls
        static const std::vector<sim::Call> calls{sim::kSend, sim::kRecv, sim::kWait};
        sim::Call call = s.pick(calls);
        Fault f;
        if (call == sim::kWait) { f.err = EINTR; f.partial = 0; }
        else if (s.chance(2, 3)) f.partial = s.range(1, 60);
        else f.err = s.chance(1, 2) ? EINTR : EAGAIN;
        int at = static_cast<int>(s.index(30));
        w.faults[{call, at}] = f;
        c.d(std::string(sim::call_names[call]) + pbt::strf("#%d interrupted; ", at));
        c.label("interrupted calls");
    }
    auto cl = cm::make(who);
    cl->set_timeout(static_cast<unsigned>(T));
    cl->set_batch(batch);
    if (k.set) cl->set_cred(k);
    for (size_t i = 0; i < mails; i++) {
        sc.dev = plan[i].dev; sc.said.clear();
        for (int &x : nth) x = 0;
        if (plan[i].pause) sim::advance(plan[i].pause);
        if (plan[i].idle && sim::open_fds()) { auto &q = *net.servers.back()->conn; if (plan[i].idle == 1) q.deliver_fin(); else q.deliver_rst(); sim::advance(1000); }
        w.arrivals.push_back(w.now);                                         // the call itself
        int rc = cl->send(plan[i].m);
        marks.emplace_back(w.now, pbt::strf("return from sendMail %zu with %d", i + 1, rc));
        c.d(pbt::strf("mail %zu: ", i + 1) + script::show(plan[i].dev) + pbt::strf(" -> %d; ", rc));
        c.label(rc == 0 ? "sent" : "not sent");
        if (i && s.chance(1, 10)) {
            w.arrivals.push_back(w.now);
            bool copy = s.chance(1, 2);
            auto x = copy ? cl->copy() : cl->move();
            cl = std::move(x);
            marks.emplace_back(w.now, copy ? "end of copying" : "end of moving");
        }
    }
    w.arrivals.push_back(w.now);
    cl.reset();
    marks.emplace_back(w.now, "end of the destruction");
    if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
    std::vector<int64_t> when = w.arrivals;
    std::sort(when.begin(), when.end());
    for (auto &e : w.trace) {
        if (e.kind == 'W') marks.emplace_back(e.at, "sending of \"" + pbt::esc(e.bytes, 40) + "\"");
        if (e.kind == 'X') marks.emplace_back(e.at, "closing of the connection");
    }
    std::stable_sort(marks.begin(), marks.end(), [](const std::pair<int64_t, std::string> &a, const std::pair<int64_t, std::string> &b) { return a.first < b.first; });
    int64_t before = 0;
    bool waited = false;
    for (auto &m : marks) {
        auto it = std::upper_bound(when.begin(), when.end(), m.first);
        int64_t cause = it == when.begin() ? 0 : *(it - 1);
        if (cause > before + 1000) waited = true;
        int64_t lost = m.first - std::max(before, cause);
        if (lost > kTolerance) c.fail("time-lost", pbt::strf("%.3f s passed without need before the ", static_cast<double>(lost) / 1e6) + m.second + "\n" + net.describe());
        before = m.first;
    }
    c.nontrivial = waited;
    cm::tidy(c);
}
namespace pbt {
Property property{"C32", "the client had to wait for something that came later than the call", run, 16000, 160000};
}
