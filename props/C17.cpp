// C17: batch mode uses one connection, normal mode one per mail, and mails never mix.
#include "script.h"
using namespace model;

struct Plan { std::vector<script::Deviation> dev; int late = -1; int connect = 0; int idle = 0; bool batch = false; int64_t pause = 0; };
struct Done { Msg m; bool fresh = false; srv::Mail got; std::vector<std::string> cmds; };

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c);
    bool opp_tls = who.kind != kOpp || !s.chance(1, 4);
    Cred k;
    k.set = s.chance(1, 2); k.user = "user@example.com"; k.pass = "pass word"; k.method = static_cast<int>(s.weighted({2, 2, 3, 2}));
    unsigned timeout = static_cast<unsigned>(s.range(1, 4));
    bool lengthy = s.chance(1, 200);               // a long history of small mails, past the sizes of small counters and tables
    bool bulky = !lengthy && s.chance(1, 60);      // much text over one connection
    size_t n = static_cast<size_t>(lengthy ? s.range(15, 280) : s.range(2, c.tier ? 9 : 6));
    auto steps = script::steps_of(who.kind, k.set, k.method ? k.method : 1, opp_tls);
    std::vector<Plan> plan(n);
    std::vector<Msg> msgs;
    bool batch = s.chance(2, 3);
    unsigned noise = lengthy ? 0 : s.weighted({2, 3, 3});         // how often mails go wrong
    for (size_t i = 0; i < n; i++) {
        if (lengthy) {
            Msg x = simple_msg();
            x.body = "text " + std::to_string(i) + "\r\n.end"; x.to[0].email = "r" + std::to_string(i) + "@example.com";
            msgs.push_back(x);
            plan[i].batch = batch;
            if (s.chance(1, 60)) batch = !batch;
            if (i && s.chance(1, 80)) plan[i].idle = static_cast<int>(s.range(1, 3));
            continue;
        }
        MsgOpts o;
        o.max_rcpt = 3; o.big_lists = s.chance(1, 6); o.max_body = s.chance(1, 6) ? 2500 : 200; o.wild_body = s.chance(1, 3); o.max_atts = s.chance(1, 6) ? 2 : 0; o.max_file = 600;
        msgs.push_back(gen_msg(s, c, o));
        if (bulky) { std::string line = gen_word(s, 60) + "\r\n"; for (int64_t k = s.range(200, 3000); k > 0; k--) msgs.back().body += "\r\n" + std::to_string(k) + line; while (!msgs.back().body.empty() && (msgs.back().body.back() == '\n' || msgs.back().body.back() == '\r')) msgs.back().body.pop_back(); }
        Plan &p = plan[i];
        if (i && s.chance(1, 5)) batch = !batch;
        p.batch = batch;
        p.pause = s.chance(1, 3) ? s.range(0, 600) * 1000000 : 0;
        if (i && s.chance(1, 10)) p.idle = static_cast<int>(s.range(1, 3));
        if (!noise || !s.chance(noise, 4)) continue;
        switch (s.weighted({8, 1, 1})) {
        case 0: p.dev.push_back(script::gen(s, steps, all_rcpts(msgs[i]).size())); if (s.chance(1, 4)) p.dev.push_back(script::gen(s, steps, all_rcpts(msgs[i]).size()));
            if (s.chance(1, 10)) { p.dev.clear(); for (int x = 0; x < 3; x++) p.dev.push_back({srv::MAIL, x, script::kRefuse, 501, ""}); }      // no spelling of the sender will do
            break;
        case 1: p.connect = static_cast<int>(s.range(1, 4)); break;
        default: p.late = static_cast<int>(s.pick(steps)); break;
        }
    }
    static const char *idles[] = {"", "closes", "resets", "says 421 and closes"};
    static const char *conns[] = {"", "refused", "error", "never", "unresolved"};
    if (lengthy) c.label("long history");
    if (bulky) c.label("much text");
    c.d(pbt::strf("timeout %u; ", timeout) + (k.set ? pbt::strf("credentials method %d; ", k.method) : "") + (opp_tls ? "" : "no STARTTLS; "));

    size_t cur = 0;                                // the mail being sent
    int nth[srv::kSteps] = {0};
    bool touched = false;
    script::Script sc;
    sc.src = &s;
    Net net;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"};
        f.on_step = [&](srv::Step st, int, srv::Reply &r) {
            auto &sv = *net.servers.back();
            sc.last_line = [&sv]() { return sv.cmds.empty() ? std::string() : sv.cmds.back().line; };
            size_t before = sc.said.size();
            int at = nth[st]++;
            if (plan[cur].late == st && at == 0) { r.delay = static_cast<int64_t>(timeout) * 1000000 + 1500000; touched = true; return true; }
            sc.apply(st, at, r);
            for (size_t x = before; x < sc.said.size(); x++) if (sc.said[x].deviates && sc.said[x].what != script::kGoodVariant) touched = true;
            return true;
        };
        return f;
    };
    net.tweak = [&](size_t, sim::ConnPlan &p) {
        switch (plan[cur].connect) {
        case 1: p.connect_errno = ECONNREFUSED; touched = true; break;
        case 2: p.so_error = ECONNREFUSED; touched = true; break;
        case 3: p.connect_delay = -1; touched = true; break;
        default: break;
        }
    };
    net.install();
    sim::World &w = sim::w();
    w.resolve = [&](const std::string &, std::string &a) { if (plan[cur].connect == 4) { touched = true; return false; } a = std::string("\x0a\x00\x00\x01", 4); return true; };
    auto cl = cm::make(who);
    cl->set_timeout(timeout);
    if (k.set) cl->set_cred(k);
    std::vector<Done> done;
    std::map<size_t, std::vector<size_t>> on;      // connection -> mails that used it
    std::map<size_t, bool> healthy_at_end;
    for (size_t i = 0; i < n; i++) {
        const Plan &p = plan[i];
        cur = i; touched = false; sc.dev = p.dev; sc.said.clear();
        for (int &x : nth) x = 0;
        cl->set_batch(p.batch);
        bool open = sim::open_fds() > 0;
        if (p.pause) sim::advance(p.pause);
        if (p.idle && open) {
            auto &q = *net.servers.back()->conn;
            if (p.idle == 3 && !net.servers.back()->tls_done) q.deliver("421 timeout\r\n");
            if (p.idle == 2) q.deliver_rst(); else q.deliver_fin();
            sim::advance(1000);
        }
        bool stale = open && (net.servers.back()->conn->server_closed || net.servers.back()->conn->rst);
        size_t conns0 = net.servers.size(), acc0 = net.accepted().size(), cmds0 = open ? net.servers.back()->cmds.size() : 0;
        int rc = cl->send(msgs[i]);
        auto acc = net.accepted();
        if (cl->batch() != p.batch) c.fail("setting", pbt::strf("mail %zu (result %d) switched batch mode\n", i, rc) + net.describe());
        bool fresh = net.servers.size() > conns0;
        c.d(pbt::strf("mail %zu%s%s%s%s: ", i, p.batch ? " batch" : "", open ? " on open connection" : "", p.idle && open ? (std::string(" that the server ") + idles[p.idle]).c_str() : "", p.connect ? (std::string(" connect ") + conns[p.connect]).c_str() : "") +
            script::show(p.dev) + (p.late >= 0 ? std::string("late at ") + srv::step_names[p.late] : "") + pbt::strf(" -> %d; ", rc));
        std::string where = pbt::strf("mail %zu (result %d): ", i, rc);
        if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
        if (net.servers.size() > conns0 + 1) c.fail("connections", where + "opened several connections\n" + net.describe());
        if (rc != 0 && !touched && !stale) c.fail("not-sent", where + "failed although the server behaved well\n" + net.describe());
        if (rc == 0 && acc.size() != acc0 + 1) c.fail("mail-count", where + pbt::strf("the server accepted %zu mails meanwhile\n", acc.size() - acc0) + net.describe());
        if (acc.size() > acc0 + 1) c.fail("mail-count", where + pbt::strf("the server accepted %zu mails meanwhile\n", acc.size() - acc0) + net.describe());
        size_t conn = net.servers.size() - 1;
        if (fresh || open) on[conn].push_back(i);
        if (acc.size() > acc0) {
            std::string e = check_all(msgs[i], acc.back());
            if (!e.empty()) c.fail("mixed", where + e + "\n" + net.describe());
            if (rc == 0) {
                Done d; d.m = msgs[i]; d.fresh = fresh; d.got = acc.back(); d.cmds = cm::lines(net.servers[conn]->cmds, fresh ? 0 : cmds0);
                if (sc.said.end() != std::find_if(sc.said.begin(), sc.said.end(), [](const script::Said &x) { return x.step == srv::MAIL && x.code == 501; })) d.cmds.clear();   // the sender was spelled again
                done.push_back(d);
            }
        }
        if (open && !stale && p.batch && i && plan[i - 1].batch && fresh) c.fail("connection-not-kept", where + "opened a new connection although batch mode kept one\n" + net.describe());
        if (open && !fresh) {
            auto &cmds = net.servers[conn]->cmds;
            for (size_t x = cmds0; x < cmds.size(); x++) if (cmds[x].step == srv::EHLO || cmds[x].step == srv::EHLO_TLS || cmds[x].step == srv::AUTH || cmds[x].step == srv::STARTTLS) c.fail("repeated-opening", where + "sent \"" + pbt::esc(cmds[x].line, 80) + "\" on a connection that was already set up\n" + net.describe());
            c.label(rc ? "continued, failed" : "continued");
        }
        if (!p.batch && sim::open_fds()) c.fail("not-closed", where + "left a connection open outside batch mode\n" + net.describe());
        if (p.batch && rc == 0 && !net.servers[conn]->conn->closed) { c.label("kept open"); if (net.servers[conn]->quit) c.fail("quit-early", where + "sent QUIT and kept the connection\n" + net.describe()); }
        if (p.batch && rc == 0 && net.servers[conn]->conn->closed && !touched) c.fail("connection-not-kept", where + "closed its connection in batch mode\n" + net.describe());
        if (sim::open_fds() > 1) c.fail("connections", where + "several connections are open\n" + net.describe());
        if (rc == 0 && !p.batch && !net.servers[conn]->quit && !net.servers[conn]->conn->server_closed && !touched) c.fail("no-quit", where + "was not followed by QUIT\n" + net.describe());
        if (rc != 0) c.label("failed mail");
        if (i && (rc != 0 || p.batch != plan[i - 1].batch)) c.nontrivial = true;
        if (open && !fresh) c.nontrivial = true;
    }
    bool open = sim::open_fds() > 0;
    bool healthy = open && !net.servers.back()->conn->server_closed && !net.servers.back()->conn->rst;
    cur = n - 1; sc.dev.clear(); touched = false;
    cl.reset();
    if (open && healthy && plan[n - 1].batch && !net.servers.back()->quit) c.fail("no-quit", "no QUIT when the client was destroyed\n" + net.describe());
    for (size_t i = 0; i < net.servers.size(); i++) {
        auto &v = *net.servers[i];
        if (!v.conn) continue;                     // never connected
        size_t quits = 0;
        for (size_t x = 0; x < v.cmds.size(); x++) { if (v.cmds[x].step == srv::QUIT) quits++; else if (quits) c.fail("after-quit", pbt::strf("connection %zu: command after QUIT\n", i) + net.describe()); }
        if (quits > 1) c.fail("quit-twice", pbt::strf("connection %zu saw QUIT %zu times\n", i, quits) + net.describe());
        if (!v.conn->closed) c.fail("not-closed", pbt::strf("connection %zu was not closed\n", i) + net.describe());
        auto &ms = on[i];
        for (size_t x = 1; x < ms.size(); x++) if (!plan[ms[x - 1]].batch) c.fail("shared-connection", pbt::strf("mail %zu used the connection of mail %zu outside batch mode\n", ms[x], ms[x - 1]) + net.describe());
    }
    cm::tidy(c);
    // the same mails, each sent by a client of its own
    std::string history = net.describe();
    for (auto &d : done) {
        sim::reset();
        Net one;
        one.conf = [&](size_t, sim::Conn &) { srv::Conf f = conf_for(who.kind); if (!opp_tls) f.ehlo = {"SIZE 100000", "HELP"}; return f; };
        one.install();
        auto q = cm::make(who);
        if (k.set) q->set_cred(k);
        int rc = q->send(d.m);
        q.reset();
        auto a = one.accepted();
        if (rc != 0 || a.size() != 1) c.fail("reference", "a fresh client cannot send the mail\n" + one.describe());
        if (cm::canon(a[0]) != cm::canon(d.got)) c.fail("differs-from-fresh", "the mail differs from the one a fresh client sends:\n" + pbt::esc(cm::canon(d.got), 1500) + "\nfresh client:\n" + pbt::esc(cm::canon(a[0]), 1500) + "\n" + history);
        if (d.cmds.empty()) continue;
        auto ref = cm::lines(one.servers[0]->cmds, 0);
        if (!d.fresh) { size_t x = 0; while (x < ref.size() && ref[x].find("MAIL") == std::string::npos) x++; ref.erase(ref.begin(), ref.begin() + static_cast<long>(x)); }
        if (ref != d.cmds) c.fail("differs-from-fresh", "the commands differ from those of a fresh client:\n" + cm::to_str(d.cmds) + "fresh client:\n" + cm::to_str(ref) + history);
    }
}
namespace pbt {
Property property{"C17", "a mail continued an open connection, followed a failed mail, or batch mode was switched", run, 7500, 80000};
}
