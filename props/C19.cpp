// C19: a client keeps its settings through copy, move and assignment, and acts on them.
#include "common.h"
using namespace model;

struct Settings { std::string server; unsigned port = 587; bool batch = false, flag = false; unsigned timeout = 5; Cred cred; };
struct Slot { std::unique_ptr<Client> o; Settings set, opened; int conn = -1; bool moved = false, carried = false; };
struct Env { srv::Cert cert = srv::kTrusted; int step = -1; int64_t delay = 0; bool stuck = false; bool cred_ok = true; Cred accept; };
struct Done { Settings set; Env env; bool fresh; Msg m; int rc; std::vector<std::string> cmds; std::string got; int64_t took; };

static srv::Conf conf_of(Kind k, const Env &e) {
    srv::Conf f = conf_for(k);
    f.cert = e.cert;
    Cred want = e.accept;
    f.auth = [want](const std::string &, const std::string &u, const std::string &p) { return want.set && u == want.user && p == want.pass ? 235 : 535; };
    int step = e.step;
    if (step >= 0) f.on_step = [step, e](srv::Step st, int nth, srv::Reply &r) { if (st == step && nth == 0) { r.delay = e.delay; if (e.stuck) r.silent = true; } return true; };
    return f;
}
static std::string show(const Cred &k) { return k.set ? pbt::strf("%d:", k.method) + pbt::esc(k.user, 40) + "/" + pbt::esc(k.pass, 40) : "none"; }
static bool same(const Cred &a, const Cred &b) { return a.set == b.set && (!a.set || (a.user == b.user && a.pass == b.pass && a.method == b.method)); }
static std::string show(const Settings &x) { return pbt::esc(x.server, 60) + pbt::strf(":%u batch=%d timeout=%u accept=%d cred=", x.port, x.batch, x.timeout, x.flag) + show(x.cred); }

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {3, 2, 2});
    Env env;
    Net net;
    net.conf = [&](size_t, sim::Conn &) { return conf_of(who.kind, env); };
    net.install();
    sim::World &w = sim::w();
    Slot slot[3];
    const int N = 3;
    std::vector<Done> done;
    auto verify = [&](const char *op) {
        for (int i = 0; i < N; i++) {
            Slot &x = slot[i];
            if (!x.o || x.moved) continue;
            Settings g;
            g.server = x.o->server(); g.port = x.o->port(); g.batch = x.o->batch(); g.timeout = x.o->timeout(); g.flag = x.o->accept_self_signed(); g.cred = x.o->cred();
            bool ok = g.server == x.set.server && g.port == x.set.port && g.batch == x.set.batch && g.timeout == x.set.timeout && same(g.cred, x.set.cred) && (who.kind == kPlain || g.flag == x.set.flag);
            if (!ok) c.fail("settings", std::string("after ") + op + " client " + std::to_string(i) + " reports " + show(g) + ", expected " + show(x.set));
        }
    };
    static const std::vector<std::string> hosts{"mail.example.com", "smtp2.example.org", "a.co", "10.0.0.7"};
    auto gen_host = [&]() { return s.chance(1, 8) ? std::string(static_cast<size_t>(s.range(60, 260)), 'h') + ".example.com" : s.pick(hosts); };
    auto gen_timeout = [&]() {
        static const std::vector<unsigned> far{127, 128, 255, 256, 257, 3600, 32768, 65535, 65536, 65539, 86400, 131075, 1000000, 2000000};
        return s.chance(1, 10) ? s.pick(far) : static_cast<unsigned>(s.range(2, 40));
    };
    auto fill = [&](Slot &x) {
        x.o = cm::make(who, x.set.server, x.set.port); x.moved = false; x.conn = -1; x.carried = false;
        if (s.chance(2, 3)) { x.set.batch = true; x.o->set_batch(true); }
        if (s.chance(1, 3)) { x.set.cred = cm::gen_cred(s, 20); x.o->set_cred(x.set.cred); }
        if (s.chance(1, 3)) { x.set.timeout = gen_timeout(); x.o->set_timeout(x.set.timeout); }
        if (who.kind != kPlain && s.chance(1, 3)) { x.set.flag = true; x.o->set_accept_self_signed(true); }
    };
    auto open = [&](const Slot &x) { return x.conn >= 0 && !w.conns[static_cast<size_t>(x.conn)]->closed; };
    size_t n = static_cast<size_t>(s.range(4, c.tier ? 40 : 22));
    unsigned transfers = 0;
    for (size_t q = 0; q < n; q++) {
        int i = static_cast<int>(s.index(N)), j = static_cast<int>(s.index(N));
        if (i == j) j = (i + 1) % N;
        Slot &a = slot[i], &b = slot[j];
        std::string op;
        switch (s.weighted({2, 8, 10, 3, 3, 4, 4, 1, 1})) {
        case 0: { Settings f; f.server = gen_host(); f.port = static_cast<unsigned>(s.range(1, 65535)); a.o.reset(); a.set = f; fill(a); op = "construction of " + show(f); break; }
        case 1: {
            if (!a.o || a.moved) { Settings f; f.server = gen_host(); f.port = static_cast<unsigned>(s.range(1, 65535)); a.o.reset(); a.set = f; fill(a); }
            switch (s.range(0, 7)) {
            case 0: a.set.server = gen_host(); a.o->set_server(a.set.server); op = "setServerName"; break;
            case 1: a.set.port = static_cast<unsigned>(s.range(1, 65535)); a.o->set_port(a.set.port); op = "setServerPort"; break;
            case 2: a.set.batch = s.chance(2, 3); a.o->set_batch(a.set.batch); op = "setBatchMode"; break;
            case 3: a.set.timeout = gen_timeout(); if (s.chance(1, 8)) { static const std::vector<unsigned> ends{0, 1, 2147483, 2147484, 2147483647, 2147483648u, 4294967295u}; unsigned z = s.pick(ends); a.o->set_timeout(z); if (a.o->timeout() != z) c.fail("settings", pbt::strf("a timeout of %u is reported as %u", z, a.o->timeout())); }
                a.o->set_timeout(a.set.timeout); op = pbt::strf("setCommandTimeout(%u)", a.set.timeout); break;
            case 4: a.set.cred = cm::gen_cred(s, 40); a.o->set_cred(a.set.cred); op = "setCredentials " + show(a.set.cred); break;
            case 5: if (who.kind != kPlain) { a.set.flag = s.chance(1, 2); a.o->set_accept_self_signed(a.set.flag); op = "setAcceptSelfSignedCert"; } break;
            case 6: a.o->self_alias_set_server(); op = "setServerName to its own name"; break;
            default: a.o->self_alias_set_cred(); op = "setCredentials to its own credentials"; break;
            }
            break;
        }
        case 2: {
            if (!a.o || a.moved) continue;
            bool was_open = open(a);
            env = Env();
            if (who.kind != kPlain && s.chance(1, 4)) env.cert = srv::kSelfSigned;
            env.accept = a.set.cred;
            if (was_open) env.accept = a.opened.cred;
            if (s.chance(1, 10)) { env.accept.pass += "x"; }
            if (s.chance(1, 3)) {
                static const std::vector<int> st{srv::GREETING, srv::EHLO, srv::EHLO_TLS, srv::MAIL, srv::RCPT, srv::DATA, srv::EOD};
                env.step = s.pick(st);
                env.stuck = s.chance(1, 4);
                env.delay = s.range(0, static_cast<int64_t>(a.set.timeout) - 1) * 1000000;
            }
            MsgOpts o; o.max_rcpt = 2; o.max_body = 120; o.max_atts = s.chance(1, 10) ? 1 : 0; o.max_file = 200;
            Msg m = gen_msg(s, c, o);
            size_t conns = w.conns.size(), acc = net.accepted().size(), servers = net.servers.size(), resolved = w.resolved.size();
            std::vector<uint64_t> written;
            for (auto &x : w.conns) written.push_back(x->written);
            size_t cmds0 = was_open ? net.servers[static_cast<size_t>(a.conn)]->cmds.size() : 0;
            int64_t t0 = w.now;
            int rc = a.o->send(m);
            int64_t took = w.now - t0;
            op = pbt::strf("sendMail(%s%s%s%s) -> %d", srv::cert_names[env.cert], env.step >= 0 ? (std::string(", ") + (env.stuck ? "stuck at " : "slow at ") + srv::step_names[env.step]).c_str() : "", same(env.accept, a.set.cred) ? "" : ", other credentials", was_open ? ", open connection" : "", rc);
            bool fresh = w.conns.size() > conns;
            std::string where = op + " through client " + std::to_string(i) + " " + show(a.set) + ": ";
            if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
            if (w.conns.size() > conns + 1) c.fail("connections", where + "opened several connections");
            for (size_t x = 0; x < written.size(); x++) if (w.conns[x]->written != written[x] && !(was_open && static_cast<int>(x) == a.conn)) c.fail("shared-connection", where + pbt::strf("wrote to connection %zu, which is not its own\n", x) + net.describe());
            if (fresh) {
                sim::Conn &k = *w.conns.back();
                if (net.servers.size() != servers + 1) c.fail("connections", where + "no connection attempt");
                if (w.resolved.size() == resolved || w.resolved.back() != a.set.server) c.fail("server", where + "looked up \"" + pbt::esc(w.resolved.size() == resolved ? "" : w.resolved.back(), 60) + "\"");
                if (k.port != static_cast<int>(a.set.port)) c.fail("port", where + pbt::strf("connected to port %d", k.port));
                a.conn = k.id;
                a.opened = a.set;
            } else if (!was_open) c.fail("no-connection", where + "did not connect\n" + net.describe());
            a.opened.timeout = a.set.timeout; a.opened.batch = a.set.batch;
            auto got = net.accepted();
            if (rc == 0 && got.size() != acc + 1) c.fail("mail-count", where + pbt::strf("the server accepted %zu mails meanwhile\n", got.size() - acc) + net.describe());
            auto &sv = *net.servers[static_cast<size_t>(a.conn)];
            if (rc == 0 && (sv.mails.empty() || !sv.mails.back().accepted)) c.fail("mail", where + "the mail is not on its connection\n" + net.describe());
            if (rc == 0) { std::string e = check_all(m, sv.mails.back()); if (!e.empty()) c.fail("mail", where + e + "\n" + net.describe()); }
            if (fresh) for (auto &x : sv.auths) {
                if (!a.set.cred.set || x.user != a.set.cred.user || (x.mech != "XOAUTH2" && x.pass != a.set.cred.pass)) c.fail("credentials", where + "used the credentials " + pbt::esc(x.user, 60) + " / " + pbt::esc(x.pass, 60) + " (" + x.mech + ")");
                static const char *mechs[] = {"", "PLAIN", "LOGIN", "XOAUTH2"};
                if (a.set.cred.method && x.mech != mechs[a.set.cred.method]) c.fail("mechanism", where + "used " + x.mech);
            }
            int64_t lo = (static_cast<int64_t>(a.set.timeout) - 1) * 1000000, hi = (static_cast<int64_t>(a.set.timeout) + 2) * 1000000;
            if (env.stuck && rc != 0) {
                bool stuck_here = fresh && env.step == srv::GREETING && !(rc <= -50 && rc >= -58);
                for (size_t x = fresh ? 0 : cmds0; x < sv.cmds.size(); x++) if (sv.cmds[x].step == env.step && (x == 0 || sv.cmds[x - 1].step != env.step)) stuck_here = true;
                if (!fresh && env.step < srv::MAIL) stuck_here = false;
                if (stuck_here && (took < lo || took > hi)) c.fail("timeout", where + pbt::strf("gave up after %.1f s\n", static_cast<double>(took) / 1e6) + net.describe());
                if (stuck_here) c.label("waited for the timeout");
            }
            done.push_back(Done{a.opened, env, fresh, m, rc, cm::lines(sv.cmds, fresh ? 0 : cmds0), rc == 0 ? cm::canon(sv.mails.back()) : "", took});
            if (!open(a)) { a.conn = -1; a.carried = false; }
            if (transfers) c.nontrivial = true;
            c.label(rc ? "mail not sent" : fresh ? "mail sent" : "mail sent over an open connection");
            break;
        }
        case 3: if (!b.o || b.moved) continue; { auto x = b.o->copy(); if (open(b)) c.label("copy of a connected client"); a.o = std::move(x); a.set = b.set; a.moved = false; a.conn = -1; a.carried = false; } op = "copy"; transfers++; break;
        case 4: if (!b.o || b.moved) continue; { auto x = b.o->move(); if (open(b)) c.label("move of a connected client"); b.moved = true; a.o = std::move(x); a.set = b.set; a.opened = b.opened; a.conn = b.conn; b.conn = -1; a.moved = false; a.carried = true; } op = "move"; transfers++; break;
        case 5: if (!a.o || !b.o || b.moved) continue; if (open(a) || open(b)) c.label("assignment of connected clients"); a.o->assign(*b.o); a.set = b.set; a.moved = false; a.conn = -1; a.carried = false; op = "assignment"; transfers++; break;
        case 6: if (!a.o || !b.o || b.moved) continue; if (open(a) || open(b)) c.label("move assignment of connected clients"); a.o->assign_move(*b.o); b.moved = true; a.set = b.set; a.opened = b.opened; a.conn = b.conn; b.conn = -1; a.moved = false; a.carried = true; op = "move assignment"; transfers++; break;
        case 7: if (!a.o || a.moved) continue; { Client &self = *a.o; a.o->assign(self); } op = "self-assignment"; transfers++; break;
        default: a.o.reset(); a.conn = -1; op = "destruction"; break;
        }
        if (op.empty()) continue;
        c.d(pbt::strf("[%d,%d] %s; ", i, j, op.c_str()));
        verify(op.c_str());
    }
    for (auto &x : slot) x.o.reset();
    cm::tidy(c);
    std::string history = net.describe();
    size_t compared = 0;
    for (auto &d : done) {
        if (++compared > 12) break;
        sim::reset();
        Net one;
        one.conf = [&](size_t, sim::Conn &) { Env e = d.env; if (!d.fresh && d.env.step < srv::MAIL) e.step = -1; return conf_of(who.kind, e); };
        one.install();
        auto f = cm::make(who, d.set.server, d.set.port);
        f->set_batch(d.set.batch); f->set_timeout(d.set.timeout); f->set_accept_self_signed(d.set.flag);
        if (d.set.cred.set) f->set_cred(d.set.cred);
        int64_t t0 = sim::w().now;
        if (!d.fresh) continue;                     // what an open connection carries is judged by C17
        int rc = f->send(d.m);
        int64_t took = sim::w().now - t0;
        auto a = one.accepted();
        std::string got = a.empty() || rc ? "" : cm::canon(a.back());
        auto ref = one.servers.empty() ? std::vector<std::string>() : cm::lines(one.servers[0]->cmds, 0);
        f.reset();
        std::string where = "client " + show(d.set) + ": ";
        if (rc != d.rc) c.fail("differs-from-fresh", where + pbt::strf("result %d, a fresh client with the same settings: %d\n", d.rc, rc) + history + one.describe());
        if (got != d.got) c.fail("differs-from-fresh", where + "the mail differs from the one a fresh client sends\n" + pbt::esc(d.got, 1200) + "\nfresh:\n" + pbt::esc(got, 1200) + "\n");
        if (ref != d.cmds) c.fail("differs-from-fresh", where + "the commands differ from those of a fresh client:\n" + cm::to_str(d.cmds) + "fresh client:\n" + cm::to_str(ref));
        if (took - d.took > 2000000 || d.took - took > 2000000) c.fail("differs-from-fresh", where + pbt::strf("took %.1f s, a fresh client %.1f s\n", static_cast<double>(d.took) / 1e6, static_cast<double>(took) / 1e6));
    }
}
namespace pbt {
Property property{"C19", "a mail was sent after a client was copied, moved or assigned", run, 15000, 150000};
}
