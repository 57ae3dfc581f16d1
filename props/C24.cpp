// C24: the C++ interface does exactly what the C interface does.
#include "script.h"
#include "values.h"
using namespace model;

struct Op { int kind; std::string text; unsigned num = 0; bool on = false; Cred cred; size_t msg = 0; };
static const char *op_names[] = {"setServerName", "setServerPort", "setBatchMode", "setCommandTimeout", "setCredentials", "setAcceptSelfSignedCert", "sendMail", "copy", "move", "assign", "move-assign", "setCredentials to its own"};

struct Shot { std::vector<std::string> lines; };

static std::string cred_text(const Cred &k) { return k.set ? pbt::strf("%d:", k.method) + k.user + "/" + k.pass : "none"; }

// Everything observable of the history, in order.
static std::vector<std::string> play(pbt::Src &r, Kind kind, Api api, const std::vector<Op> &ops, const std::vector<Msg> &msgs, const std::string &host, unsigned port, bool wild, unsigned *failed) {
    std::vector<std::string> out;
    sim::reset();
    Net net;
    std::vector<std::unique_ptr<script::Script>> scripts;
    net.conf = [&](size_t n, sim::Conn &) {
        srv::Conf f = conf_for(kind);
        if (!wild) return f;
        if (kind == kOpp && r.chance(1, 5)) f.ehlo = {"HELP"};
        if (r.chance(1, 6)) f.cert = static_cast<srv::Cert>(r.range(0, srv::kSelfSigned));
        if (r.chance(1, 4)) { static const std::vector<std::string> au{"AUTH LOGIN", "AUTH PLAIN", "AUTH XOAUTH2 LOGIN", "HELP"}; std::string a = r.pick(au); (kind == kPlain ? f.ehlo : f.ehlo_tls) = {a}; }
        if (r.chance(1, 3)) f.mail_form = static_cast<int>(r.range(0, 2));
        if (r.chance(1, 8)) f.auth = [](const std::string &, const std::string &, const std::string &) { return 535; };
        if (!r.chance(1, 3)) return f;
        scripts.emplace_back(new script::Script);
        auto *sc = scripts.back().get();
        sc->src = &r;
        sc->dev.push_back(script::gen(r, script::steps_of(kind, true, 1), 2));
        sc->last_line = [&net, n]() { return net.servers.size() <= n || net.servers[n]->cmds.empty() ? std::string() : net.servers[n]->cmds.back().line; };
        f.on_step = [sc](srv::Step st, int nth, srv::Reply &x) { return sc->apply(st, nth, x); };
        return f;
    };
    net.tweak = [&](size_t, sim::ConnPlan &p) { if (wild && r.chance(1, 12)) { if (r.chance(1, 2)) p.connect_errno = ECONNREFUSED; else p.connect_delay = -1; } };
    net.install();
    sim::World &w = sim::w();
    w.resolve = [](const std::string &h, std::string &a) { if (h.find("nowhere") != std::string::npos) return false; a = std::string("\x0a\x00\x00\x01", 4); return true; };
    auto cl = make_client(kind, api, host, port);
    auto observe = [&](const std::string &what) {
        out.push_back(what + ": server " + cl->server() + pbt::strf(" port %u batch %d timeout %u accept %d credentials ", cl->port(), cl->batch(), cl->timeout(), cl->accept_self_signed()) + cred_text(cl->cred()));
    };
    observe("constructed");
    for (auto &o : ops) {
        std::string what = op_names[o.kind];
        switch (o.kind) {
        case 0: try { cl->set_server(o.text); } catch (const std::invalid_argument &e) { what += std::string(" throws ") + e.what(); } break;
        case 1: cl->set_port(o.num); break;
        case 2: cl->set_batch(o.on); break;
        case 3: cl->set_timeout(o.num); break;
        case 4: cl->set_cred(o.cred); break;
        case 5: cl->set_accept_self_signed(o.on); break;
        case 6: {
            int64_t t0 = w.now;
            int rc = cl->send(msgs[o.msg]);
            if (rc) ++*failed;
            what += pbt::strf(" -> %d after %lld us; log: ", rc, static_cast<long long>(w.now - t0)) + cl->log();
            break;
        }
        case 7: cl = cl->copy(); break;
        case 8: cl = cl->move(); break;
        case 9: { auto x = make_client(kind, api, "other.example.com", 25); x->assign(*cl); cl = std::move(x); break; }
        case 10: { auto x = make_client(kind, api, "other.example.com", 25); x->assign_move(*cl); cl = std::move(x); break; }
        default: cl->self_alias_set_cred(); cl->self_alias_set_server();
        }
        observe(what);
    }
    out.push_back("log: " + cl->log());
    cl.reset();
    for (auto &x : w.resolved) out.push_back("looked up " + x);
    for (size_t i = 0; i < net.servers.size(); i++) {
        auto &v = *net.servers[i];
        out.push_back(pbt::strf("connection %zu, port %d, ", i, v.conn ? v.conn->port : 0) + (v.tls_done ? "TLS" : "no TLS"));
        std::string wire = v.app_in;
        for (size_t a = 0; a < wire.size();) { size_t e = wire.find("\r\n", a); if (e == std::string::npos) e = wire.size(); out.push_back("wire: " + wire.substr(a, e - a)); a = e + 2; }
        if (v.tls_done) { std::string p = v.plain_in; out.push_back("before TLS: " + (p.size() > 200 ? p.substr(0, 200) : p)); }
    }
    out.push_back(pbt::strf("%d connections open", sim::open_fds()));
    if (w.hang) out.push_back("hang in " + w.hang_where);
    return out;
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    Kind kind = static_cast<Kind>(s.weighted({3, 2, 2}));
    c.label(std::string(kind_names[kind]) + " client");
    c.d(std::string(kind_names[kind]) + "; ");
    bool wild = s.chance(2, 3);
    static const std::vector<std::string> hosts{"mail.example.com", "smtp2.example.org", " mail.example.com ", "nowhere.example.com", "a"};
    std::string host = hosts[s.weighted({8, 1, 1, 1, 1})];
    unsigned port = static_cast<unsigned>(s.range(1, 65535));
    std::vector<Msg> msgs;
    std::vector<Op> ops;
    size_t n = static_cast<size_t>(s.range(1, c.tier ? 14 : 9));
    for (size_t i = 0; i < n; i++) {
        Op o;
        o.kind = static_cast<int>(s.weighted({1, 1, 3, 2, 4, 2, 10, 1, 1, 1, 1, 1}));
        switch (o.kind) {
        case 0: o.text = s.chance(1, 6) ? "  " : s.pick(hosts); break;
        case 1: o.num = static_cast<unsigned>(s.range(0, 65535)); break;
        case 3: o.num = static_cast<unsigned>(s.range(1, 30)); break;
        case 4: o.cred = cm::gen_cred(s, 60); break;
        case 2: case 5: o.on = s.chance(1, 2); break;
        case 6: {
            MsgOpts m; m.allow_no_to = false; m.wild_names = s.chance(1, 2); m.wild_body = s.chance(1, 2); m.max_atts = s.chance(1, 3) ? 3 : 0; m.max_rcpt = 3; m.big_lists = s.chance(1, 2); m.max_file = 500; m.max_body = s.chance(1, 6) ? 5000 : 400;
            o.msg = msgs.size();
            msgs.push_back(gen_msg(s, c, m));
            c.label(msgs.back().html ? "html" : "plain text");
            // the message objects report the same
            val::Obs a, b;
            with_message(msgs.back(), kC, [&](const jed_utils::Message &j) { a = val::obs(j); });
            with_message(msgs.back(), kCpp, [&](const jed_utils::Message &j) { b = val::obs(j); });
            if (a != b) val::same(c, b, a, "the message made through the C++ interface");
            break;
        }
        default: break;
        }
        ops.push_back(o);
        c.d(std::string(op_names[o.kind]) + (o.kind == 6 ? " " + show(msgs.back()).substr(0, 160) : o.kind == 4 ? " " + pbt::esc(cred_text(o.cred), 60) : "") + "; ");
    }
    std::vector<uint8_t> buf(wild ? static_cast<size_t>(s.range(10, 200)) : 1);
    for (auto &x : buf) x = s.byte();
    std::vector<std::string> t[2];
    unsigned failed = 0;
    for (int a = 0; a < 2; a++) {
        pbt::Src r(pbt::Src::kReplay, 0, buf.data(), buf.size(), nullptr, 0, nullptr);
        t[a] = play(r, kind, static_cast<Api>(a), ops, msgs, host, port, wild, &failed);
    }
    sim::reset();
    if (!msgs.empty()) c.nontrivial = true;
    if (failed) c.label("failed mail");
    for (size_t i = 0; i < t[0].size() || i < t[1].size(); i++) {
        std::string x = i < t[0].size() ? t[0][i] : "(nothing)", y = i < t[1].size() ? t[1][i] : "(nothing)";
        if (x == y) continue;
        size_t d = 0;
        while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
        d = d > 60 ? d - 60 : 0;
        std::string before;
        for (size_t k = i > 6 ? i - 6 : 0; k < i; k++) before += pbt::esc(t[0][k], 200) + "\n";
        c.fail("different", "after\n" + before + "the C interface gives\n" + pbt::esc(x.substr(d), 600) + "\nthe C++ interface gives\n" + pbt::esc(y.substr(d), 600));
    }
}
namespace pbt {
Property property{"C24", "at least one mail was sent through both interfaces", run, 11000, 120000};
}
