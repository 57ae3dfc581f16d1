// C16: connections, TLS state and memory are released exactly once.
#include <dirent.h>
#include <malloc.h>
#include <stdexcept>
#include "script.h"
#include "values.h"
using namespace model;

static int real_fds() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
    return n;
}
struct Outcome { unsigned ops = 0, sends = 0, failed = 0, shared = 0; };

static Outcome clients(pbt::Src &r, pbt::Ctx &c, bool first, cm::Who who) {
    Outcome out;
    auto say = [&](const std::string &t) { if (first) c.d(t); };
    Net net;
    net.conf = [&](size_t n, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        if (who.kind == kOpp && r.chance(1, 5)) f.ehlo = {"HELP"};
        if (!r.chance(1, 2)) return f;
        switch (r.weighted({5, 1, 1, 1, 1, 1})) {
        case 0: {
            auto sc = std::make_shared<script::Script>();
            sc->src = &r;
            sc->dev.push_back(script::gen(r, script::steps_of(who.kind, true, 1), 2));
            if (first) c.d(pbt::strf("[conn %zu: ", n) + script::show(sc->dev) + "] ");
            f.on_step = [sc](srv::Step st, int nth, srv::Reply &x) { return sc->apply(st, nth, x); };
            break;
        }
        case 1: f.tls_mode = static_cast<srv::Conf::TlsMode>(r.range(1, 5)); say(pbt::strf("[conn %zu: TLS fails] ", n)); break;
        case 2: f.cert = static_cast<srv::Cert>(r.range(1, srv::kCertCount - 1)); say(pbt::strf("[conn %zu: certificate %s] ", n, srv::cert_names[f.cert])); break;
        case 3: f.auth = [](const std::string &, const std::string &, const std::string &) { return 535; }; break;
        case 4: f.raw_ehlo_tls = f.raw_ehlo = "250 mail.example.com\r\n"; break;
        default: f.inject_after_starttls = "250 x\r\n";
        }
        return f;
    };
    net.tweak = [&](size_t, sim::ConnPlan &p) {
        switch (r.weighted({12, 1, 1, 1})) {
        case 1: p.connect_errno = ECONNREFUSED; break;
        case 2: p.so_error = ECONNREFUSED; break;
        case 3: p.connect_delay = -1; break;
        default: break;
        }
    };
    net.install();
    sim::World &w = sim::w();
    w.keep_trace = false;
    w.resolve = [](const std::string &h, std::string &a) { if (h.find("nowhere") != std::string::npos) return false; a = std::string("\x0a\x00\x00\x01", 4); return true; };
    if (r.chance(1, 10)) { w.zero_free = true; say("[descriptor 0 is free] "); }
    struct Slot { std::unique_ptr<Client> o; bool moved = false; };
    Slot slot[3];
    std::map<int, int> owner;                 // connection -> slot
    auto open_of = [&](int i) { int n = 0; for (auto &x : w.conns) if (!x->closed && owner.count(x->id) && owner[x->id] == i) n++; return n; };
    auto others = [&](int i) { std::set<int> o; for (auto &x : w.conns) if (!x->closed && !(owner.count(x->id) && owner[x->id] == i)) o.insert(x->id); return o; };
    auto released = [&](int i, const char *what) {
        if (open_of(i)) c.fail("not-released", std::string(what) + " left a connection of the client open\n" + net.describe());
    };
    auto check = [&](const char *what) {
        if (!w.foreign.empty()) c.fail("foreign-descriptor", std::string(what) + ": " + w.foreign[0]);
        if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
    };
    size_t n = 2 + r.index(12);
    for (size_t k = 0; k < n; k++) {
        int i = static_cast<int>(r.index(3)), j = static_cast<int>(r.index(3));
        if (i == j) j = (i + 1) % 3;
        Slot &a = slot[i], &b = slot[j];
        std::set<int> rest = others(i);
        const char *op = "";
        switch (r.weighted({3, 8, 2, 2, 3, 3, 2, 4, 1, 1})) {
        case 0: a.o = cm::make(who, r.chance(1, 12) ? "nowhere.example" : "mail.example.com"); a.moved = false; released(i, "replacing"); op = "new"; if (r.chance(1, 2)) { a.o->set_batch(true); op = "new batch"; } a.o->set_timeout(1); break;
        case 1: {
            if (!a.o) { a.o = cm::make(who); a.o->set_timeout(1); a.moved = false; a.o->set_batch(r.chance(1, 2)); }
            if (a.moved) continue;
            Msg m = simple_msg();
            if (r.chance(1, 3)) {
                MsgOpts mo;
                mo.max_rcpt = 3; mo.max_atts = 3; mo.max_body = 1500; mo.max_file = 1500; mo.wild_names = mo.wild_body = true; mo.allow_no_to = true;
                m = gen_msg(r, c, mo);
                if (!m.atts.empty() && r.chance(1, 4)) m.atts[r.index(m.atts.size())].path = c.scratch + (r.chance(1, 2) ? "/missing" : "");
            }
            if (r.chance(1, 4)) m.cc.push_back(Addr{"C", "cc@example.com"});
            if (r.chance(1, 6)) m.body = std::string(static_cast<size_t>(r.range(1, 4000)), 'x');
            if (r.chance(1, 4)) { Att t; t.path = c.scratch + "/att.txt"; t.name = "att.txt"; write_file(t.path, r.chance(1, 4) ? "" : "attachment content"); m.atts.push_back(t); m.atts.push_back(t); }
            m.single_ctor = m.single_ctor && m.to.size() == 1 && m.cc.size() <= 1 && m.bcc.size() <= 1;
            size_t before = w.conns.size();
            int rc = a.o->send(m);
            for (size_t x = before; x < w.conns.size(); x++) owner[w.conns[x]->id] = i;
            out.sends++;
            if (rc) out.failed++;
            if (open_of(i) > 1) c.fail("not-released", "one client holds several connections\n" + net.describe());
            if (first) c.d(pbt::strf("send(%d)->%d ", i, rc));
            op = "send";
            break;
        }
        case 2: if (!b.o || b.moved) continue; { auto x = b.o->copy(); if (open_of(j)) out.shared++; a.o.reset(); released(i, "destroying"); a.o = std::move(x); a.moved = false; } op = "copy"; break;
        case 3:
            if (!b.o || b.moved) continue;
            { auto x = b.o->move(); b.moved = true; if (open_of(j)) out.shared++; a.o.reset(); released(i, "destroying"); for (auto &p : owner) if (p.second == j) p.second = i; a.o = std::move(x); a.moved = false; }
            op = "move"; break;
        case 4: if (!a.o || !b.o || b.moved) continue; if (open_of(i) || open_of(j)) out.shared++; a.o->assign(*b.o); a.moved = false; released(i, "assigning over"); op = "assign"; break;
        case 5: if (!a.o || !b.o || b.moved) continue; if (open_of(i) || open_of(j)) out.shared++; a.o->assign_move(*b.o); b.moved = true; a.moved = false; released(i, "move-assigning over"); for (auto &p : owner) if (p.second == j) p.second = i; op = "move-assign"; break;
        case 6: if (!a.o) continue; a.o.reset(); released(i, "destroying"); op = "destroy"; break;
        case 7:
            if (!a.o || a.moved) continue;
            switch (r.range(0, 4)) {
            case 0: { Cred q; q.set = true; q.user = "user"; q.pass = "pass"; q.method = static_cast<int>(r.range(0, 3)); a.o->set_cred(q); op = "credentials"; break; }
            case 1: a.o->set_batch(r.chance(1, 2)); op = "batch"; break;
            case 2: a.o->set_accept_self_signed(r.chance(1, 2)); op = "self-signed"; break;
            case 3: a.o->set_server("mail2.example.com"); op = "server"; break;
            default: a.o->self_alias_set_server(); a.o->self_alias_set_cred(); op = "self settings";
            }
            break;
        case 8: if (!a.o || a.moved) continue; { Client &self = *a.o; if (open_of(i)) out.shared++; int was = open_of(i); a.o->assign(self); if (open_of(i) != was) c.fail("not-released", "self-assignment closed the connection"); } op = "self-assign"; break;
        default:
            try { auto x = cm::make(who, "  "); } catch (const std::exception &) {}
            try { if (a.o && !a.moved) a.o->set_server(""); } catch (const std::exception &) {}
            try { jed_utils::MessageAddress x("bad"); } catch (const std::exception &) {}
            try { jed_utils::Attachment x(" ", "n"); } catch (const std::exception &) {}
            try { jed_utils::Credential x("", "p"); } catch (const std::exception &) {}
            try { jed_utils::Credential x("user", ""); } catch (const std::exception &) {}
            try { jed_utils::cpp::PlaintextMessage x(jed_utils::cpp::MessageAddress("a@b.co"), {}, "s", "b"); } catch (const std::exception &) {}
            try { jed_utils::cpp::Attachment x("", "n"); } catch (const std::exception &) {}
            try { jed_utils::cpp::Credential x(" ", "n"); } catch (const std::exception &) {}
            op = "invalid arguments";
        }
        out.ops++;
        if (first) c.d(pbt::strf("%s(%d,%d) ", op, i, j));
        check(op);
        for (int id : rest) if (w.conns[static_cast<size_t>(id)]->closed) {
            // a moved connection may go with its new owner only
            c.fail("closed-early", std::string(op) + " closed a connection that belongs to another client\n" + net.describe());
        }
    }
    for (int i = 2; i >= 0; i--) { slot[i].o.reset(); released(i, "destroying"); check("destroy"); }
    if (sim::open_fds()) c.fail("descriptor-leak", std::to_string(sim::open_fds()) + " connections open after every client was destroyed\n" + net.describe());
    return out;
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    bool values = s.chance(1, 4);
    cm::Who who;
    if (!values) who = cm::gen_who(s, c, {3, 2, 2});
    std::vector<uint8_t> buf(static_cast<size_t>(s.range(30, 500)));
    for (auto &x : buf) x = s.byte();
    const int rounds = 6;
    int64_t blocks[rounds], bytes[rounds];
    int fds[rounds];
    for (int k = 0; k < rounds; k++) {
        sim::reset();
        {
            pbt::Ctx quiet;
            quiet.scratch = c.scratch;
            pbt::Src r(pbt::Src::kReplay, 0, buf.data(), buf.size(), nullptr, 0, nullptr);
            if (values) {
                auto st = val::any_history(r, k == 0 ? c : quiet, 25);
                if (k == 0 && (st.assigns || st.moves)) c.nontrivial = true;
            } else {
                Outcome o = clients(r, k == 0 ? c : quiet, k == 0, who);
                if (k == 0) {
                    c.nontrivial = o.failed > 0 || o.shared > 0;
                    if (o.shared) c.label("copied, moved or assigned while connected");
                    if (o.failed) c.label("failed mail");
                    if (o.sends) c.label("mail sent");
                }
            }
        }
        sim::reset();
        blocks[k] = sim::heap().blocks; bytes[k] = sim::heap().bytes; fds[k] = real_fds();
    }
    bool grow = true, fdgrow = true;
    for (int k = 2; k < rounds; k++) { if (blocks[k] <= blocks[k - 1]) grow = false; if (fds[k] <= fds[k - 1]) fdgrow = false; }
    if (grow) c.fail("memory-leak", pbt::strf("every repetition of this history leaves %lld more blocks (%lld bytes) of memory in use", static_cast<long long>(blocks[rounds - 1] - blocks[rounds - 2]), static_cast<long long>(bytes[rounds - 1] - bytes[rounds - 2])));
    if (fdgrow) c.fail("descriptor-leak", "every repetition of this history leaves more descriptors open");
}
namespace pbt {
Property property{"C16", "a mail failed, a client was copied, moved or assigned while connected, or value objects were assigned or moved", run, 5500, 60000};
}
