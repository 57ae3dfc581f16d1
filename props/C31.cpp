// C31: a message can be sent any number of times, by any client, and stays as it is.
#include "script.h"
#include "values.h"
using namespace model;
namespace J = jed_utils;
namespace P = jed_utils::cpp;

struct Held {
    virtual ~Held() {}
    virtual int send(Client &c) = 0;
    virtual val::Obs look() const = 0;
    virtual std::unique_ptr<Held> copy() const = 0;
    virtual std::unique_ptr<Held> move() = 0;
    virtual void assign_self() = 0;
    virtual void assign_back() = 0;                       // assigns a copy of itself to itself
};
template <class M> struct HeldC : Held {
    M m;
    explicit HeldC(const M &x) : m(x) {}
    explicit HeldC(M &&x) : m(std::move(x)) {}
    int send(Client &c) override { return c.send_lib(m); }
    val::Obs look() const override { return val::obs(m); }
    std::unique_ptr<Held> copy() const override { return std::unique_ptr<Held>(new HeldC(m)); }
    std::unique_ptr<Held> move() override { return std::unique_ptr<Held>(new HeldC(std::move(m))); }
    void assign_self() override { const M &o = m; m = o; }
    void assign_back() override { M o(m); m = o; }
};
template <class M, class JM> struct HeldP : Held {
    M m;
    std::unique_ptr<JM> kept;                              // a conversion made once and used again and again
    explicit HeldP(const M &x) : m(x) {}
    explicit HeldP(M &&x) : m(std::move(x)) {}
    int send(Client &c) override {
        if (kept) return c.send_lib(*kept);
        JM j = m;
        return c.send_lib(j);
    }
    val::Obs look() const override {
        val::Obs o = val::obs(m);
        if (kept) val::cat(o, "converted", val::obs(*kept));
        return o;
    }
    void keep() { kept.reset(new JM(m)); }
    std::unique_ptr<Held> copy() const override { auto *h = new HeldP(m); if (kept) h->kept.reset(new JM(*kept)); return std::unique_ptr<Held>(h); }
    std::unique_ptr<Held> move() override { auto *h = new HeldP(std::move(m)); h->kept = std::move(kept); return std::unique_ptr<Held>(h); }
    void assign_self() override { const M &o = m; m = o; }
    void assign_back() override { M o(m); m = o; }
};
template <class M> static std::unique_ptr<Held> hold_c(const Msg &m) {
    auto lst = [](const std::vector<Addr> &l) { std::vector<J::MessageAddress> v; for (auto &a : l) v.emplace_back(a.email.c_str(), a.name.c_str()); return v; };
    std::vector<J::MessageAddress> to = lst(m.to), cc = lst(m.cc), bcc = lst(m.bcc);
    std::vector<J::Attachment> at;
    for (auto &a : m.atts) at.emplace_back(a.path.c_str(), a.name.c_str(), a.cid.c_str());
    J::MessageAddress from(m.from.email.c_str(), m.from.name.c_str());
    if (m.single_ctor) return std::unique_ptr<Held>(new HeldC<M>(M(from, to[0], m.subject.c_str(), m.body.c_str(), cc.empty() ? nullptr : &cc[0], bcc.empty() ? nullptr : &bcc[0], at.empty() ? nullptr : at.data(), at.size())));
    return std::unique_ptr<Held>(new HeldC<M>(M(from, to.empty() ? nullptr : to.data(), to.size(), m.subject.c_str(), m.body.c_str(), cc.empty() ? nullptr : cc.data(), cc.size(), bcc.empty() ? nullptr : bcc.data(), bcc.size(), at.empty() ? nullptr : at.data(), at.size())));
}
template <class M, class JM> static std::unique_ptr<Held> hold_p(const Msg &m, bool keep) {
    auto lst = [](const std::vector<Addr> &l) { std::vector<P::MessageAddress> v; for (auto &a : l) v.emplace_back(a.email, a.name); return v; };
    std::vector<P::Attachment> at;
    for (auto &a : m.atts) at.emplace_back(a.path, a.name, a.cid);
    auto *h = new HeldP<M, JM>(M(P::MessageAddress(m.from.email, m.from.name), lst(m.to), m.subject, m.body, lst(m.cc), lst(m.bcc), at));
    if (keep) h->keep();
    return std::unique_ptr<Held>(h);
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    struct Item { Msg m; std::unique_ptr<Held> h; val::Obs seen; std::string first; size_t sent = 0; std::set<size_t> by; bool copied = false, rewritten = false; };
    struct User { cm::Who who; std::unique_ptr<Client> cl; };
    std::vector<Item> items(static_cast<size_t>(s.weighted({3, 3, 2})) + 1);
    std::vector<User> users(static_cast<size_t>(s.weighted({2, 3, 2})) + 1);
    size_t who = 0;                                        // the client at work
    script::Script sc;
    sc.src = &s;
    int nth[srv::kSteps] = {0};
    bool touched = false;
    Net net;
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f = conf_for(users[who].who.kind);
        f.on_step = [&](srv::Step st, int, srv::Reply &r) {
            auto &sv = *net.servers.back();
            sc.last_line = [&sv]() { return sv.cmds.empty() ? std::string() : sv.cmds.back().line; };
            size_t before = sc.said.size();
            sc.apply(st, nth[st]++, r);
            for (size_t x = before; x < sc.said.size(); x++) if (sc.said[x].deviates && sc.said[x].what != script::kGoodVariant) touched = true;
            return true;
        };
        return f;
    };
    net.install();
    static int serial = 0;
    for (auto &it : items) {
        MsgOpts o;
        o.max_rcpt = 3; o.max_body = s.chance(1, 6) ? 9000 : 300; o.wild_body = o.wild_names = s.chance(1, 2); o.max_atts = s.chance(1, 2) ? 3 : 0; o.max_file = s.chance(1, 4) ? 9000 : 600; o.allow_no_to = true;
        o.big_lists = s.chance(1, 3);
        if (s.chance(1, 6)) o.max_rcpt = 14;
        it.m = gen_msg(s, c, o);
        for (auto &a : it.m.atts) {                        // files of its own, so that another message does not rewrite them
            std::string p = c.scratch + "/g" + std::to_string(serial++ % 200) + a.path.substr(a.path.rfind('.'));
            write_file(p, a.content);
            a.path = p;
        }
        bool p = !it.m.to.empty() && s.chance(1, 2), keep = s.chance(1, 2);
        if (!p) it.h = it.m.html ? hold_c<J::HTMLMessage>(it.m) : hold_c<J::PlaintextMessage>(it.m);
        else it.h = it.m.html ? hold_p<P::HTMLMessage, J::HTMLMessage>(it.m, keep) : hold_p<P::PlaintextMessage, J::PlaintextMessage>(it.m, keep);
        it.seen = it.h->look();
        c.d(std::string(p ? "C++" : "C") + " message " + show(it.m) + "; ");
    }
    for (auto &u : users) {
        u.who.kind = static_cast<Kind>(s.weighted({3, 2, 2}));
        u.who.api = static_cast<Api>(s.index(2));
        u.cl = cm::make(u.who);
        u.cl->set_timeout(2);
        if (s.chance(1, 2)) u.cl->set_batch(true);
        if (s.chance(1, 4)) { Cred k; k.set = true; k.user = "user"; k.pass = "pass"; u.cl->set_cred(k); }
        c.d(std::string(api_names[u.who.api]) + " " + kind_names[u.who.kind] + (u.cl->batch() ? " batch" : "") + " client; ");
    }
    auto body_of = [](const srv::Mail &m) {               // content and envelope; the account is the client's affair
        srv::Mail x = m;
        x.user.clear(); x.tls = false;
        return cm::canon(x);
    };
    auto same = [&](Item &it, const char *when) {
        val::Obs now = it.h->look();
        if (now == it.seen) return;
        size_t i = 0;
        while (i < now.size() && i < it.seen.size() && now[i] == it.seen[i]) i++;
        c.fail("changed", std::string("the message looks different ") + when + ": \"" + pbt::esc(i < now.size() ? now[i] : "", 200) + "\" was \"" + pbt::esc(i < it.seen.size() ? it.seen[i] : "", 200) + "\"\n" + net.describe());
    };
    size_t n = static_cast<size_t>(s.chance(1, 150) ? s.range(30, 300) : s.range(2, c.tier ? 16 : 9));
    bool failed_before = false;
    for (size_t k = 0; k < n; k++) {
        size_t i = s.index(items.size());
        Item &it = items[i];
        switch (s.weighted({12, 2, 1, 1, 1, 1, 1})) {
        case 0: {
            who = s.index(users.size());
            User &u = users[who];
            bool bad = n < 30 && s.chance(1, 6);
            sc.dev.clear(); sc.said.clear(); touched = false;
            for (int &x : nth) x = 0;
            bool stale = false;
            for (auto &sv : net.servers) if (!sv->conn->closed && (sv->conn->server_closed || sv->conn->rst)) stale = true;
            if (bad) sc.dev.push_back(script::gen(s, script::steps_of(u.who.kind, u.cl->cred().set, 1), all_rcpts(it.m).size()));
            std::vector<size_t> had;
            for (auto &sv : net.servers) had.push_back(sv->mails.size());
            int rc = it.h->send(*u.cl);
            c.d(pbt::strf("client %zu sends %zu%s -> %d; ", who, i, bad ? (" (" + script::show(sc.dev) + ")").c_str() : "", rc));
            std::vector<srv::Mail> got;
            for (size_t x = 0; x < net.servers.size(); x++) for (size_t y = x < had.size() ? had[x] : 0; y < net.servers[x]->mails.size(); y++) if (net.servers[x]->mails[y].accepted) got.push_back(net.servers[x]->mails[y]);
            if (got.size() > 1 || (rc == 0 && got.size() != 1)) c.fail("mail-count", pbt::strf("sendMail returned %d and the server accepted %zu mails\n", rc, got.size()) + net.describe());
            if (rc != 0 && !touched && !stale) c.fail("not-sent", pbt::strf("sendMail returned %d although the server behaved well\n", rc) + net.describe());
            for (auto &j : items) same(j, "after a mail was sent");
            for (auto &m : got) {
                std::string b = body_of(m);
                if (it.rewritten) {
                    std::string e = check_attachments(it.m, parse_mail(m.data));
                    if (!e.empty()) c.fail("old-file", "after one of its files was rewritten: " + e + "\n" + net.describe());
                    c.label("again with a rewritten file");
                }
                if (it.first.empty()) it.first = b;
                else {
                    if (b != it.first) c.fail("differs", pbt::strf("sent again (%zu times before), the message gives another mail:\n", it.sent) + pbt::esc(b, 1500) + "\nthe first time:\n" + pbt::esc(it.first, 1500) + "\n" + net.describe());
                    c.nontrivial = true;
                    c.label(it.by.count(who) ? "again by the same client" : "again by another client");
                    if (it.copied) c.label("again after being copied or moved");
                    if (failed_before) c.label("again after a failure");
                }
                it.sent++;
                it.by.insert(who);
            }
            if (rc) failed_before = true;
            break;
        }
        case 1: { it.h = it.h->copy(); it.copied = true; same(it, "as a copy"); c.d(pbt::strf("copy of %zu; ", i)); break; }
        case 2: { it.h = it.h->move(); it.copied = true; same(it, "after a move"); c.d(pbt::strf("move of %zu; ", i)); break; }
        case 3: it.h->assign_self(); it.h->assign_back(); it.copied = true; same(it, "after self-assignment"); c.d(pbt::strf("self-assignment of %zu; ", i)); break;
        case 4: { size_t u = s.index(users.size()); users[u].cl->set_batch(s.chance(1, 2)); c.d("batch setting; "); break; }
        case 5: { size_t u = s.index(users.size()); users[u].cl = users[u].cl->copy(); c.d(pbt::strf("copy of client %zu; ", u)); break; }
        default:
            if (it.m.atts.empty()) break;
            {   // a file changes: the next mail is the new standard
                Att &a = it.m.atts[s.index(it.m.atts.size())];
                a.content = gen_bytes(s, s.chance(1, 6) ? 9000 : 300, true);
                write_file(a.path, a.content);
                it.rewritten = true;
                it.first.clear(); it.sent = 0; it.by.clear();
                c.d(pbt::strf("attachment of %zu rewritten; ", i));
            }
        }
    }
    for (auto &u : users) u.cl.reset();
    for (auto &it : items) same(it, "after the clients are gone");
    cm::tidy(c);
}
namespace pbt {
Property property{"C31",
    "A case is a history of 2 to 9 (thorough 16, one in 150 up to 300) operations over 1 to 3 message objects (C or C++ classes, the converted C++ ones made anew for each mail or kept) and 1 to 3 clients of any kind: sending a message, copying, moving or assigning it, "
    "rewriting one of its files, switching batch mode, copying a client, one sending in six with a failing server. Every accepted mail of a message has to equal its first one, and the message must look as before. Non-trivial: a message was accepted more than once.",
    run, 12000, 120000};
}
