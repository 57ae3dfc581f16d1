// C15: socket call failures are handled and reported with the documented code.
#include <cerrno>
#include "common.h"
using namespace model;
using sim::Fault;

static std::string call_text(int call, int nth, const Fault &f) {
    std::string o = std::string(sim::call_names[call]) + "#" + std::to_string(nth) + ":";
    if (f.err) o += f.err == EINTR ? "EINTR" : f.err == EAGAIN ? "EAGAIN" : "errno " + std::to_string(f.err);
    else o += "only " + std::to_string(f.partial) + " bytes";
    return o + " ";
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    cm::Who who = cm::gen_who(s, c, {4, 2, 2});
    bool cred = s.chance(1, 3), batch = s.chance(1, 4), hard = s.chance(1, 2);
    MsgOpts o;
    o.max_rcpt = 2; o.max_body = s.chance(1, 3) ? 20000 : 900; o.max_atts = s.chance(1, 6) ? 1 : 0; o.wild_body = s.chance(1, 4);
    Msg m = gen_msg(s, c, o), m2 = gen_msg(s, c, o);
    Net net;
    bool planned = false;                // plan only for the first mail
    int plan_kind = 0, plan_errno = 0;
    bool cuts = s.chance(1, 3);
    net.conf = [&](size_t, sim::Conn &) {
        srv::Conf f = conf_for(who.kind);
        if (cuts) f.cut = [&s](const std::string &b) { return cm::cut(s, b, 6, 500000); };
        return f;
    };
    net.tweak = [&](size_t n, sim::ConnPlan &p) {
        if (n || !planned) return;
        if (plan_kind == 1) p.connect_errno = plan_errno;
        if (plan_kind == 2) p.so_error = plan_errno;
        if (plan_kind == 3) p.connect_delay = -1;
        if (plan_kind == 4) p.immediate = true;
        if (plan_kind == 5) { p.immediate = true; p.so_error = plan_errno; }
    };
    net.install();
    sim::World &w = sim::w();
    if (s.chance(1, 4)) { static const std::vector<int> start{1015, 1022, 1023, 1024, 1025, 1100, 2047}; w.next_fd = s.pick(start); c.d(pbt::strf("descriptors from %d; ", w.next_fd)); c.label("descriptor near or above 1024"); }
    else if (s.chance(1, 8)) { w.zero_free = true; c.d("standard input closed; "); c.label("descriptor 0"); }
    // the faults
    size_t n = hard ? s.weighted({1, 6, 2, 1}) : static_cast<size_t>(s.weighted({1, 3, 3}) == 0 ? 1 : s.range(2, 25));
    std::string text;
    for (size_t i = 0; i < n; i++) {
        Fault f;
        sim::Call call;
        if (!hard || (i && s.chance(1, 2))) {
            static const std::vector<sim::Call> calls{sim::kSend, sim::kRecv, sim::kWait, sim::kConnect};
            call = calls[s.weighted({5, 4, 4, 1})];
            if (call == sim::kSend || call == sim::kRecv) {
                switch (s.weighted({4, 2, 1})) {
                case 0: f.partial = s.chance(1, 2) ? s.range(1, 9) : s.range(1, 600); break;
                case 1: f.err = EINTR; break;
                default: f.err = EAGAIN;
                }
            } else { f.err = EINTR; if (call == sim::kWait) f.partial = s.range(0, 20000); }
        } else {
            static const std::vector<sim::Call> calls{sim::kResolve, sim::kSocket, sim::kFcntlGet, sim::kFcntlSet, sim::kConnect, sim::kWait, sim::kGetsockopt, sim::kSend, sim::kRecv, sim::kClose};
            call = calls[s.weighted({1, 1, 1, 1, 1, 3, 1, 6, 5, 1})];
            static const std::vector<int> snd{ECONNRESET, EPIPE, ENOBUFS, ENOMEM, ETIMEDOUT, ENETDOWN, EHOSTUNREACH, EIO}, rcv{ECONNRESET, ETIMEDOUT, ENOMEM, ECONNREFUSED, EIO}, wai{ENOMEM, EINVAL, EIO}, soc{EMFILE, ENFILE, EACCES, EAFNOSUPPORT, ENOMEM, ENOBUFS},
                con{ECONNREFUSED, ENETUNREACH, ETIMEDOUT, EADDRNOTAVAIL, EACCES, EAFNOSUPPORT, EAGAIN, EHOSTUNREACH}, fcn{EACCES, EINVAL, ENOMEM}, gso{ENOBUFS, EINVAL, ENOMEM}, clo{EIO, EINTR, ENOSPC};
            f.err = call == sim::kSend ? s.pick(snd) : call == sim::kRecv ? s.pick(rcv) : call == sim::kWait ? s.pick(wai) : call == sim::kSocket ? s.pick(soc) : call == sim::kConnect ? s.pick(con) : call == sim::kGetsockopt ? s.pick(gso) : call == sim::kClose ? s.pick(clo) : s.pick(fcn);
        }
        int nth = static_cast<int>(call == sim::kConnect || call == sim::kResolve || call == sim::kSocket || call == sim::kGetsockopt || call == sim::kClose ? 0 : call == sim::kFcntlGet || call == sim::kFcntlSet ? s.index(2) : s.chance(1, 6) ? s.index(4) : s.index(who.kind == kPlain ? 22 : 40));
        w.faults[{call, nth}] = f;
        text += call_text(call, nth, f);
        if (s.chance(1, 12) && hard && f.err != EINTR && f.err != EAGAIN && call != sim::kClose && f.err) { w.sticky[call] = f; text += "(from then on) "; }
    }
    if (!hard && s.chance(1, 6)) {
        Fault f;
        f.partial = s.chance(1, 2) ? 1 : s.range(2, 60);
        sim::Call call = s.chance(1, 2) ? sim::kSend : sim::kRecv;
        w.sticky[call] = f;
        text += "always " + call_text(call, 0, f);
    }
    if (s.chance(1, 8)) {
        planned = true;
        plan_kind = hard ? static_cast<int>(s.range(1, 5)) : 4;
        static const std::vector<int> errs{ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET};
        plan_errno = s.pick(errs);
        text += pbt::strf("connection plan %d ", plan_kind);
    }
    c.d(std::string(hard ? "failures: " : "interruptions: ") + text + pbt::strf("; %s%s%zu body bytes; ", batch ? "batch; " : "", cred ? "credentials; " : "", m.body.size()));
    auto cl = cm::make(who);
    unsigned T = static_cast<unsigned>(s.range(3, 9));
    cl->set_timeout(T);
    cl->set_batch(batch);
    if (cred) cl->set_cred(cm::gen_cred(s));
    int rc = cl->send(m);
    std::string dia = "\n" + net.describe() + "faults that struck:";
    for (auto &x : w.fired) dia += std::string(" ") + sim::call_names[x.first] + "#" + std::to_string(x.second);
    c.nontrivial = !w.fired.empty() || (planned && plan_kind != 4);
    bool hard_fired = planned && plan_kind != 4;
    int first_call = -1;
    for (auto &x : w.fired) {
        auto it = w.faults.find(x);
        Fault f = it != w.faults.end() ? it->second : w.sticky[x.first];
        if (f.err && f.err != EINTR && !(f.err == EAGAIN && (x.first == sim::kSend || x.first == sim::kRecv))) { if (first_call < 0) first_call = x.first; hard_fired = true; }
        else if (x.first == sim::kClose) hard_fired = true;
    }
    for (auto &x : w.fired) c.label(sim::call_names[x.first]);
    size_t acc = net.accepted().size();
    c.label(rc == 0 ? "mail sent" : "mail not sent");
    if (w.hang) c.fail("hang", "waited without any limit in " + w.hang_where);
    if (rc == 0) {
        if (acc != 1) c.fail("false-success", "sendMail returned 0 but the server has not accepted the mail" + dia);
        std::string e = check_all(m, net.accepted()[0]);
        if (!e.empty()) c.fail("mail-damaged", e + dia);
    } else if (!hard_fired) c.fail("not-continued", pbt::strf("sendMail returned %d although every call was only interrupted or partial", rc) + dia);
    // failures while opening the connection
    bool connected = !net.servers.empty() && net.servers[0]->conn != nullptr;
    bool silent = true;          // nothing was exchanged yet
    for (auto &e : w.trace) if (e.kind == 'W' || e.kind == 'R') silent = false;
    if (rc != 0 && (!connected || (silent && (first_call == sim::kGetsockopt || first_call == sim::kFcntlGet || first_call == sim::kFcntlSet)))) {
        std::set<int> want;
        if (first_call == sim::kSocket) want = {-1};
        if (first_call == sim::kResolve) want = {-6};
        if (first_call == sim::kFcntlGet) want = {-7};
        if (first_call == sim::kFcntlSet) want = {-8};
        if (first_call == sim::kConnect) want = {-2};
        if (first_call == sim::kWait) want = {-2};
        if (first_call == sim::kGetsockopt) want = {-9};
        if (planned && first_call < 0) want = plan_kind == 1 || plan_kind == 5 ? std::set<int>{-2} : plan_kind == 2 ? std::set<int>{-10} : plan_kind == 3 ? std::set<int>{-3} : std::set<int>{};
        if (planned && plan_kind == 5 && first_call < 0) want.insert(-10);       // refused at once, or, after EINTR, later
        if (planned && first_call >= 0) { want.insert(-2); want.insert(-3); want.insert(-10); }
        if (!want.empty() && !want.count(rc)) c.fail("code", pbt::strf("sendMail returned %d when opening the connection failed, documented: ", rc) + cm::show(want) + dia);
        if (!want.empty()) c.label("opening fails");
    }
    // failures later on: a failed send is the error code of the step, a failed receive its time-out code (no reply came)
    if (rc != 0 && connected && !planned && (first_call == sim::kSend || first_call == sim::kRecv)) {
        auto &v = *net.servers[0];
        srv::Step at = v.cmds.empty() ? srv::GREETING : v.cmds.back().step;
        std::set<int> want;
        if (v.tls_started && !v.tls_done) want = cm::tls_codes();
        auto error = [](int st) -> std::set<int> {
            switch (st) {
            case srv::EHLO: return {-20};
            case srv::STARTTLS: return {-30};
            case srv::EHLO_TLS: return {-59};
            case srv::AUTH: case srv::AUTH2: case srv::AUTH3: return {-81};
            case srv::MAIL: return {-85};
            case srv::RCPT: return {-87};
            case srv::DATA: return {-89};
            case srv::EOD: return {-91, -92, -93, -94, -95, -96, -97};
            case srv::QUIT: return {-99};
            default: return {};
            }
        };
        if (first_call == sim::kSend) {
            if (who.kind != kPlain && at <= srv::STARTTLS) want = cm::tls_codes();
            for (int st = at == srv::QUIT ? srv::QUIT : at == srv::GREETING ? srv::EHLO : at; st < srv::kSteps; st++) cm::add(want, error(st));
        } else {
            switch (at) {
            case srv::GREETING: want.insert(-3); break;
            case srv::EHLO: want.insert(-21); break;
            case srv::STARTTLS: want.insert(-31); cm::add(want, cm::tls_codes()); break;
            case srv::EHLO_TLS: want.insert(-60); break;
            case srv::AUTH: case srv::AUTH2: case srv::AUTH3: want.insert(-81); want.insert(-82); break;
            case srv::MAIL: want.insert(-86); break;
            case srv::RCPT: want.insert(-88); break;
            case srv::DATA: want.insert(-90); break;
            case srv::EOD: want.insert(-98); break;
            default: want.clear();
            }
            if (who.kind == kForced && at == srv::GREETING) cm::add(want, cm::tls_codes());
        }
        if (!want.empty() && !want.count(rc)) c.fail("step-code", pbt::strf("sendMail returned %d when %s failed during the session, documented: ", rc, sim::call_names[first_call]) + cm::show(want) + dia);
        if (!want.empty()) c.label(first_call == sim::kSend ? "send fails" : "receive fails");
    }
    if (rc != 0 && !batch && sim::open_fds()) c.fail("not-closed", "the connection was left open after the failure" + dia);
    // the client remains usable
    w.faults.clear(); w.sticky.clear(); planned = false;
    size_t before = net.accepted().size();
    int rc2 = cl->send(m2);
    if (rc2 != 0 || net.accepted().size() != before + 1) c.fail("unusable", pbt::strf("after a mail with result %d the next one, without any failure, returned %d", rc, rc2) + dia + "\n" + net.describe());
    std::string e2 = check_all(m2, net.accepted().back());
    if (!e2.empty()) c.fail("mail-damaged", "the next mail: " + e2 + dia);
    cl.reset();
    cm::tidy(c);
}
namespace pbt {
Property property{"C15", "a fault struck a socket call the client made", run, 22000, 250000};
}
