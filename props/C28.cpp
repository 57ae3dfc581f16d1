// sanitizer: thread
// C28: clients and value objects used by different threads do not affect one another.
#include "common.h"
#include <atomic>
#include <csignal>
#include <stdexcept>
#include <thread>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "tables.h"
#include "src/attachment.h"
#include "src/base64.h"
#include "src/credential.h"
#include "src/errorresolver.h"
#include "src/messageaddress.h"
#include "src/plaintextmessage.h"
#include "src/smtpclientbase.h"
#include "src/cpp/attachment.hpp"
#include "src/cpp/messageaddress.hpp"
#include "src/cpp/credential.hpp"
using namespace model;
namespace J = jed_utils;
namespace P = jed_utils::cpp;

enum { kSend, kSendShared, kErrorText, kBase64, kValidate, kAttShared, kCopyShared, kSet, kRenew, kReadMsg, kNext, kOpKinds };
struct Op { int kind; int64_t a = 0, b = 0; std::string s, t; Msg m; Cred cred; };
struct Job {
    cm::Who who;
    std::string host; unsigned port = 587; bool batch = false; Cred cred; unsigned timeout = 5;
    srv::Conf conf; int step = -1; int step_nth = 0; std::string step_text; size_t cut = 0; int64_t delay = 0; std::string tok;
    std::vector<std::vector<Op>> stages;       // consecutive stages run on different threads
};
struct Run {                                   // one execution of a job
    const Job *job = nullptr;
    std::unique_ptr<Client> client;
    Net net;
    sim::World *world = nullptr;
    std::string out;
};
struct Shared {
    std::vector<const J::Message *> msgs;
    std::vector<std::unique_ptr<J::Attachment>> atts;
    std::vector<std::unique_ptr<P::Attachment>> patts;
    std::vector<std::unique_ptr<Client>> clients;
};

static void open_run(Run &r) {
    const Job &j = *r.job;
    r.net.conf = [&r](size_t, sim::Conn &) {
        srv::Conf f = r.job->conf;
        const Job *j = r.job;
        f.auth = [j](const std::string &, const std::string &u, const std::string &p) { return j->cred.set && u == j->cred.user && p == j->cred.pass ? 235 : 535; };
        f.on_step = [j](srv::Step st, int nth, srv::Reply &rep) {
            if (st == j->step && nth == j->step_nth) rep.text = j->step_text;
            rep.delay = j->delay;
            return true;
        };
        size_t cut = j->cut;
        if (cut) f.cut = [cut](const std::string &b) { srv::Pieces p; for (size_t i = 0; i < b.size(); i += cut) p.push_back({i ? 1000 : 0, b.substr(i, cut)}); return p; };
        return f;
    };
    r.net.install();
    sim::w().resolve = [](const std::string &h, std::string &ip) {
        if (h.compare(0, 4, "none") == 0) return false;
        uint32_t v = static_cast<uint32_t>(pbt::hash64(h));
        ip = std::string("\x0a") + static_cast<char>(v >> 16) + static_cast<char>(v >> 8) + static_cast<char>(v | 1);
        return true;
    };
    r.client = cm::make(j.who, j.host, j.port);
    r.client->set_timeout(j.timeout);
    r.client->set_batch(j.batch);
    if (j.cred.set) r.client->set_cred(j.cred);
}
template <class F> static std::string attempt(F f) {
    try { return f(); }
    catch (const std::invalid_argument &e) { return std::string("invalid_argument ") + e.what(); }
    catch (const std::exception &e) { return std::string("exception ") + e.what(); }
}
static std::string texts(const J::Message &m) {
    std::string o = std::string(m.getMimeType()) + "|" + m.getSubject() + "|" + m.getBody() + "|" + m.getFrom().getEmailAddress() + "|" + m.getFrom().getDisplayName();
    for (size_t i = 0; i < m.getToCount(); i++) o += std::string("|") + m.getTo()[i]->getEmailAddress() + "|" + m.getTo()[i]->getDisplayName();
    for (size_t i = 0; i < m.getAttachmentsCount(); i++) o += std::string("|") + m.getAttachments()[i]->getName() + "|" + m.getAttachments()[i]->getMimeType() + "|" + m.getAttachments()[i]->getContentId();
    J::PlaintextMessage copy(J::MessageAddress("a@example.com"), J::MessageAddress("b@example.com"), "s", "b");
    copy = static_cast<const J::PlaintextMessage &>(m);
    return o + "|" + copy.getBody();
}
static void step(Run &r, const Shared &sh, const Op &op) {
    std::string o = "[" + std::to_string(op.kind) + "] ";
    switch (op.kind) {
    case kSend: o += "rc " + std::to_string(r.client->send(op.m)) + "\n" + r.client->log(); break;
    case kSendShared: o += "rc " + std::to_string(r.client->send_lib(*sh.msgs[static_cast<size_t>(op.a)])) + "\n" + r.client->log(); break;
    case kErrorText: {
        int code = static_cast<int>(op.a);
        char *p = J::SMTPClientBase::getErrorMessage(code);
        o += p ? p : "(null)";
        delete[] p;
        char buf[300];
        memset(buf, 0, sizeof buf);
        int rc = J::SMTPClientBase::getErrorMessage_r(code, buf, static_cast<size_t>(op.b));
        o += "|" + std::to_string(rc) + "|" + buf;
        J::ErrorResolver e(code);
        J::ErrorResolver e2(0);
        e2 = e;
        o += std::string("|") + e.getErrorMessage() + "|" + e2.getErrorMessage();
        break;
    }
    case kBase64: {
        std::string e = J::Base64::Encode(reinterpret_cast<const unsigned char *>(op.s.data()), op.s.size());
        o += e + "|" + J::Base64::Decode(e) + "|" + J::Base64::Decode(op.t);
        break;
    }
    case kValidate:
        o += attempt([&] { J::MessageAddress a(op.s.c_str(), op.t.c_str()); return std::string(a.getEmailAddress()) + "|" + a.getDisplayName(); });
        o += "|" + attempt([&] { P::MessageAddress a(op.s, op.t); return std::string(a.getEmailAddress()); });
        o += "|" + attempt([&] { J::Credential a(op.t.c_str(), op.s.c_str()); return std::string(a.getUsername()) + a.getPassword(); });
        o += "|" + attempt([&] { J::Attachment a(op.s.c_str(), op.t.c_str()); return std::string(a.getMimeType()) + "," + a.getFilename() + "," + a.getName(); });
        break;
    case kAttShared: {
        size_t i = static_cast<size_t>(op.a);
        const J::Attachment &a = *sh.atts[i];
        const char *b = a.getBase64EncodedFile();
        o += std::string(b ? b : "(null)") + "|" + a.getMimeType() + "|" + a.getName() + "|" + a.getFilename() + "|" + a.getContentId();
        delete[] b;
        const P::Attachment &q = *sh.patts[i];
        o += "|" + q.getBase64EncodedFile() + "|" + q.getMimeType();
        J::Attachment copy(a);
        o += std::string("|") + copy.getFilename();
        break;
    }
    case kCopyShared: {
        const Client &c = *sh.clients[static_cast<size_t>(op.a)];
        std::unique_ptr<Client> k = c.copy();
        for (const Client *x : {&c, const_cast<const Client *>(k.get())}) {
            Cred cr = x->cred();
            o += x->server() + ":" + std::to_string(x->port()) + " " + std::to_string(x->batch()) + std::to_string(x->timeout()) + std::to_string(x->accept_self_signed()) + " " + cr.user + "/" + cr.pass + " " + x->log() + "\n";
        }
        if (op.b) { o += "rc " + std::to_string(k->send(op.m)) + "\n" + k->log(); }
        break;
    }
    case kSet:
        switch (op.a) {
        case 0: r.client->set_timeout(static_cast<unsigned>(op.b)); break;
        case 1: r.client->set_cred(op.cred); break;
        case 2: r.client->set_server(op.s); break;
        default: r.client->set_port(static_cast<unsigned>(op.b)); break;
        }
        o += r.client->server() + std::to_string(r.client->port()) + std::to_string(r.client->timeout()) + r.client->cred().user;
        break;
    case kRenew: {
        const Job &j = *r.job;
        if (op.b) { auto k = r.client->move(); r.client = std::move(k); }
        else { r.client = cm::make(j.who, op.s, j.port); r.client->set_batch(j.batch); if (j.cred.set) r.client->set_cred(j.cred); }
        o += r.client->server();
        break;
    }
    case kReadMsg: o += texts(*sh.msgs[static_cast<size_t>(op.a)]); break;
    default: break;
    }
    r.out += o + "\n";
}
static void close_run(Run &r) {
    r.client.reset();
    sim::World &w = sim::w();
    for (auto &h : w.resolved) r.out += "resolved " + h + "\n";
    for (auto &c : w.conns) r.out += pbt::strf("connection to %x:%d state %d closed %d\n", c->ip, c->port, c->state, c->closed);
    for (auto &s : r.net.servers) {
        size_t hello = s->app_in.find("\x16\x03");          // TLS records are random
        r.out += "server received\n" + s->app_in.substr(0, hello) + "\n";
        if (hello == std::string::npos) for (auto &e : s->errors) r.out += "server objects: " + e + "\n";
    }
    for (auto &m : r.net.accepted()) r.out += "accepted from " + m.from + " by " + m.user + "\n" + m.data + "\n";
    if (w.hang) r.out += "waits without limit in " + w.hang_where + "\n";
    for (auto &f : w.foreign) r.out += "foreign " + f + "\n";
    r.out += "open " + std::to_string(sim::open_fds()) + "\n";
}
static std::string first_difference(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 60 ? i - 60 : 0;
    return "alone:      ..." + pbt::esc(a.substr(f, 240)) + "\nconcurrent: ..." + pbt::esc(b.substr(f, 240));
}

static Op gen_op(pbt::Src &s, pbt::Ctx &c, const Job &j, size_t shared, size_t natt, size_t nclient, int depth) {
    static const std::vector<unsigned> w{8, 4, 4, 3, 3, 2, 2, 2, 2, 2, depth ? 0u : 0u};
    static const char *names[kOpKinds] = {"send", "send a shared message", "error texts", "base64", "validation", "shared attachment", "shared client", "setting", "renewal", "shared message", "next"};
    Op op;
    op.kind = static_cast<int>(s.weighted(w));
    if ((op.kind == kSendShared || op.kind == kReadMsg) && !shared) op.kind = kSend;
    if (op.kind == kAttShared && !natt) op.kind = kErrorText;
    if (op.kind == kCopyShared && !nclient) op.kind = kValidate;
    c.label(names[op.kind]);
    MsgOpts o; o.max_rcpt = 2; o.max_atts = 1; o.max_body = 400; o.max_file = 300; o.wild_names = true; o.wild_body = true;
    switch (op.kind) {
    case kSend: op.m = gen_msg(s, c, o); break;
    case kSendShared: case kReadMsg: op.a = s.range(0, static_cast<int64_t>(shared) - 1); break;
    case kErrorText: op.a = kMessages[s.index(kMessages.size())].first; if (s.chance(1, 5)) op.a = s.range(-120, 20); op.b = s.range(1, 200); break;
    case kBase64: op.s = gen_bytes(s, 300, true); op.t = srv::b64enc(gen_bytes(s, 60, true)); break;
    case kValidate: op.s = s.chance(1, 2) ? gen_email(s) : gen_bytes(s, 20, false); op.t = gen_name(s, true); break;
    case kAttShared: op.a = s.range(0, static_cast<int64_t>(natt) - 1); break;
    case kCopyShared: op.a = s.range(0, static_cast<int64_t>(nclient) - 1); op.b = s.chance(1, 2); if (op.b) { o.max_atts = 0; op.m = gen_msg(s, c, o); } break;
    case kSet:
        op.a = s.range(0, 3); op.b = s.range(1, 30);
        op.cred = s.chance(1, 2) && j.cred.set ? j.cred : cm::gen_cred(s, 20);
        op.s = "h" + std::to_string(s.range(0, 5)) + ".example.org";
        break;
    case kRenew: op.b = s.chance(1, 2); op.s = j.host; break;
    default: break;
    }
    return op;
}

static void child(pbt::Ctx &c, const std::vector<Job> &jobs, Shared &sh, size_t threads, size_t shift) {
    std::vector<std::unique_ptr<Run>> runs;
    for (auto &j : jobs) { runs.emplace_back(new Run); runs.back()->job = &j; runs.back()->world = new sim::World; runs.back()->world->keep_trace = false; }
    for (size_t i = 0; i < runs.size(); i++) runs[i]->world->next_fd = 300 + 100 * static_cast<int>(i);
    size_t rounds = 0;
    for (auto &j : jobs) rounds = std::max(rounds, j.stages.size());
    for (size_t q = 0; q < rounds; q++) {
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> ts;
        for (size_t t = 0; t < threads; t++)
            ts.emplace_back([&, t, q] {
                sim::World *own = sim::use(nullptr);
                ready.fetch_add(1, std::memory_order_relaxed);      // a start signal that orders nothing
                while (ready.load(std::memory_order_relaxed) < threads) {}
                for (size_t i = 0; i < runs.size(); i++) {
                    if ((i + q * shift) % threads != t) continue;
                    Run &r = *runs[i];
                    sim::use(r.world);
                    if (q == 0) open_run(r);
                    if (q < r.job->stages.size()) for (auto &op : r.job->stages[q]) step(r, sh, op);
                    if (q + 1 == rounds) close_run(r);
                    r.world = sim::use(nullptr);
                }
                sim::use(own);
            });
        for (auto &t : ts) t.join();
    }
    for (size_t i = 0; i < jobs.size(); i++) {
        Run alone;
        alone.job = &jobs[i];
        sim::World *own = sim::use(nullptr);
        sim::w().next_fd = 300; sim::w().keep_trace = false;
        open_run(alone);
        for (auto &st : jobs[i].stages) for (auto &op : st) step(alone, sh, op);
        close_run(alone);
        if (alone.out != runs[i]->out) c.fail("interference", "the outcome of job " + std::to_string(i) + " differs when other jobs run at the same time\n" + first_difference(alone.out, runs[i]->out));
        sim::World *mine = sim::use(own);
        (void)mine;
    }
}

static void run(pbt::Src &s, pbt::Ctx &c) {
    size_t threads = static_cast<size_t>(s.range(2, 4));
    size_t njobs = threads + (s.chance(1, 3) ? static_cast<size_t>(s.range(1, 2)) : 0);
    size_t nshared = static_cast<size_t>(s.range(0, 2)), natt = static_cast<size_t>(s.range(0, 2)), nclient = static_cast<size_t>(s.range(0, 2));
    size_t rounds = s.chance(1, 3) ? static_cast<size_t>(s.range(2, 3)) : 1;
    size_t shift = rounds > 1 ? static_cast<size_t>(s.range(0, 1)) : 0;
    MsgOpts o; o.max_rcpt = 3; o.max_atts = 2; o.max_body = 800; o.max_file = 400; o.wild_names = true; o.wild_body = true;
    std::vector<Msg> smsgs;
    for (size_t i = 0; i < nshared; i++) { smsgs.push_back(gen_msg(s, c, o)); smsgs.back().html = false; }
    Shared sh;
    for (size_t i = 0; i < natt; i++) {
        std::string path = c.scratch + "/s" + std::to_string(i) + "." + kMime[s.index(kMime.size())].first;
        if (s.chance(9, 10)) write_file(path, gen_bytes(s, 2000, true));
        std::string name = gen_word(s, 6);
        sh.atts.emplace_back(new J::Attachment(path.c_str(), name.c_str(), "cid"));
        sh.patts.emplace_back(new P::Attachment(path, name));
    }
    for (size_t i = 0; i < nclient; i++) {
        cm::Who who; who.kind = static_cast<Kind>(s.weighted({4, 2, 2})); who.api = static_cast<Api>(s.index(2));
        sh.clients.push_back(cm::make(who, "c" + std::to_string(i) + ".example.net", 2525));
        if (s.chance(1, 2)) sh.clients.back()->set_cred(cm::gen_cred(s, 20));
    }
    std::vector<Job> jobs;
    unsigned sends = 0, secure = 0;
    for (size_t i = 0; i < njobs; i++) {
        Job j;
        j.tok = "job" + std::to_string(i);
        j.who.kind = static_cast<Kind>(s.weighted({4, 2, 2})); j.who.api = static_cast<Api>(s.index(2));
        if (j.who.kind != kPlain) secure++;
        j.host = s.chance(1, 10) ? "none.example.com" : "h" + std::to_string(s.range(0, 5)) + (s.chance(1, 2) ? ".example.org" : ".example.com");
        j.port = s.chance(1, 2) ? 587 : static_cast<unsigned>(s.range(1, 65535));
        j.batch = s.chance(1, 3);
        j.timeout = static_cast<unsigned>(s.range(2, 20));
        j.conf = conf_for(j.who.kind, s.chance(2, 3));
        j.conf.greeting = "220 " + j.tok + ".example.com ready\r\n";
        if (j.who.kind != kPlain && s.chance(1, 6)) j.conf.cert = static_cast<srv::Cert>(s.index(srv::kCertCount));
        if (s.chance(1, 2)) j.cred = cm::gen_cred(s, 20);
        if (s.chance(1, 4)) {
            j.step = static_cast<int>(s.range(srv::GREETING, srv::QUIT)); j.step_nth = static_cast<int>(s.range(0, 1));
            j.step_text = cm::good_reply(s, static_cast<int>(s.range(400, 560)));
        } else if (s.chance(1, 4)) { j.step = srv::MAIL; j.step_text = "250 " + j.tok + cm::text_line(s, 200) + "\r\n"; }
        if (s.chance(1, 4)) j.cut = static_cast<size_t>(s.range(1, 30));
        j.delay = s.chance(1, 4) ? s.range(0, 300000) : 0;
        std::string line = j.tok + ": " + api_names[j.who.api] + " " + kind_names[j.who.kind] + " to " + j.host + ":" + std::to_string(j.port) + (j.batch ? " batch" : "") + (j.cred.set ? " with credentials" : "") + (j.step >= 0 ? std::string(" ") + srv::step_names[j.step] + " answered " + pbt::esc(j.step_text, 40) : "") + " operations";
        for (size_t q = 0; q < rounds; q++) {
            std::vector<Op> ops;
            for (int64_t n = s.range(1, 4); n > 0; n--) {
                ops.push_back(gen_op(s, c, j, nshared, natt, nclient, 0));
                if (ops.back().kind <= kSendShared) sends++;
                line += " " + std::to_string(ops.back().kind);
            }
            if (q + 1 < rounds) line += " /";
            j.stages.push_back(ops);
        }
        c.d(line);
        jobs.push_back(j);
    }
    c.d(std::to_string(threads) + " threads, " + std::to_string(nshared) + " shared messages" + (shift ? ", jobs move between threads" : ""));
    c.label(std::to_string(threads) + " threads");
    if (secure > 1) c.label("several TLS clients");
    if (shift) c.label("jobs move between threads");
    srv::b64dec("");                        // tables of the harness itself
    pid_t pid = fork();                     // a fresh process: what is initialised on first use is initialised in the race
    if (pid == 0) {
        std::function<void(size_t)> deep = [&](size_t i) {
            if (i == smsgs.size()) { child(c, jobs, sh, threads, shift); return; }
            with_message(smsgs[i], kC, [&](const J::Message &m) { sh.msgs.push_back(&m); deep(i + 1); });
        };
        deep(0);
        _exit(0);
    }
    int st = 0;
    int64_t t0 = pbt::real_us();
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (pbt::real_us() - t0 > 60 * 1000000LL) { kill(pid, SIGKILL); waitpid(pid, &st, 0); c.fail("deadlock", "the threads did not finish within 60 s"); }
        struct timespec ts { 0, 200000 };
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    if (WIFSIGNALED(st)) c.fail("signal", std::string("the process was ended by signal ") + strsignal(WTERMSIG(st)));
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));       // the child has left its report
    c.nontrivial = sends > 0;
}
pbt::Property pbt::property{"C28", "at least one job sends a mail while the others run", run, 1200, 20000, 60, nullptr, false, true};
