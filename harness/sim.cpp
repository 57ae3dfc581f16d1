#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#define SIM_ASAN 1
#endif
#include "engine.h"

namespace sim {
const int64_t EPOCH = 1800000000;   // 2027-01-15
const char *call_names[kCallCount] = {"resolve", "socket", "fcntl-get", "fcntl-set", "connect", "wait", "getsockopt", "setsockopt", "send", "recv", "close"};

bool g_in_case = false;
thread_local int g_inside = 0;
static thread_local World *g_w = nullptr;      // every thread has a network and a clock of its own
World &w() { if (!g_w) g_w = new World; return *g_w; }
World *use(World *n) { World *o = g_w; g_w = n; return o; }

static volatile int64_t g_blocks = 0, g_bytes = 0;
#ifdef SIM_ASAN
static void mhook(const volatile void *p, size_t n) { (void)p; g_blocks = g_blocks + 1; g_bytes = g_bytes + static_cast<int64_t>(n); }
static void fhook(const volatile void *p) {
    if (!p) return;
    g_blocks = g_blocks - 1;
    g_bytes = g_bytes - static_cast<int64_t>(__sanitizer_get_allocated_size(const_cast<const void *>(p)));
}
#endif
Heap heap() { return Heap{g_blocks, g_bytes}; }

void init_process(const std::string &) {
    struct rlimit rl;
    if (getrlimit(RLIMIT_NOFILE, &rl) == 0) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
    static bool done = false;
#ifdef SIM_ASAN
    if (!done) __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
    done = true;
    signal(SIGPIPE, SIG_DFL);
    sigset_t s; sigemptyset(&s); sigaddset(&s, SIGPIPE);
    sigprocmask(SIG_UNBLOCK, &s, nullptr);
    reset();
}

// Descriptor 0 always stays a real one, so that nothing else in the process is given it.
static void release_fd(int fd) {
    if (fd != 0) { syscall(SYS_close, fd); return; }
    int n = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0));
    if (n > 0) { syscall(SYS_dup3, n, 0, 0); syscall(SYS_close, n); }
}
void reset() {
    if (g_w) {
        for (auto &x : g_w->byfd) release_fd(x.first);
        delete g_w;
    }
    g_w = new World;
}

int open_fds() { int n = 0; for (auto &c : w().conns) if (!c->closed) n++; return n; }

static void step() {
    World &x = w();
    if (++x.steps > x.max_steps) pbt::fatal_from_sim("livelock", "the client made more than " + std::to_string(x.max_steps) + " system calls in one case");
}

void event(const char *what) {
    World &x = w();
    int64_t gap = x.now - x.last_event;
    if (gap > x.max_gap) { x.max_gap = gap; x.max_gap_where = x.last_event_what + " .. " + what; }
    x.last_event = x.now;
    x.last_event_what = what;
}

static void arrive(Conn &c) {
    World &x = w();
    while (!c.in.empty() && c.in.front().at <= x.now) {
        Seg &s = c.in.front();
        if (s.kind == 0) c.readable += s.bytes;
        else if (s.kind == 1) c.fin = true;
        else c.rst = true;
        c.in.pop_front();
    }
    if (c.state == 1 && c.connect_at >= 0 && c.connect_at <= x.now) {
        if (c.connect_error) { c.state = 3; c.pending_error = c.connect_error; }
        else {
            c.state = 2;
            event("connected");
            if (c.server) { x.in_server = true; c.server->on_connect(c); x.in_server = false; }
        }
    }
}

void advance(int64_t us) {
    World &x = w();
    x.now += us;
    if (x.now > 400LL * 86400 * 1000000) pbt::fatal_from_sim("livelock", "virtual time ran away (over 400 days in one case)");
    for (auto &c : x.conns) if (!c->closed) arrive(*c);
}

void Conn::deliver(const std::string &b, int64_t delay) {
    if (b.empty() || server_closed) return;
    int64_t at = std::max(last_sched, w().now + delay);
    last_sched = at;
    w().arrivals.push_back(at);
    if (!in.empty() && in.back().kind == 0 && in.back().at == at) in.back().bytes += b;
    else in.push_back(Seg{at, b, 0});
    if (at <= w().now) arrive(*this);
}
void Conn::deliver_fin(int64_t delay) {
    if (server_closed) return;
    server_closed = true;
    last_sched = std::max(last_sched, w().now + delay);
    w().arrivals.push_back(last_sched);
    in.push_back(Seg{last_sched, "", 1});
    arrive(*this);
}
void Conn::deliver_rst(int64_t delay) {
    server_closed = true;
    last_sched = std::max(last_sched, w().now + delay);
    w().arrivals.push_back(last_sched);
    in.push_back(Seg{last_sched, "", 2});
    arrive(*this);
}
bool Conn::all_read() const {
    if (!readable.empty()) return false;
    for (auto &s : in) if (s.kind == 0) return false;
    return true;
}

static int64_t next_time(const Conn &c) {
    World &x = w();
    int64_t t = -1;
    if (!c.in.empty()) t = std::max(c.in.front().at, x.now);
    if (c.state == 1 && c.connect_at >= 0) t = t < 0 ? std::max(c.connect_at, x.now) : std::min(t, std::max(c.connect_at, x.now));
    return t;
}
static bool window_full(const Conn &c) {
    if (c.window < 0 || static_cast<int64_t>(c.written) < c.window) return false;
    if (c.window_reopen >= 0 && w().now >= c.window_reopen) return false;
    return true;
}
static bool readable_now(const Conn &c) { return !c.readable.empty() || c.fin || c.rst || c.shut_rd || c.state == 3; }
static bool writable_now(const Conn &c) { return c.state == 3 || (c.state == 2 && !window_full(c)) || c.rst; }

static Conn *find(int fd) {
    World &x = w();
    auto it = x.byfd.find(fd);
    if (it == x.byfd.end()) return nullptr;
    step();
    arrive(*it->second);
    return it->second;
}

// Returns true (errno/partial set) if a planned fault fires for this call.
static bool fault(Call k, Fault &f) {
    World &x = w();
    int n = x.counts[k]++;
    auto it = x.faults.find({k, n});
    if (it != x.faults.end()) { f = it->second; x.fired.push_back({k, n}); return true; }
    auto st = x.sticky.find(k);
    if (st != x.sticky.end()) { f = st->second; x.fired.push_back({k, n}); return true; }
    return false;
}

static void hang(const char *where) {
    World &x = w();
    if (!x.hang) { x.hang = true; x.hang_where = where; }
    advance(86400LL * 1000000);
}

static void check_buf(const void *p, size_t n, const char *what) {
    if (n == 0) return;
#ifdef SIM_ASAN
    if (void *bad = __asan_region_is_poisoned(const_cast<void *>(p), n))
        pbt::fatal_from_sim("buffer-bounds", std::string(what) + " was given a buffer whose stated length exceeds its memory (offset " +
                            std::to_string(static_cast<const char *>(bad) - static_cast<const char *>(p)) + " of " + std::to_string(n) + ")");
#endif
}

static void foreign(const char *op, int fd) {
    World &x = w();
    x.foreign.push_back(std::string(op) + "(fd " + std::to_string(fd) + (x.former.count(fd) ? ", already closed" : "") + ")");
}

static ssize_t do_recv(Conn &c, void *buf, size_t n, int flags) {
    Inside inside;
    World &x = w();
    Fault f;
    if (!(flags & MSG_PEEK)) {
        if (fault(kRecv, f)) {
            if (f.err) { errno = f.err; return -1; }
            if (f.partial > 0 && n > static_cast<size_t>(f.partial)) n = static_cast<size_t>(f.partial);
        }
    }
    check_buf(buf, n, "recv");
    if (c.state == 0 || c.state == 1) { errno = c.state == 1 && (c.flags & O_NONBLOCK) ? EAGAIN : ENOTCONN; return -1; }
    if (n == 0) return 0;
    bool nonblock = (c.flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
    int64_t deadline = c.rcvtimeo > 0 ? x.now + c.rcvtimeo : -1;
    while (!readable_now(c)) {
        if (nonblock) { errno = EAGAIN; return -1; }
        int64_t t = next_time(c);
        if (t < 0 || (deadline >= 0 && t > deadline)) {
            if (deadline >= 0) { advance(deadline - x.now); errno = EAGAIN; return -1; }
            hang("recv/read with no data, no timeout");
            errno = ETIMEDOUT;
            return -1;
        }
        advance(std::max<int64_t>(0, t - x.now));
        arrive(c);
    }
    if (!c.readable.empty()) {
        size_t k = std::min(n, c.readable.size());
        memcpy(buf, c.readable.data(), k);
        if (!(flags & MSG_PEEK)) {
            if (x.keep_trace) x.trace.push_back(Ev{'R', c.id, x.now, c.readable.substr(0, k)});
            c.readable.erase(0, k);
            c.read += k;
        }
        return static_cast<ssize_t>(k);
    }
    if (c.rst) { errno = ECONNRESET; return -1; }
    if (c.state == 3) { errno = c.pending_error ? c.pending_error : ENOTCONN; return -1; }
    return 0;
}

static ssize_t do_send(Conn &c, const void *buf, size_t n, int flags) {
    Inside inside;
    World &x = w();
    Fault f;
    bool part = false;
    if (fault(kSend, f)) {
        if (f.err) {
            errno = f.err;
            if (f.err == EPIPE && !(flags & MSG_NOSIGNAL)) { raise(SIGPIPE); errno = EPIPE; }
            return -1;
        }
        if (f.partial > 0 && n > static_cast<size_t>(f.partial)) { n = static_cast<size_t>(f.partial); part = true; }
    }
    (void)part;
    check_buf(buf, n, "send");
    if (c.state != 2) { errno = c.state == 3 ? EPIPE : ENOTCONN; if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) { raise(SIGPIPE); errno = EPIPE; } return -1; }
    if (c.rst || c.shut_wr || (c.fin && c.writes_after_fin > 0)) {
        bool was_rst = c.rst && c.writes_after_fin == 0 && !c.fin;
        c.writes_after_fin++;
        if (was_rst) { errno = ECONNRESET; return -1; }
        if (!(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
        errno = EPIPE;
        return -1;
    }
    bool nonblock = (c.flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
    int64_t deadline = c.sndtimeo > 0 ? x.now + c.sndtimeo : -1;
    while (window_full(c)) {
        if (nonblock) { errno = EAGAIN; return -1; }
        int64_t t = c.window_reopen;
        if (t < 0 || (deadline >= 0 && t > deadline)) {
            if (deadline >= 0) { advance(deadline - x.now); errno = EAGAIN; return -1; }
            hang("send/write to a peer that stopped reading, no timeout");
            errno = ETIMEDOUT;
            return -1;
        }
        advance(std::max<int64_t>(0, t - x.now));
    }
    if (c.window >= 0 && !(c.window_reopen >= 0 && x.now >= c.window_reopen)) {
        size_t room = static_cast<size_t>(c.window - static_cast<int64_t>(c.written));
        if (n > room) n = room;   // a partial send: what fits in the peer's window
    }
    std::string data(static_cast<const char *>(buf), n);
    c.written += n;
    if (c.fin) c.writes_after_fin++;
    event("send");
    if (x.keep_trace) x.trace.push_back(Ev{'W', c.id, x.now, data});
    if (c.server && !c.fin) { x.in_server = true; c.server->on_data(c, data); x.in_server = false; }
    arrive(c);
    return static_cast<ssize_t>(n);
}

static int do_close(int fd) {
    Inside inside;
    World &x = w();
    auto it = x.byfd.find(fd);
    if (it == x.byfd.end()) {
        if (x.former.count(fd)) { foreign("close", fd); errno = EBADF; return -1; }
        return static_cast<int>(syscall(SYS_close, fd));
    }
    step();
    Conn &c = *it->second;
    Fault f;
    bool faulted = fault(kClose, f);
    event("close");
    int same = 0;
    for (auto &p : x.byfd) if (p.second == &c) same++;
    if (same > 1) {                       // another descriptor of the same connection remains
        x.former.insert(fd);
        x.byfd.erase(it);
        if (c.fd == fd) for (auto &p : x.byfd) if (p.second == &c) c.fd = p.first;
        release_fd(fd);
        if (faulted && f.err) { errno = f.err; return -1; }
        return 0;
    }
    c.closed = true;
    x.closed_count++;
    if (x.keep_trace) x.trace.push_back(Ev{'X', c.id, x.now, ""});
    if (c.server) { x.in_server = true; c.server->on_close(c); x.in_server = false; }
    x.former.insert(fd);
    x.byfd.erase(it);
    release_fd(fd);
    if (faulted && f.err) { errno = f.err; return -1; }
    return 0;
}

static int do_connect(Conn &c, const struct sockaddr *a, socklen_t) {
    Inside inside;
    World &x = w();
    if (c.state == 1) { errno = EALREADY; return -1; }
    if (c.state == 2) { errno = EISCONN; return -1; }
    Fault f;
    event("connect");
    if (fault(kConnect, f) && f.err && f.err != EINTR) { errno = f.err; return -1; }
    bool eintr = f.err == EINTR;
    if (a->sa_family == AF_INET) {
        const struct sockaddr_in *in = reinterpret_cast<const struct sockaddr_in *>(a);
        c.ip = ntohl(in->sin_addr.s_addr);
        c.port = ntohs(in->sin_port);
    }
    ConnPlan p;
    if (x.plan) p = x.plan(c);
    c.server = p.server;
    if (p.connect_errno) { errno = p.connect_errno; c.state = 0; return -1; }
    c.connect_error = p.so_error;
    c.connect_at = p.connect_delay < 0 ? -1 : x.now + p.connect_delay;
    if (c.connect_at >= 0) x.arrivals.push_back(c.connect_at);
    c.state = 1;
    if (p.immediate && !eintr) { c.connect_at = x.now; arrive(c); if (c.state == 2) return 0; errno = c.pending_error; c.pending_error = 0; return -1; }
    if (eintr) { errno = EINTR; return -1; }   // the connection attempt goes on in the background
    if (c.flags & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
    int64_t deadline = c.sndtimeo > 0 ? x.now + c.sndtimeo : -1;
    int64_t t = next_time(c);
    if (t < 0 || (deadline >= 0 && t > deadline)) {
        if (deadline >= 0) { advance(deadline - x.now); errno = EINPROGRESS; return -1; }
        hang("blocking connect that never completes");
        errno = ETIMEDOUT;
        return -1;
    }
    advance(t - x.now);
    arrive(c);
    if (c.state == 2) return 0;
    errno = c.pending_error; c.pending_error = 0;
    return -1;
}

struct PollItem { Conn *c; int fd; short ev, rev; };
// timeout < 0: infinite
static int do_poll(std::vector<PollItem> &items, int64_t timeout, const char *what) {
    Inside inside;
    World &x = w();
    step();
    Fault f;
    if (fault(kWait, f)) {
        if (f.err) { if (f.partial > 0) advance(f.partial); errno = f.err; return -1; }
    }
    int64_t deadline = timeout < 0 ? -1 : x.now + timeout;
    while (true) {
        int n = 0;
        int64_t nt = -1;
        for (auto &i : items) {
            i.rev = 0;
            if (!i.c) { i.rev = POLLNVAL; n++; continue; }
            arrive(*i.c);
            if ((i.ev & POLLIN) && readable_now(*i.c)) i.rev |= POLLIN;
            if ((i.ev & POLLOUT) && writable_now(*i.c)) i.rev |= POLLOUT;
            if (i.c->rst || i.c->state == 3) i.rev |= POLLERR | POLLHUP;
            if (i.c->fin && i.c->shut_wr) i.rev |= POLLHUP;
            if (i.rev) n++;
            int64_t t = next_time(*i.c);
            if (i.c->window_reopen > x.now && (i.ev & POLLOUT) && (t < 0 || i.c->window_reopen < t)) t = i.c->window_reopen;
            if (t >= 0 && (nt < 0 || t < nt)) nt = t;
        }
        if (n > 0) return n;
        if (deadline >= 0 && x.now >= deadline) return 0;
        if (nt < 0 || (deadline >= 0 && nt > deadline)) {
            if (deadline < 0) { hang(what); errno = EINTR; return -1; }
            advance(deadline - x.now);
            continue;
        }
        advance(std::max<int64_t>(nt - x.now, 1));
    }
}

static bool host_lookup(const char *name, uint32_t &ip) {
    Inside inside;
    World &x = w();
    Fault f;
    x.resolved.push_back(name ? name : "");
    if (fault(kResolve, f)) return false;
    std::string a;
    if (x.resolve) { if (!x.resolve(name, a) || a.size() != 4) return false; memcpy(&ip, a.data(), 4); ip = ntohl(ip); return true; }
    uint32_t h = static_cast<uint32_t>(pbt::hash64(name ? name : ""));
    ip = 0x0a000000u | (h & 0xffffff);
    return true;
}

}  // namespace sim

using namespace sim;

extern "C" {

int socket(int domain, int type, int) noexcept {
    Inside inside;
    World &x = w();
    step();
    Fault f;
    if (fault(kSocket, f) && f.err) { errno = f.err; return -1; }
    (void)domain;
    int base = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0));
    if (base < 0) return -1;
    int fd;
    if (x.zero_free && !x.byfd.count(0)) {
        fd = static_cast<int>(syscall(SYS_dup3, base, 0, 0));
        x.former.erase(0);
        syscall(SYS_close, base);
    } else {
        fd = static_cast<int>(syscall(SYS_fcntl, base, F_DUPFD, x.next_fd));
        syscall(SYS_close, base);
        if (fd >= 0) x.next_fd = fd + 1;
    }
    if (fd < 0) { fprintf(stderr, "sim: cannot allocate descriptor\n"); errno = EMFILE; return -1; }
    auto c = std::make_unique<Conn>();
    c->id = static_cast<int>(x.conns.size());
    c->fd = fd;
    if (type & SOCK_NONBLOCK) c->flags |= O_NONBLOCK;
    x.byfd[fd] = c.get();
    x.conns.push_back(std::move(c));
    x.opened++;
    return fd;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    Conn *c = find(fd);
    if (!c) { foreign("connect", fd); errno = EBADF; return -1; }
    return do_connect(*c, a, l);
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    Conn *c = find(fd);
    if (!c) { foreign("recv", fd); errno = w().former.count(fd) ? EBADF : ENOTSOCK; return -1; }
    return do_recv(*c, b, n, fl);
}
ssize_t __recv_chk(int fd, void *b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return recv(fd, b, n, fl); }
ssize_t send(int fd, const void *b, size_t n, int fl) {
    Conn *c = find(fd);
    if (!c) { foreign("send", fd); errno = w().former.count(fd) ? EBADF : ENOTSOCK; return -1; }
    return do_send(*c, b, n, fl);
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return send(fd, b, n, fl); }
ssize_t read(int fd, void *b, size_t n) {
    if (w().former.count(fd) && !w().byfd.count(fd)) { foreign("read", fd); errno = EBADF; return -1; }
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    if (!c) return static_cast<ssize_t>(syscall(SYS_read, fd, b, n));
    return do_recv(*c, b, n, 0);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (w().former.count(fd) && !w().byfd.count(fd)) { foreign("write", fd); errno = EBADF; return -1; }
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    if (!c) return static_cast<ssize_t>(syscall(SYS_write, fd, b, n));
    return do_send(*c, b, n, 0);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    if (!c) return static_cast<ssize_t>(syscall(SYS_writev, fd, v, k));
    std::string s;
    for (int i = 0; i < k; i++) s.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
    return do_send(*c, s.data(), s.size(), 0);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    if (!c) return static_cast<ssize_t>(syscall(SYS_readv, fd, v, k));
    if (k < 1) return 0;
    return do_recv(*c, v[0].iov_base, v[0].iov_len, 0);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    Conn *c = find(fd);
    if (!c) { foreign("sendmsg", fd); errno = EBADF; return -1; }
    std::string s;
    for (size_t i = 0; i < m->msg_iovlen; i++) s.append(static_cast<const char *>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
    return do_send(*c, s.data(), s.size(), fl);
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    Conn *c = find(fd);
    if (!c) { foreign("recvmsg", fd); errno = EBADF; return -1; }
    if (m->msg_iovlen < 1) return 0;
    return do_recv(*c, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl);
}
int close(int fd) { return do_close(fd); }
int shutdown(int fd, int how) noexcept {
    Conn *c = find(fd);
    if (!c) { foreign("shutdown", fd); errno = EBADF; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) c->shut_rd = true;
    if (how == SHUT_WR || how == SHUT_RDWR) c->shut_wr = true;
    return 0;
}
static int dup_to(Conn *c, int fd, int to, bool exact) {
    World &x = w();
    if (exact && to == fd) return fd;
    if (exact) do_close(to);
    int n = static_cast<int>(exact ? syscall(SYS_dup3, fd, to, 0) : syscall(SYS_fcntl, fd, F_DUPFD, static_cast<long>(to)));
    if (n < 0) return -1;
    if (n >= x.next_fd) x.next_fd = n + 1;
    x.former.erase(n);
    x.byfd[n] = c;
    return n;
}
int dup(int fd) noexcept {
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    return c ? dup_to(c, fd, w().next_fd, false) : static_cast<int>(syscall(SYS_dup, fd));
}
int dup2(int fd, int to) noexcept {
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    return c ? dup_to(c, fd, to, true) : fd == to ? to : static_cast<int>(syscall(SYS_dup3, fd, to, 0));
}
int dup3(int fd, int to, int fl) noexcept {
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    return c ? dup_to(c, fd, to, true) : static_cast<int>(syscall(SYS_dup3, fd, to, fl));
}
static int fcntl_impl(int fd, int cmd, long arg) {
    Inside inside;
    World &x = w();
    if (x.former.count(fd) && !x.byfd.count(fd)) { foreign("fcntl", fd); errno = EBADF; return -1; }
    Conn *c = x.byfd.count(fd) ? find(fd) : nullptr;
    if (!c) return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
    Fault f;
    if (cmd == F_GETFL) {
        if (fault(kFcntlGet, f) && f.err) { errno = f.err; return -1; }
        return c->flags;
    }
    if (cmd == F_SETFL) {
        if (fault(kFcntlSet, f) && f.err) { errno = f.err; return -1; }
        c->flags = static_cast<int>((arg & O_NONBLOCK) | O_RDWR);
        return 0;
    }
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_to(c, fd, std::max(static_cast<int>(arg), x.next_fd), false);
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl_impl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    Conn *c = w().byfd.count(fd) ? find(fd) : nullptr;
    if (!c) return static_cast<int>(syscall(SYS_ioctl, fd, req, a));
    if (req == FIONBIO) { if (*static_cast<int *>(a)) c->flags |= O_NONBLOCK; else c->flags &= ~O_NONBLOCK; return 0; }
    if (req == FIONREAD) { *static_cast<int *>(a) = static_cast<int>(c->readable.size()); return 0; }
    errno = EINVAL; return -1;
}
int getsockopt(int fd, int level, int name, void *v, socklen_t *l) noexcept {
    Conn *c = find(fd);
    if (!c) { foreign("getsockopt", fd); errno = EBADF; return -1; }
    Fault f;
    if (fault(kGetsockopt, f) && f.err) { errno = f.err; return -1; }
    memset(v, 0, *l);
    if (level == SOL_SOCKET && name == SO_ERROR && *l >= sizeof(int)) {
        int e = c->pending_error; c->pending_error = 0;
        memcpy(v, &e, sizeof e);
        *l = sizeof(int);
    } else if (level == SOL_SOCKET && name == SO_TYPE && *l >= sizeof(int)) { int t = SOCK_STREAM; memcpy(v, &t, sizeof t); *l = sizeof(int); }
    return 0;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t l) noexcept {
    Conn *c = find(fd);
    if (!c) { foreign("setsockopt", fd); errno = EBADF; return -1; }
    Fault f;
    if (fault(kSetsockopt, f) && f.err) { errno = f.err; return -1; }
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
        struct timeval tv; memcpy(&tv, v, sizeof tv);
        int64_t us = tv.tv_sec * 1000000LL + tv.tv_usec;
        (name == SO_RCVTIMEO ? c->rcvtimeo : c->sndtimeo) = us;
    }
    return 0;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) noexcept {
    Conn *c = find(fd);
    if (!c) { errno = EBADF; return -1; }
    struct sockaddr_in in {}; in.sin_family = AF_INET; in.sin_port = htons(static_cast<uint16_t>(c->port)); in.sin_addr.s_addr = htonl(c->ip);
    memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in;
    return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) noexcept { return getpeername(fd, a, l); }

static int select_impl(int n, fd_set *r, fd_set *wr, fd_set *e, int64_t timeout) {
    Inside inside;
    std::vector<PollItem> items;
    for (int fd = 0; fd < n; fd++) {
        auto has = [&](fd_set *s) { return s && (reinterpret_cast<unsigned char *>(s)[fd / 8] >> (fd % 8) & 1); };
        short ev = 0;
        if (has(r)) ev |= POLLIN;
        if (has(wr)) ev |= POLLOUT;
        if (!ev && !has(e)) continue;
        Conn *c = find(fd);
        if (!c) { foreign("select", fd); errno = EBADF; return -1; }
        items.push_back(PollItem{c, fd, ev, 0});
    }
    int rc = do_poll(items, timeout, "select without timeout");
    if (rc < 0) return rc;
    size_t bytes = static_cast<size_t>((n + 7) / 8);
    if (r) memset(r, 0, bytes);
    if (wr) memset(wr, 0, bytes);
    if (e) memset(e, 0, bytes);
    int cnt = 0;
    for (auto &i : items) {
        auto set = [&](fd_set *s) { reinterpret_cast<unsigned char *>(s)[i.fd / 8] |= static_cast<unsigned char>(1 << (i.fd % 8)); cnt++; };
        if ((i.rev & (POLLIN | POLLERR | POLLHUP)) && (i.ev & POLLIN)) set(r);
        if ((i.rev & (POLLOUT | POLLERR)) && (i.ev & POLLOUT)) set(wr);
    }
    return cnt;
}
int select(int n, fd_set *r, fd_set *wr, fd_set *e, struct timeval *tv) {
    int64_t t = tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1;
    int64_t t0 = w().now;
    int rc = select_impl(n, r, wr, e, t);
    if (tv) { int64_t left = std::max<int64_t>(0, t - (w().now - t0)); tv->tv_sec = left / 1000000; tv->tv_usec = left % 1000000; }
    return rc;
}
int pselect(int n, fd_set *r, fd_set *wr, fd_set *e, const struct timespec *ts, const sigset_t *) {
    return select_impl(n, r, wr, e, ts ? ts->tv_sec * 1000000LL + ts->tv_nsec / 1000 : -1);
}
static int poll_impl(struct pollfd *p, nfds_t n, int64_t timeout) {
    Inside inside;
    std::vector<PollItem> items;
    bool any = false;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0) { items.push_back(PollItem{nullptr, -1, 0, 0}); continue; }
        Conn *c = w().byfd.count(p[i].fd) ? find(p[i].fd) : nullptr;
        if (c) any = true;
        items.push_back(PollItem{c, p[i].fd, p[i].events, 0});
    }
    if (!any) {   // nothing of ours: real poll
        for (auto &i : items) if (i.fd >= 0 && w().former.count(i.fd)) foreign("poll", i.fd);
        return static_cast<int>(syscall(SYS_poll, p, n, timeout < 0 ? -1 : static_cast<int>(timeout / 1000)));
    }
    std::vector<PollItem> live;
    for (auto &i : items) if (i.fd >= 0) live.push_back(i);
    int rc = do_poll(live, timeout, "poll without timeout");
    size_t k = 0;
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0) p[i].revents = live[k++].rev;
    return rc;
}
int poll(struct pollfd *p, nfds_t n, int ms) { return poll_impl(p, n, ms < 0 ? -1 : ms * 1000LL); }
int __poll_chk(struct pollfd *p, nfds_t n, int ms, size_t) { return poll(p, n, ms); }
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return poll_impl(p, n, ts ? ts->tv_sec * 1000000LL + ts->tv_nsec / 1000 : -1); }

struct hostent *gethostbyname(const char *name) {
    static struct hostent h;
    static char *aliases[1] = {nullptr};
    static char addr[4];
    static char *addrs[2] = {addr, nullptr};
    static char hn[256];
    step();
    uint32_t ip;
    if (!host_lookup(name, ip)) { h_errno = HOST_NOT_FOUND; return nullptr; }
    uint32_t n = htonl(ip);
    memcpy(addr, &n, 4);
    strncpy(hn, name, sizeof hn - 1);
    h.h_name = hn; h.h_aliases = aliases; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = addrs;
    return &h;
}
int gethostbyname_r(const char *name, struct hostent *ret, char *buf, size_t n, struct hostent **res, int *herr) {
    struct hostent *h = gethostbyname(name);
    *res = nullptr;
    if (!h) { *herr = HOST_NOT_FOUND; return 0; }
    if (n < 64) return ERANGE;
    char **al = reinterpret_cast<char **>(buf);
    al[0] = buf + 40; al[1] = nullptr; al[2] = nullptr;
    memcpy(buf + 40, h->h_addr_list[0], 4);
    *ret = *h; ret->h_addr_list = al; ret->h_aliases = al + 2;
    *res = ret;
    return 0;
}
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    step();
    uint32_t ip;
    if (!host_lookup(node, ip)) return EAI_NONAME;
    struct addrinfo *a = static_cast<struct addrinfo *>(calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in)));
    struct sockaddr_in *in = reinterpret_cast<struct sockaddr_in *>(a + 1);
    in->sin_family = AF_INET;
    in->sin_port = htons(static_cast<uint16_t>(service ? atoi(service) : 0));
    in->sin_addr.s_addr = htonl(ip);
    a->ai_family = AF_INET; a->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
    a->ai_addrlen = sizeof *in; a->ai_addr = reinterpret_cast<struct sockaddr *>(in);
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) noexcept { free(a); }

static int64_t wall() { int64_t n = w().now + EPOCH * 1000000; for (auto &j : w().clock_jumps) if (w().now >= j.first) n += j.second; return n; }
unsigned int sleep(unsigned int s) { if (!g_in_case) { struct timespec t{static_cast<time_t>(s), 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } step(); advance(s * 1000000LL); return 0; }
int usleep(useconds_t us) { if (!g_in_case) { struct timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000}; return static_cast<int>(syscall(SYS_nanosleep, &t, nullptr)); } step(); advance(us); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!g_in_case) return static_cast<int>(syscall(SYS_nanosleep, t, r)); step(); advance(t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000); return 0; }
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *r) {
    if (!g_in_case) return static_cast<int>(syscall(SYS_clock_nanosleep, id, flags, t, r));
    step();
    int64_t us = t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000;
    if (flags & TIMER_ABSTIME) { us -= id == CLOCK_REALTIME ? wall() : w().now + 1000LL * 1000000; }
    if (us > 0) advance(us);
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (!g_in_case) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    int64_t n = w().now;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = wall();
    else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    else n += 1000LL * 1000000;
    ts->tv_sec = n / 1000000; ts->tv_nsec = (n % 1000000) * 1000;
    return 0;
}
time_t time(time_t *t) noexcept { if (!g_in_case) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } time_t v = static_cast<time_t>(wall() / 1000000); if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) noexcept { if (!g_in_case) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } int64_t n = wall(); tv->tv_sec = n / 1000000; tv->tv_usec = n % 1000000; return 0; }

}  // extern "C"
