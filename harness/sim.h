// Simulated network with virtual time. The executable defines the libc socket, clock and sleep functions
// strongly, so the library (and OpenSSL) run unchanged against this model; every other descriptor passes through.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

enum Call { kResolve, kSocket, kFcntlGet, kFcntlSet, kConnect, kWait, kGetsockopt, kSetsockopt, kSend, kRecv, kClose, kCallCount };
extern const char *call_names[kCallCount];

struct Conn;
struct Server {
    virtual ~Server() {}
    virtual void on_connect(Conn &) {}
    virtual void on_data(Conn &, const std::string &) {}
    virtual void on_close(Conn &) {}
};

struct Seg { int64_t at; std::string bytes; int kind; };   // kind 0 data, 1 FIN, 2 RST

struct Ev {
    int kind;              // 'C' connect done, 'W' client wrote, 'R' client read, 'X' client closed
    int conn;
    int64_t at;
    std::string bytes;
};

struct Conn {
    int id = -1, fd = -1;
    bool stream_created = true;
    int state = 0;                       // 0 new, 1 connecting, 2 connected, 3 failed
    int64_t connect_at = 0;              // when a pending connect completes (<0 never)
    int connect_error = 0;               // error delivered at completion
    int pending_error = 0;               // SO_ERROR
    uint32_t ip = 0; int port = 0;
    int flags = 2 /*O_RDWR*/;
    int64_t rcvtimeo = 0, sndtimeo = 0;
    std::deque<Seg> in;
    std::string readable;                // arrived, unread
    bool fin = false, rst = false;
    int64_t last_sched = 0;
    bool server_closed = false;          // server sent FIN
    int writes_after_fin = 0;
    bool closed = false;                 // client closed
    bool shut_wr = false, shut_rd = false;
    uint64_t written = 0, read = 0;
    int64_t window = -1;                 // bytes accepted before writes stall (-1 unlimited)
    int64_t window_reopen = -1;          // virtual time at which the stall ends (-1 never)
    std::shared_ptr<Server> server;
    // server side
    void deliver(const std::string &b, int64_t delay = 0);
    void deliver_fin(int64_t delay = 0);
    void deliver_rst(int64_t delay = 0);
    bool all_read() const;               // has the client consumed everything delivered so far?
};

struct ConnPlan {
    int connect_errno = 0;               // connect() fails at once
    int64_t connect_delay = 1000;        // microseconds until established; -1 never
    int so_error = 0;                    // established with this error instead
    bool immediate = false;              // connect() succeeds at once
    std::shared_ptr<Server> server;
};

struct Fault { int err = 0; int64_t partial = -1; };

struct World {
    int64_t now = 0;
    std::vector<std::unique_ptr<Conn>> conns;
    std::map<int, Conn *> byfd;
    std::function<ConnPlan(Conn &)> plan;                 // called at connect()
    std::function<bool(const std::string &, std::string &)> resolve;   // host -> 4 byte address; false = failure
    std::map<std::pair<int, int>, Fault> faults;          // (call, nth) -> fault
    std::map<int, Fault> sticky;                          // call -> fault from now on
    int counts[kCallCount] = {0};
    std::vector<std::pair<int, int>> fired;               // faults that fired
    bool hang = false; std::string hang_where;
    std::vector<Ev> trace;
    bool keep_trace = true;
    std::vector<int64_t> arrivals;                        // when something happened that a client may have waited for
    std::vector<std::string> foreign;                     // operations on descriptors that are not ours
    std::set<int> former;                                 // closed simulated descriptors
    int next_fd = 300;
    bool zero_free = false;                               // the process has closed its standard input: descriptor 0 is handed out first
    int64_t last_event = 0, max_gap = 0; std::string max_gap_where, last_event_what;
    std::vector<std::pair<int64_t, int64_t>> clock_jumps;  // (virtual time, microseconds): the wall clock is set, elapsed time is not affected
    uint64_t steps = 0;
    uint64_t max_steps = 3000000;
    int opened = 0, closed_count = 0;
    bool in_server = false;
    std::vector<std::string> resolved;
};
World &w();
World *use(World *n);            // makes n the world of the calling thread, returns the one used so far
extern thread_local int g_inside;   // > 0 while the simulated system and server are at work
struct Inside { Inside() { g_inside++; } ~Inside() { g_inside--; } };
extern bool g_in_case;           // virtual time applies only inside a case
void reset();                    // closes leftovers, fresh world
void init_shared();              // once per program, before forking
void init_process(const std::string &scratch);
void event(const char *what);    // the client did something visible: closes a waiting gap
int open_fds();                  // simulated descriptors still open
void advance(int64_t us);
extern const int64_t EPOCH;      // seconds

struct Heap { int64_t blocks; int64_t bytes; };
Heap heap();                     // live heap (sanitizer hooks)

}  // namespace sim

namespace pbt { [[noreturn]] void fatal_from_sim(const char *tag, const std::string &msg); }
