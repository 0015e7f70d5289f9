// vsched: deterministic scheduler + simulated kernel for cyclone conformance runs.
// One execution = one forked child; exactly one thread runs at a time (token passing).
// Every atomic operation (via the -fsanitize=thread ABI), lock, condition variable and
// system call of the code under test is a scheduling point.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <string>
#include <vector>
#include <utility>

namespace vs {

// ---------------------------------------------------------------- event log
struct Ev {           // small JSON object builder; flushed to the trace on destruction
    std::string s; bool done=false;
    explicit Ev(const char* e);
    Ev(const Ev&)=delete;
    Ev& i(const char* k, long long v);
    Ev& s_(const char* k, const std::string& v);
    Ev& b(const char* k, bool v);
    Ev& li(const char* k, const std::vector<long long>& v);
    Ev& raw(const char* k, const std::string& json);
    ~Ev();
};
void log_raw(const std::string& json);
void set_cfg(const std::string& json);        // per-trace configuration object

// ---------------------------------------------------------------- control
int  tid();                                   // id of the calling simulated thread (0=main)
bool active();
int  choose(int n, const char* tag);          // environment nondeterminism, 0 is the default
void calm(bool on);                           // while on, every choice is the default one and is not part of the schedule
void point();                                 // explicit scheduling point
void settle();                                // wait until no other thread can run (time stands still)
void sleep_ms(int ms);                        // virtual sleep
int64_t now_ns();
inline int64_t now_ms(){ return now_ns()/1000000; }
void block_until(const std::function<bool()>& pred);
bool all_others_done();
void wait_others_done();                      // block until every other simulated thread has finished
int  alive_threads();                         // simulated threads not finished (excluding caller)
[[noreturn]] void finish(const char* how);    // end this execution now
void as_env(bool on);                         // calls by this thread are environment calls (no fault injection, no points)
struct EnvScope { bool old; EnvScope(); ~EnvScope(); };

// memory the library asked for, has not given back and cannot reach any more (see vsched.cpp)
void lib_track(bool on);
long lib_live();
std::string lib_owners(int most);

// scenario parameters (argv "k=v"), deterministic per run
int  param(const char* k, int dflt);
std::string param_s(const char* k, const char* dflt);
uint64_t rnd();                               // scenario-level random (seeded by --wseed and workload index)
int  rnd_int(int lo, int hi);                 // inclusive

// ---------------------------------------------------------------- simulated kernel knobs
struct KernOpts {
    int  sock_rxcap = 65536;     // receive window of every simulated socket
    int  pipe_cap   = 65536;
    bool short_io   = false;     // offer short reads/writes as environment choices
    bool spurious_eagain=false;  // offer EAGAIN on a ready descriptor
    bool clock_points=false;     // reading the clock is a scheduling point at which the reader may be delayed
    bool time_choice=false;      // offer "let the clock run to the next deadline" as a choice
    bool round_clock=false;      // every reading of the clock is a whole millisecond
    bool weak_cas_fail=false;    // offer spurious failure of weak compare-exchange
    bool poll_order=false;       // offer every rotation of a ready set
    bool poll_fifo=false;        // report a ready set in the order the descriptors became ready
    bool accept_fail=false;      // offer a failing accept (EMFILE)
    bool open_fail=false;        // offer a failing fopen (EMFILE)
    bool eintr=false;            // offer EINTR from epoll_wait
    bool conn_now=false;         // offer a connect() that completes at once
    bool timer_fail=false;       // offer a failing timerfd_create() (EMFILE)
    bool sock_fail=false;        // offer a failing socket() (EMFILE)
    bool fcntl_fail=false, setfd_fail=false;       // offer a failing fcntl(F_SETFL)
    int  mem_points=0;           // 1/N of plain memory accesses become scheduling points (0=off)
    bool log_poll=false;         // log {"e":"poll"} when a poll reports
};
extern KernOpts kopt;

enum ConnPolicy { CP_AUTO=0, CP_REFUSE, CP_HANG, CP_UNREACH, CP_DELAY, CP_TIMEOUT, CP_DELAY_REFUSE };
void set_connect_policy(int port, ConnPolicy p, int delay_ms=0);

bool fd_readable(int fd);   // level-triggered readiness as epoll would report (incl. hup/err)
bool fd_writable(int fd);
int  open_fds();            // simulated descriptors currently open
std::vector<int> open_fd_list();
std::string fd_kind(int fd);
size_t sock_unread(int fd); // bytes waiting in the receive queue
void sock_reset(int fd);    // abort: peer sees RST; also closes fd
bool sock_is_listening_port(int port);
bool fd_is_open(int fd);
int  sock_local_port(int fd);
int  sock_peer_port(int fd);
bool fd_nonblock(int fd);
bool fd_cloexec(int fd);
void set_rxcap(int fd,int cap);
// hook run when the kernel accepts / opens / closes a descriptor
extern std::function<void(int fd,const char* kind)> on_fd_open;
extern std::function<void(int fd,const char* kind)> on_fd_close;
extern std::function<void(int fd,const char* what,int port,int res)> on_net;  // connect/bind/listen/accept results
extern std::function<void()> on_poll;          // called when a poll is about to report
extern std::function<void()> on_poll_block;    // called when a poll is about to sleep

// ---------------------------------------------------------------- scenario registry
typedef void (*scenario_fn)();
struct Reg { Reg(const char* name, scenario_fn fn); };
int run_main(int argc, char** argv);

}
#define VS_SCENARIO(NAME) static void NAME(); static vs::Reg reg_##NAME(#NAME,NAME); static void NAME()
