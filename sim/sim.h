// Deterministic simulator for libkqueue: core interfaces.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <tuple>
#include <signal.h>
#include <ucontext.h>
#include <sys/epoll.h>
#include <sys/types.h>
#include <time.h>

typedef int64_t ns_t;
static const ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

// ------------------------------------------------------------------ results
enum { MAX_FAULT_KINDS = 24 };
enum FaultKind { FK_MALLOC, FK_EMFILE, FK_ENFILE, FK_ENOMEM_SYS, FK_ENOSPC, FK_PTHREAD_CREATE, FK_EINTR_WAIT,
                 FK_SPURIOUS_COND, FK_STALL, FK_PREEMPT_CALL, FK_PREEMPT_BB, FK_CANCEL, FK_FORK, FK_SIGNAL,
                 FK_PEER_CLOSE, FK_PEER_RESET, FK_FD_REUSE, FK_CLOCK_JUMP, FK_PROC_EXIT, FK_EXIT, FK_CLOSE_RACE, FK_N };
extern const char *fault_names[FK_N];

struct Result {           // shared memory, one per run
    int done;             // run completed
    int violated;
    char prop[8];         // property id violated
    char kind[64];        // stable short class of the violation
    char msg[512];
    uint64_t hash;        // hash of the whole observable trace
    uint64_t sched_hash;  // hash of the interleaving (sequence of context switches)
    uint64_t steps, switches, bb, ops, kevents, events, checks;
    uint64_t fault[FK_N];
    int64_t sim_ns;
    uint64_t nontrivial;  // events delivered or state transitions judged by the target property's oracle
    uint64_t nS, nF;      // recorded schedule/fault decisions
    int nops;
    uint64_t known;       // bit mask of known findings observed
    uint64_t state_hash[64]; int nstate;
    uint32_t cov_edges; int inconclusive; char other[256];
};
extern Result *R;

// ------------------------------------------------------------------ decisions
struct Rng { uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) { Rng r{a ^ (b * 0x9e3779b97f4a7c15ULL + 0x7f4a7c15)}; r.next(); return r.next(); }

typedef std::tuple<int,int,int> Key;              // thread, op, local counter
struct Decisions {                                 // sparse, replayable
    bool replay = false;
    std::map<Key,int> S;                           // at that yield: switch to thread
    std::map<std::tuple<int,int,int,int>,int64_t> F; // thread, op, kind, counter -> value
    std::set<int> skip;                            // op serials skipped (main program)
    int maxops = -1;
};
extern Decisions D;

struct Config {
    std::string profile; uint64_t seed; bool verbose = false;
    // schedule policy
    int mode = 1; uint32_t p_call = 0, p_bb = 0;   // per 100000
    uint32_t p_stall = 0;                          // per 100000
    uint32_t fault_rate[FK_N] = {0};               // per 100000 at each opportunity
    int fd_limit = 200; int pid = 4242; bool low_soft = false; int high_fds = 0; // >0: the program already has so many files open that only this many numbers below the limit are left
    unsigned nostdio = 0;     // which of descriptors 0..2 were closed when the process started (bits 0-2), or after the library was first used (bits 3-5)
    bool faults_on = false, debug_env = false;     // debug_env: KQUEUE_DEBUG is set
};
extern Config C;

// ------------------------------------------------------------------ threads
enum TState { T_RUN, T_BLOCK, T_DONE };
struct PendSig { int sig, code, fd, pid, status; };
struct Thread {
    int tid; std::string name; ucontext_t ctx; char *stack; size_t stacksz; TState st = T_RUN;
    std::function<void*(void)> fn; void *ret = nullptr; bool detached = false, joined = false, lib = false;
    std::function<bool()> pred; ns_t deadline = -1; bool timed_out = false; const char *why = "";
    bool cancelpt = false, cancelled_wake = false, interrupted = false, intr_ok = false;
    int saved_errno = 0; bool cancel_pending = false, cancel_enabled = true, cancelling = false;
    std::vector<void*> cbufs; uint64_t sigmask = 0; std::deque<PendSig> pend;
    std::map<void*, void*> tls; void *fake = nullptr;
    int op = 0, local = 0, fcnt[FK_N] = {0}; int lib_depth = 0; long prio = 0; ns_t stalled_in_call = 0, eintr_at = -1, eintr_stall = 0;
    int lib_faults = 0; bool nofault = false, cond_wait = false, ghost = false, cur_call_close_ok = false; int bad_close = -1; void *wait_mtx = nullptr; struct OFD *waiting_ep = nullptr;
    bool harvest_seen = false; void *cur_call = nullptr; int cur_q = 0; bool creating = false; uint64_t bbs = 0, seams = 0, waits = 0, seam_lim = 0; /* basic blocks run, library calls made, waits begun */ uint64_t calls = 0; /* library calls entered plus calls left: odd inside one */
    std::map<int,int> consumed; std::vector<std::pair<int,int>> soerr; /* socket errors the library took: descriptor, value */ uint64_t handled = 0; // signals whose handler ran in this thread (bit mask)
};
extern std::vector<Thread*> threads; extern Thread *cur; extern ns_t now;
extern bool sim_active;
Thread *spawn(const char *name, std::function<void*(void)> fn, bool lib);
void yield_point(const char *what);          // scheduling point
void Thread_wait_eintr(Thread *t);
// returns 0 woken, 1 timeout, 2 cancelled, 3 interrupted
int block_until(const char *why, std::function<bool()> pred, ns_t deadline, bool cancelpt, bool intr_ok);
void thread_exit_now(void *ret);
void advance_time(ns_t to);
ns_t next_event_time();                      // earliest pending simulated event or -1
void act_on_cancel();                        // unwinds current thread, no return
void test_cancel();
bool fault(FaultKind k);                     // fault opportunity; true = inject
int64_t fault_val(FaultKind k, uint32_t rate, std::function<int64_t(Rng&)> gen); // 0 = nothing
void set_op(int op);                         // current thread starts application operation
void trace(const char *fmt, ...) __attribute__((format(printf,1,2)));   // hashed + optionally printed
void violation(const char *prop, const char *kind, const char *fmt, ...) __attribute__((format(printf,3,4), noreturn));
void finish_run() __attribute__((noreturn));
void note_state(uint64_t h);
extern const char *target_prop;              // property this run decides (for crashes, leaks, hangs)
extern std::function<void()> on_quiesce;     // nobody can run and no event pending
extern std::function<void()> on_idle;        // nobody can run now (before time advances)
extern std::function<void(Thread*,int)> on_handler; extern int total_lib_faults;
int owned_allocs(int q); int owned_fds(int q, bool creation_too); std::string owned_dump(int q, bool creation_too);
extern std::function<void()> on_change;      // simulated kernel state or time changed
int nlib_allocs(); size_t lib_alloc_bytes(); std::string lib_alloc_dump();
bool runnable(Thread*t);
bool settle(int maxms);  // main: let every library thread run until idle
void app_sleep(ns_t d);

// ------------------------------------------------------------------ kernel
enum Kind { K_NONE, K_DUMMY, K_EPOLL, K_PIPE_R, K_PIPE_W, K_EVENTFD, K_TIMERFD, K_SIGNALFD, K_INOTIFY, K_PIDFD, K_SOCK, K_FILE };
struct OFD; struct Inode; struct Dentry;
struct Epi { OFD *ep, *target; int fd; uint32_t events; uint64_t data; bool ready; };
extern int deep; extern uint64_t known_mask; extern bool lib_dbg; extern int cap_msgs; extern std::string cap_text;
enum { KF_WAIT_LOCK = 1, KF_FILE_QUIET = 2 };   // findings recorded in known-findings.txt
extern ns_t rt_off; void k_clock_jump(ns_t d);
inline uint64_t SB(int s) { return 1ULL << (s - 1); }   // a signal as a set
uint64_t next_ino();
struct Pipe { uint64_t id = next_ino(); int bytes = 0, cap = 16; int readers = 1, writers = 1; OFD *r = nullptr, *w = nullptr; };
enum SockType { S_UNIX, S_TCP, S_DGRAM, S_LISTEN };
struct INEvent { int wd; uint32_t mask; };
struct Watch { int wd; Inode *ino; uint32_t mask; bool oneshot; };
struct Inode { uint64_t id = next_ino(); std::string path; int nlink = 1; int64_t size = 0; int mode = 0644; int opens = 0; bool gone = false;
               std::vector<std::pair<OFD*,int>> watchers; };
struct Dentry { std::string name; Inode *ino; bool deleted; };
struct OFD {
    Kind kind; int refs = 0; int flags = 0; bool lib = false; uint64_t id; std::string mk; struct Thread *opener = nullptr; uint64_t opcall = 0; // creator, and its library call
    std::vector<Epi*> watchers;
    // epoll
    std::vector<Epi*> items; std::deque<Epi*> rdl;
    // pipe
    Pipe *pipe = nullptr;
    // eventfd
    uint64_t count = 0; bool sema = false;
    // timerfd
    bool armed = false; ns_t next = 0, interval = 0; uint64_t ticks = 0; bool fired = false; int clk = 0; bool rtabs = false;
    // signalfd
    uint64_t mask = 0;
    // inotify
    std::deque<INEvent> inq; std::map<int, Watch*> watches; int nextwd = 1;
    // pidfd
    int pid = 0; bool kqid = false;
    // socket
    SockType st = S_UNIX; OFD *peer = nullptr; bool peer_gone = false; int rbytes = 0, rcap = 16; std::deque<int> dg; int wq = 0; int shut = 0 /*1 rd 2 wr*/; bool peer_shut_wr = false; int err = 0; bool reset = false, bpf = false, chr = false; int sotype = 0;
    // file
    Inode *ino = nullptr; Dentry *de = nullptr; int64_t off = 0; bool wr = false;
    // fasync
    int fsig = 0, fowner = 0, ffd = -1; bool fasync = false;
    bool dead = false; int owner = 0; bool creation = false; int ghost = 0; bool inherited = false; // child world: shared with the parent process
};
struct Fd { OFD *o = nullptr; bool cloexec = false; };
extern std::vector<Fd> fdt; extern std::deque<PendSig> shared_pend;
struct Proc { int pid; bool exited = false, reaped = false, child = true; int code = 0, status = 0; };
extern std::map<int, Proc> procs;
extern uint64_t handler_ran; // signals whose handler ran in any thread

extern std::map<std::string, Dentry*> names; extern int fd_limit_k, fd_soft;
extern std::function<void(OFD*, uint32_t)> on_activity; extern std::function<void(Inode*, uint32_t)> on_inode_event;
OFD *ofd_new(Kind k, bool lib, const char *mk); bool fd_room(int n); int fd_of(OFD *o); int k_dup(int fd); void ofd_release(OFD *o);
int k_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev, int inject); bool k_epoll_ready(OFD *ep); int k_epoll_harvest(OFD *ep, struct epoll_event *out, int max);
void k_tkill(Thread *t, PendSig p); void k_unblocked(Thread *t); bool k_dequeue(uint64_t mask, PendSig *out); bool k_has_pending(Thread *t, uint64_t mask);
int k_inotify_add(int ifd, const char *path, uint32_t mask, int inject); int k_inotify_rm(int ifd, int wd);
void k_timer_set(OFD *o, ns_t value, ns_t interval, bool abs); uint64_t k_timer_read(OFD *o);
int fd_alloc(OFD *o, bool cloexec, int min = 0);          // lowest free or -1/EMFILE
OFD *ofd_get(int fd);
uint32_t k_poll(OFD *o);
void k_wake(OFD *o, uint32_t key);
int k_close(int fd);
int k_pipe(int fds[2], int cap);
int k_sockpair(int fds[2], SockType t, int cap);
int k_listen();
int k_connect_to(int lfd);                   // returns 0
int k_accept(int lfd);                       // consumes one connection
int k_write(int fd, int n);                  // bytes written, -1
int k_read(int fd, int n);
int k_shutdown_wr(int fd);
int k_soerr(int fd, int e); int k_reset(int fd);                         // tcp: peer sees RST
int k_eventfd(uint64_t v);
int k_open(const char *path, bool wr);
int k_unlink(const char *path); int k_link(const char *path, const char *np); int k_rename(const char *path, const char *np);
int k_chmod(int fd); int k_truncate(int fd, int64_t n); int64_t k_lseek(int fd, int64_t off, int wh);
void k_mkfile(const char *path, int64_t size);
void k_kill(int sig); // process-directed
int k_fork_child(); void k_child_exit(int pid, int code, int status); int k_reap(int pid);
int k_wait_peek(int pid, int *code, int *status);
void kernel_init(int limit); int k_open_fds(bool libonly); std::string k_fd_dump(bool libonly);
bool k_sig_pending(int sig); int k_sig_count(int sig);
int sim_fork_world(std::function<void()> child, bool slow); // runs child world to completion
void child_closes_arrive(); void child_exits(); int ghosts_open(); extern std::vector<int> child_inherited_open;
extern std::map<int,int> sig_queued; extern int proc_stolen; extern bool dbg_maybe; extern uint64_t chg_seq; int held_mutexes(int tid); bool stuck_behind_wait(Thread *t);
extern "C" void asan_touch(void *p, int n);
extern bool in_child_world;
extern "C" int kqueue(void);

// application side of pthread
extern "C" {
int sim_pthread_cancel(unsigned long); int sim_pthread_join(unsigned long, void **);
int sim_pthread_setcancelstate(int, int *); void sim_pthread_testcancel(void);
int sim_pthread_sigmask(int, const sigset_t *, sigset_t *);
}
void run_atexit();
int run_profile();   // workload entry (main coroutine)
