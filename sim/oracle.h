// Executable reference model of a kqueue and the checks made against it.
#pragma once
#include "sim.h"
#include <sys/event.h>
#include <list>

enum Cat { C_RESULT, C_SPURIOUS, C_DISABLED, C_NOTDUE, C_DUP, C_UDATA, C_MISSED, C_LATE, C_DATA, C_EOF, C_AGAIN,
           C_COUNT, C_ORDER, C_TIMEOUT, C_LEAK, C_CLOEXEC, C_LOCK, C_SIGNAL, C_REAP, C_CLOSE, C_CREATE, C_STARVE, C_FOREIGN, C_COST, C_N };
extern const char *cat_names[C_N];

enum VN { V_DELETE, V_WRITE, V_EXTEND, V_ATTRIB, V_LINK, V_RENAME, V_N };
struct KQ;
struct KN {
    KQ *q = nullptr; int filter = 0; uintptr_t ident = 0; bool en = true; unsigned fl = 0; void *udata = nullptr;
    unsigned fflags = 0; int64_t data = 0; OFD *o = nullptr; int starve = 0; /* events of others handed out in calls throughout which it was due */ bool tainted = false, quiet = false, fresh = true; uint64_t serial = 0;
    // what was true during the current call
    bool ever = false, always = true, seen = false; std::vector<int64_t> vals; std::set<int64_t> sizes, offs; bool anyval = false; bool eof_ever = false, eof_must = true; std::set<int> errs; bool err_always = true;
    uint64_t act = 0, act_e = 0, ack_lo = 0, ack_hi = 0, may = 0, may_e = 0, ack_may = 0;           // activity on the source, for EV_CLEAR
    ns_t lo = 0, hi = 0, p = 0; bool abs = false, arming = false; int64_t C = 0;   // timers
    bool trig = false, mtrig = false /* asked for on creation */; unsigned uff = 0;                             // user events
    uint64_t hap[V_N] = {0}, rep[V_N] = {0}, hap_e[V_N] = {0}, base[V_N] = {0} /* what had happened when the call that last reported something began */; std::set<int> nl; bool must[V_N] = {false}; uint64_t must_at[V_N] = {0}; int64_t vsize = INT64_MAX; // the size the library last saw, if the model can tell:  // file changes
    bool file() const { return o && o->kind == K_FILE && (filter == EVFILT_READ || filter == EVFILT_WRITE); }
};
typedef std::pair<int, uintptr_t> KKey;
struct KQ { int serial = 0, fd = -1; bool open = false; Thread *owner = nullptr; std::map<KKey, KN> m; std::map<int, OFD*> dead; bool shared = false, extra = false; };
struct Chg { struct kevent k; };
struct Call { KQ *q; Thread *t; ns_t t0; bool rescued = false, blocking = false, null_ts = false; uint64_t intr0 = 0; const std::vector<struct kevent> *chg = nullptr; };
extern std::list<Call*> active; extern std::list<KQ*> kqs; extern uint64_t vn_seq;
extern std::set<uintptr_t> tainted_fds; extern uint64_t cost_bb, cost_se;

struct KevOpts { bool null_ts = false; int64_t ts_sec = 0, ts_nsec = 0; int nev = 8; bool null_list = false, alias = false; bool final = false; std::vector<struct kevent> extra; /* appended, unknown to the model */ };
struct KevRes { int n, err; std::vector<struct kevent> ev; int receipts; int events; };

void o_bad_time(KQ *q, const std::vector<struct kevent> &ch, int nev, int64_t sec, int64_t nsec);
void fail(Cat c, const KN *k, int filter, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
bool covers(const char *target, Cat c, int filter, const KN *k);
void oracle_init();
int due(KN &k);                       // 0 no, 1 maybe, 2 certainly
KQ *o_kqueue(bool faults_possible);   // null when it failed because of an injected fault
void o_close(KQ *q);
bool legal(KQ *q, const struct kevent &c, const std::map<KKey, KN> &m);
KevRes o_kevent(KQ *q, std::vector<struct kevent> ch, const KevOpts &o);
void o_check_fds();                   // close-on-exec and ownership invariants
void o_zero_check(KQ *q);
std::string kn_str(int filter, uintptr_t ident);
extern std::function<bool(int pid)> proc_reaped_ok;
extern bool strict_files, truncates_used;
int sig_owned(int sig);
