// Reference model: predicts every change result, tracks what was true of every source during every call,
// and judges every event list against it.
#include "oracle.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <sys/inotify.h>
#include <sys/wait.h>

const char *cat_names[C_N] = {"change-result","event-without-registration","event-while-disabled","event-without-cause","duplicate-event","wrong-udata",
  "missed-event","missed-wakeup","wrong-data","wrong-eof","event-without-new-activity","event-count","receipts","wait-length","leak","close-on-exec",
  "lock-held","signal","reaped","close","create","starved","caller-state","cost"};
std::list<Call*> active; std::list<KQ*> kqs; std::set<uintptr_t> tainted_fds; uint64_t vn_seq = 0; bool truncates_used = false;
static int kq_serial = 0; static uint64_t kn_serial = 0;
static const char *fname(int f) { switch (f) { case EVFILT_READ: return "READ"; case EVFILT_WRITE: return "WRITE"; case EVFILT_VNODE: return "VNODE"; case EVFILT_PROC: return "PROC"; case EVFILT_SIGNAL: return "SIGNAL"; case EVFILT_TIMER: return "TIMER"; case EVFILT_USER: return "USER"; case EVFILT_LIBKQUEUE: return "LIBKQUEUE"; case 0: return "none"; default: return "OTHER"; } }
std::string kn_str(int f, uintptr_t id) { return std::string(fname(f)) + " " + std::to_string(id); }

// -------------------------------------------------------------------- attribution
#define B(x) (1u << (x))
static const unsigned ALL = ((1u << C_N) - 1) & ~(B(C_FOREIGN) | B(C_COST)); // those two belong to one property each
bool covers(const char *t, Cat c, int f, const KN *k) {
    int p = atoi(t + 1); bool file = k && k->file(); unsigned m = 0;
    switch (p) {
    case 1: m = B(C_RESULT) | B(C_SPURIOUS) | B(C_DISABLED) | B(C_NOTDUE) | B(C_UDATA) | B(C_MISSED) | B(C_LATE) | B(C_ORDER) | B(C_COUNT) | B(C_DUP); break;
    case 2: if (f && ((f != EVFILT_READ && f != EVFILT_WRITE) || file)) return false; m = B(C_MISSED) | B(C_LATE) | B(C_DATA) | B(C_EOF) | B(C_NOTDUE) | B(C_RESULT) | B(C_TIMEOUT) | B(C_SPURIOUS) | B(C_DISABLED) | B(C_DUP) | B(C_UDATA) | B(C_COUNT); break;
    case 3: m = B(C_SPURIOUS) | B(C_NOTDUE) | B(C_DUP) | B(C_UDATA) | B(C_DATA) | B(C_EOF) | B(C_AGAIN) | B(C_COUNT); break;
    case 4: m = B(C_DISABLED) | B(C_MISSED) | B(C_RESULT) | B(C_LATE) | B(C_SPURIOUS) | B(C_NOTDUE) | B(C_DUP); break;
    case 5: if (k && !(k->fl & EV_ONESHOT)) return c == C_SPURIOUS || c == C_RESULT; m = B(C_SPURIOUS) | B(C_MISSED) | B(C_LATE) | B(C_RESULT) | B(C_LEAK) | B(C_DUP) | B(C_DISABLED) | B(C_NOTDUE); break;
    case 6: m = B(C_STARVE) | B(C_MISSED) | B(C_LATE) | B(C_AGAIN) | B(C_NOTDUE) | B(C_DUP); break;
    case 7: if (f && f != EVFILT_TIMER) return false; m = ALL; break;
    case 8: if (f && f != EVFILT_USER) return false; m = ALL; break;
    case 9: if (f && f != EVFILT_SIGNAL) return false; m = ALL; break;
    case 10: if (f && f != EVFILT_PROC) return false; m = ALL; break;
    case 11: if (f && f != EVFILT_VNODE) return false; m = ALL; break;
    case 12: m = B(C_STARVE) | B(C_COUNT) | B(C_ORDER) | B(C_RESULT) | B(C_MISSED) | B(C_DUP) | B(C_TIMEOUT); break;
    case 18: m = B(C_COST) | B(C_TIMEOUT) | B(C_LATE) | B(C_MISSED) | B(C_ORDER); break;
    case 19: m = B(C_CLOEXEC); break;
    case 21: if (f && !file) return false; m = ALL; break;
    case 22: m = ALL; break;
    case 25: m = B(C_COST) | B(C_TIMEOUT) | B(C_LATE) | B(C_MISSED); break;
    case 24: m = B(C_FOREIGN) | B(C_REAP) | B(C_SIGNAL) | B(C_CLOEXEC) | B(C_LOCK); break;
    case 23: m = B(C_STARVE) | B(C_MISSED) | B(C_LATE) | B(C_DUP) | B(C_COUNT) | B(C_DISABLED) | B(C_SPURIOUS) | B(C_NOTDUE); break;
    default: m = ALL; break;      // P13..P17, P20: everything observable in their workloads
    }
    return m & B(c);
}
uint64_t cost_bb, cost_se; // of the last call
static bool judged(Cat c) { return covers(target_prop, c, 0, nullptr); }
void fail(Cat c, const KN *k, int filter, const char *fmt, ...) {
    char b[480]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::string kind = std::string(cat_names[c]) + ":" + fname(filter);
    if (covers(target_prop, c, filter, k)) violation(target_prop, kind.c_str(), "%s", b);
    trace("not judged here: %s %s", kind.c_str(), b);
    R->inconclusive = 1; snprintf(R->other, sizeof R->other, "%s %s", kind.c_str(), b);
    finish_run();
}
// -------------------------------------------------------------------- conditions
static uint32_t rmask(OFD *o) { return k_poll(o) & (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR); }
static uint32_t wmask(OFD *o) { return k_poll(o) & (EPOLLOUT | EPOLLHUP | EPOLLERR); }
static bool stream(OFD *o) { return o->kind == K_SOCK && (o->st == S_UNIX || o->st == S_TCP); }
static bool eofc(OFD *o) { if (o->kind == K_PIPE_R) return o->pipe->writers == 0; if (o->kind == K_PIPE_W) return o->pipe->readers == 0; if (stream(o)) return o->peer_shut_wr || o->peer_gone || o->reset || o->err || (o->shut & 1); return o->err != 0; }
static int64_t rdata(OFD *o) { switch (o->kind) { case K_PIPE_R: return o->pipe->bytes; case K_SOCK: return o->st == S_LISTEN || o->bpf ? 1 : o->st == S_DGRAM ? (o->dg.empty() ? 0 : o->dg.front()) : o->rbytes; case K_EVENTFD: return 1; case K_FILE: return o->ino->size - o->off; default: return 0; } }
static int64_t fdiv(int64_t a, int64_t b) { return a < 0 ? -1 : a / b; }
static int64_t t_lo(KN &k, ns_t t) { // certainly elapsed
    if (k.abs) return t >= k.p ? 1 : 0;
    int64_t n = fdiv(t - k.hi, k.p); if (n < 0) n = 0; return (k.fl & EV_ONESHOT) ? std::min<int64_t>(n, 1) : n; }
static int64_t t_hi(KN &k, ns_t t) { // possibly elapsed
    if (k.abs) return t >= k.p ? ((k.fl & EV_ONESHOT) ? 1 : 1000000000) : 0;
    int64_t n = fdiv(t - k.lo, k.p); if (n < 0) n = 0; return (k.fl & EV_ONESHOT) ? std::min<int64_t>(n, 1) : n; }
static bool vn_must(KN &k) { for (int i = 0; i < V_N; i++) if (k.must[i]) return true; return false; }
static bool vn_may(KN &k) { for (int i = 0; i < V_N; i++) if ((k.fflags & (1u << i)) && k.hap[i] > k.rep[i] && k.hap[i] > k.base[i]) return true; return false; }
static KN *sibling(std::map<KKey, KN> &m, int f, uintptr_t ident) { if (f != EVFILT_READ && f != EVFILT_WRITE) return nullptr; auto s = m.find({(short)(f == EVFILT_READ ? EVFILT_WRITE : EVFILT_READ), ident}); return s == m.end() ? nullptr : &s->second; }
int due(KN &k) {
    if (k.tainted) return 1;
    switch (k.filter) {
    case EVFILT_READ: case EVFILT_WRITE: {
        if (k.o->dead) return 1;
        if (k.o->kind == K_FILE) { if ((k.fl & EV_CLEAR) && k.act <= k.ack_hi) return k.filter == EVFILT_WRITE || rdata(k.o) != 0; /* not specified further */ if (k.filter == EVFILT_WRITE) return 2; int64_t v = rdata(k.o); return v > 0 ? (k.quiet ? 1 : 2) : v < 0 ? 1 : 0; }
        uint32_t m = k.filter == EVFILT_READ ? rmask(k.o) : wmask(k.o);
        if (!m) return 0;
        if (!(k.fl & EV_CLEAR)) return 2;
        if (k.act > k.ack_hi) return 2;
        if (k.act > k.ack_lo || k.may > k.ack_may) return 1;
        KN *s = sibling(k.q->m, k.filter, k.ident); return s && !(s->fl & EV_CLEAR) ? 1 : 0; } // one epoll entry for both: level-triggered unless both are EV_CLEAR
    case EVFILT_TIMER: return t_lo(k, now) > k.C ? (k.abs && k.C ? 1 : 2) : t_hi(k, now) > k.C ? 1 : 0;
    case EVFILT_USER: return k.trig ? 2 : k.mtrig ? 1 : 0;
    case EVFILT_SIGNAL: { for (auto &p : shared_pend) if (p.sig == (int)k.ident) return 2; if (k.q->owner) for (auto &p : k.q->owner->pend) if (p.sig == (int)k.ident) return 2; return 0; }
    case EVFILT_PROC: { auto it = procs.find((int)k.ident); if (it == procs.end() || !it->second.exited || !(k.fflags & NOTE_EXIT)) return 0; return it->second.reaped ? 1 : 2; }
    case EVFILT_VNODE: return vn_must(k) ? 2 : vn_may(k) ? 1 : 0;
    default: return 0;
    }
}
static void observe(KN &k) {
    int d = k.en ? due(k) : 0;
    if (d > 0) k.ever = true;
    if (d < 2) k.always = false;
    if ((k.filter == EVFILT_READ || k.filter == EVFILT_WRITE) && k.o && !k.o->dead) {
        int64_t v = k.filter == EVFILT_READ ? rdata(k.o) : (k.o->kind == K_SOCK && k.o->peer ? k.o->peer->rbytes : 0);
        if (std::find(k.vals.begin(), k.vals.end(), v) == k.vals.end()) k.vals.push_back(v);
        if (k.o->kind == K_FILE) { k.sizes.insert(k.o->ino->size); k.offs.insert(k.o->ino->size - v); }
        if (k.o->err) k.errs.insert(k.o->err); else k.err_always = false;
        bool e = eofc(k.o); if (e) k.eof_ever = true;
        bool must = k.filter == EVFILT_READ ? (k.o->kind == K_PIPE_R ? e : stream(k.o) && e && !k.o->err && rdata(k.o) == 0) : (k_poll(k.o) & (EPOLLHUP | EPOLLERR)) != 0;
        if (!must) k.eof_must = false;
        if (k.file() && k.filter == EVFILT_READ && k.en) for (auto z : k.sizes) if (k.offs.count(z)) k.quiet = true;
    }
    k.seen = true;
}
static void begin_window(KN &k) { memcpy(k.hap_e, k.hap, sizeof k.hap); k.ever = false; k.always = true; k.anyval = false; k.vals.clear(); k.sizes.clear(); k.offs.clear(); k.eof_ever = false; k.eof_must = true; k.errs.clear(); k.err_always = true; k.act_e = k.act; k.may_e = k.may; k.seen = false; observe(k); }
static void changed_hook() {
    for (auto c : active) for (auto &p : c->q->m) { KN &k = p.second;
        if (k.arming && !c->t->waiting_ep) k.hi = now;
        observe(k); }
}
static void activity_hook(OFD *o, uint32_t key) {
    for (auto q : kqs) if (q->open) for (auto &p : q->m) { KN &k = p.second;
        if (k.o != o) continue;
        if (sibling(q->m, k.filter, k.ident)) k.may++;
        if (k.filter == EVFILT_READ && (key == 0 || (key & (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR)))) k.act++;
        if (k.filter == EVFILT_WRITE && (key == 0 || (key & (EPOLLOUT | EPOLLHUP | EPOLLERR)))) k.act++;
    }
}
static std::map<Inode*, std::pair<int64_t,int>> ino_last;
static void inode_hook(Inode *ino, uint32_t mask) {
    auto it = ino_last.find(ino); if (it == ino_last.end()) it = ino_last.insert({ino, {ino->size, ino->nlink}}).first;
    bool ext = ino->size > it->second.first, lnk = ino->nlink != it->second.second, del = ino->nlink == 0 && it->second.second != 0;
    int oldn = it->second.second; it->second = {ino->size, ino->nlink}; vn_seq++;
    bool n[V_N] = {false};
    if (mask & IN_MODIFY) { n[V_WRITE] = true; n[V_EXTEND] = ext; }
    if (mask & IN_ATTRIB) { n[V_ATTRIB] = true; n[V_LINK] = lnk; n[V_DELETE] = del; }
    if (mask & IN_DELETE_SELF) n[V_DELETE] = true;
    if (mask & IN_MOVE_SELF) n[V_RENAME] = true;
    for (auto q : kqs) if (q->open) for (auto &p : q->m) { KN &k = p.second;
        if (k.filter != EVFILT_VNODE || !k.o || k.o->ino != ino) continue;
        bool back = false; if (n[V_LINK]) { k.nl.insert(oldn); back = k.nl.count(ino->nlink); k.nl.insert(ino->nlink); if (back) k.must[V_LINK] = false; } // changed and changed back: cannot be told from no change
        if ((mask & IN_MODIFY) && truncates_used && ino->size <= k.vsize) k.must[V_EXTEND] = false;
        for (int i = 0; i < V_N; i++) if (n[i]) { k.hap[i]++; if (i == V_LINK && back) continue; if (k.en && !k.arming && (k.fflags & (1u << i)) && !(mask & IN_DELETE_SELF) && !(i == V_EXTEND && truncates_used && ino->size <= k.vsize)) { k.must[i] = true; k.must_at[i] = vn_seq; } }
    }
}
static void note_file(OFD *o) { if (o && o->ino && !ino_last.count(o->ino)) ino_last[o->ino] = {o->ino->size, o->ino->nlink}; }
static void idle_hook() {
    for (auto c : active) {
        if (c->t->st != T_BLOCK || c->q->shared) continue;
        if (c->t->waiting_ep) { for (auto &p : c->q->m) { KN &k = p.second; if (k.en && due(k) == 2) fail(C_LATE, &k, k.filter, "%s is due but kevent() stays blocked", kn_str(k.filter, k.ident).c_str()); } }
        else if (!strcmp(c->t->why, "mutex") && stuck_behind_wait(c->t)) { R->known |= KF_WAIT_LOCK; if (!(known_mask & KF_WAIT_LOCK)) fail(C_LOCK, nullptr, 0, "kevent() is stuck behind another thread's wait on the same kqueue"); c->t->stalled_in_call += 86400 * SEC; }  // the kqueue's lock is held for the length of a wait
        else if (!strcmp(c->t->why, "mutex")) fail(C_LOCK, nullptr, 0, "kevent() is stuck waiting for a lock while nothing else runs");
    }
}
static void quiesce_hook() {
    bool any = false;
    for (auto c : active) if (c->t->st == T_BLOCK && c->t->waiting_ep && c->t->deadline < 0) { if (!c->null_ts) fail(C_TIMEOUT, nullptr, 0, "kevent() has a timeout but blocks without limit"); c->rescued = true; c->t->interrupted = true; any = true; }
    if (!any) { std::string s; for (auto t : threads) if (t->st != T_DONE) { s += t->name + "(" + t->why + ") "; } violation(target_prop, "hang", "no thread can make progress: %s", s.c_str()); }
}
int sig_owned(int sig) { for (auto q : kqs) if (q->open && q->m.count({EVFILT_SIGNAL, (uintptr_t)sig})) return q->serial; return 0; }
static void handler_hook(Thread *t, int sig) {
    for (auto q : kqs) if (q->open && q->m.count({EVFILT_SIGNAL, (uintptr_t)sig}) && (t->lib || q->owner == t)) {
        KN &k = q->m[{EVFILT_SIGNAL, (uintptr_t)sig}];
        bool inprogress = false; for (auto c : active) if (c->q == q && k.fresh) inprogress = true;
        if (!inprogress) fail(C_SIGNAL, &k, EVFILT_SIGNAL, "signal %d is registered, yet its handler ran in %s", sig, t->lib ? "a library thread" : "the registering thread");
    }
}
void oracle_init() { on_change = changed_hook; on_activity = activity_hook; on_inode_event = inode_hook; on_idle = idle_hook; on_quiesce = quiesce_hook; on_handler = handler_hook; }

// -------------------------------------------------------------------- kqueue()
extern std::set<int> app_nocloexec;
void o_check_fds() {
    for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o && !fdt[i].o->inherited && fdt[i].o->kind != K_DUMMY) {
        if (Thread *t = fdt[i].o->opener) if (t != cur && (t->lib ? t->st != T_BLOCK && t->st != T_DONE : t->st != T_DONE && (t->calls & 1) && t->calls == fdt[i].o->opcall)) continue; // the call that opened it has not returned
        if (fdt[i].o->lib && !fdt[i].cloexec) fail(C_CLOEXEC, nullptr, 0, "library descriptor %zu (%s) is not close-on-exec", i, fdt[i].o->mk.c_str());
        if (!fdt[i].o->lib && !fdt[i].cloexec) fail(C_CLOEXEC, nullptr, 0, "the close-on-exec flag of application descriptor %zu changed", i);
    }
}
KQ *o_kqueue(bool) {
    KQ *q = new KQ; q->serial = ++kq_serial; q->owner = cur;
    int f0 = total_lib_faults; bool ce = cur->cancel_enabled; uint64_t sm0 = cur->sigmask;
    cur->cur_q = q->serial; cur->creating = true;
    uint64_t bb0 = cur->bbs, se0 = cur->seams;
    cur->calls++; int fd = kqueue(); int e = errno; cur->calls++; cost_bb = cur->bbs - bb0; cost_se = cur->seams - se0;
    cur->cur_q = 0; cur->creating = false;
    trace("kqueue() = %d", fd); R->checks++;
    if (cur->cancel_enabled != ce) fail(C_RESULT, nullptr, 0, "kqueue() changed the caller's cancellation state");
    if (judged(C_FOREIGN) && cur->sigmask != sm0) fail(C_FOREIGN, nullptr, 0, "kqueue() changed the caller's signal mask: %lx to %lx", (unsigned long)sm0, (unsigned long)cur->sigmask);
    if (held_mutexes(cur->tid)) fail(C_LOCK, nullptr, 0, "kqueue() returned %d with a lock held", fd);
    if (fd < 0) {
        if (total_lib_faults == f0 && e != EMFILE) fail(C_CREATE, nullptr, 0, "kqueue() failed with no resource shortage (errno %d)", e);
        if (int n = owned_fds(q->serial, true)) fail(C_LEAK, nullptr, 0, "kqueue() failed but left %d descriptor(s) open: %s", n, owned_dump(q->serial, true).c_str());
        delete q; return nullptr;
    }
    OFD *o = ofd_get(fd);
    if (!o || !o->lib) fail(C_CREATE, nullptr, 0, "kqueue() returned %d, which is not an open descriptor of its own", fd);
    o->kqid = true; q->fd = fd; q->open = true; kqs.push_back(q);
    o_check_fds();
    return q;
}
void o_close(KQ *q) {
    yield_point("app close");
    trace("close kq %d fd %d", q->serial, q->fd);
    OFD *o = ofd_get(q->fd);
    if (!o || !o->kqid) fail(C_CLOSE, nullptr, 0, "descriptor %d of a live kqueue is no longer open", q->fd);
    q->open = false; q->m.clear();
    k_close(q->fd);
    yield_point("app closed");
}
// -------------------------------------------------------------------- changes
struct Exp { bool err = false, any = false; int code = 0; bool special = false; };
static bool unimpl(int f) { return f == EVFILT_AIO || f == EVFILT_NETDEV || f == EVFILT_FS || f == EVFILT_LIO; }
static int64_t unit(unsigned ff) { switch (ff & 7) { case NOTE_USECONDS: return 1000; case NOTE_NSECONDS: return 1; case NOTE_SECONDS: return SEC; default: return MS; } }
static void arm(KN &k) { k.arming = true; k.lo = k.hi = now; k.C = 0; __int128 x = (__int128)k.data * unit(k.fflags); if (x > (__int128)8000000000LL * SEC) x = (__int128)8000000000LL * SEC; k.p = (ns_t)x; k.abs = k.fflags & NOTE_ABSOLUTE; }
// true if the model can say what this change must do
bool legal(KQ *q, const struct kevent &c, const std::map<KKey, KN> &m) {
    auto it = m.find({c.filter, c.ident}); bool ex = it != m.end();
    if ((c.flags & EV_DISPATCH) && (c.flags & EV_ONESHOT)) return true;
    int f = c.filter; bool rw = f == EVFILT_READ || f == EVFILT_WRITE;
    if (f >= 0 || ~f >= EVFILT_SYSCOUNT || unimpl(f)) return true;
    OFD *o = nullptr;
    if (rw || f == EVFILT_VNODE) { if (c.ident < fdt.size()) o = fdt[c.ident].o; if (o && o->lib) return false; }
    if (!ex) {
        if (!(c.flags & EV_ADD)) return true;
        if (c.flags & (EV_DELETE)) return false;
        if (rw) {
            if (!o) return true;
            if (o->kind == K_DUMMY || o->kind == K_EPOLL) return false;
            if (o->kind == K_PIPE_W && f == EVFILT_READ) return false;
            if (o->kind == K_PIPE_R && f == EVFILT_WRITE) return false;
            if (o->kind == K_SOCK && o->st == S_LISTEN && f == EVFILT_WRITE) return false;
        }
        if (f == EVFILT_VNODE) { if (!o) return true; if (o->kind != K_FILE || !(c.fflags & 0x3f)) return false; }
        if (f == EVFILT_TIMER) return c.data != 0;
        if (f == EVFILT_SIGNAL) { if (c.ident < 1 || c.ident > 64 || c.ident == 35 || c.ident == 9 || c.ident == 19 || c.ident == 32 || c.ident == 33) return false; for (auto x : kqs) if (x != q && x->open && x->m.count({EVFILT_SIGNAL, c.ident})) return false; }
        if (f == EVFILT_USER && (c.fflags & NOTE_FFCTRLMASK) != 0 && (c.fflags & NOTE_FFCTRLMASK) != NOTE_FFCOPY) return false;
        if (f == EVFILT_LIBKQUEUE) return true;
        return true;
    }
    const KN &k = it->second;
    if (c.flags & EV_DELETE) return !(c.flags & EV_ADD);
    if (f == EVFILT_LIBKQUEUE) return (c.flags & EV_ADD) && !(c.flags & (EV_ENABLE | EV_DISABLE));
    if (c.flags & EV_DISABLE) return !(c.flags & (EV_ADD | EV_ENABLE)) && !(c.fflags && f == EVFILT_USER);
    if (c.flags & EV_ENABLE) { if (c.flags & EV_ADD) return false; if (c.fflags && f == EVFILT_USER) return false; return true; }
    if (!(c.flags & EV_ADD) && c.flags != 0 && !(c.flags & EV_RECEIPT)) return false;
    if (rw) return (c.flags & EV_CLEAR) && (k.fl & EV_CLEAR) && !k.file() && !(c.flags & EV_ONESHOT);
    if (f == EVFILT_VNODE) return false;
    if (f == EVFILT_TIMER) return (c.flags & EV_ADD) && (c.data > 0 || (c.data < 0 && k.en));
    if (f == EVFILT_USER) return !(c.flags & (EV_ONESHOT | EV_CLEAR) & ~k.fl);
    if (f == EVFILT_SIGNAL) return (c.flags & EV_ADD) && !(c.flags & EV_ONESHOT & ~k.fl);
    if (f == EVFILT_PROC) return c.flags & EV_ADD;
    return false;
}
static int lib_thread_safe = 1, lib_fork_cleanup = 1;
static Exp predict(KQ *q, std::map<KKey, KN> &m, const struct kevent &c, int forced /* -1 none, 0 ok, 1 failed */) {
    Exp e; auto it = m.find({c.filter, c.ident}); bool ex = it != m.end(); int f = c.filter;
    auto E = [&](int code) { e.err = true; e.code = code; return e; };
    if ((c.flags & EV_DISPATCH) && (c.flags & EV_ONESHOT)) return E(EINVAL);
    if (f >= 0 || ~f >= EVFILT_SYSCOUNT) return E(EINVAL);
    if (unimpl(f)) return E(ENOSYS);
    OFD *o = nullptr; if ((f == EVFILT_READ || f == EVFILT_WRITE || f == EVFILT_VNODE) && c.ident < fdt.size()) o = fdt[c.ident].o;
    if (!ex && !(c.flags & EV_ADD)) return E(ENOENT);
    if (f == EVFILT_LIBKQUEUE) {
        if (!ex || !(c.flags & EV_DELETE)) {
            e.special = true;
            if (c.fflags < NOTE_VERSION || c.fflags > (lib_dbg ? NOTE_DEBUG : NOTE_FORK_CLEANUP)) { if (!ex) return E(-1); e.special = false; return E(-1); }
            if (forced == 1) return E(-1);
            KN k; k.q = q; k.filter = f; k.ident = c.ident; k.fflags = c.fflags; m[{f, c.ident}] = k; return e;
        }
    }
    if (forced == 1) return E(-1);
    if (f == EVFILT_TIMER && c.data < 0 && (c.flags & EV_ADD) && !(ex && (c.flags & (EV_DELETE | EV_DISABLE | EV_ENABLE)))) return E(-1);   // no such period
    if (KN *s = sibling(m, f, c.ident)) s->may++;   // changes the entry they share
    if (!ex) {
        KN k; k.q = q; k.filter = f; k.ident = c.ident; k.fl = c.flags & (EV_ONESHOT | EV_CLEAR | EV_DISPATCH); k.udata = c.udata; k.fflags = c.fflags; k.data = c.data; k.o = o; k.serial = ++kn_serial;
        if ((f == EVFILT_READ || f == EVFILT_WRITE || f == EVFILT_VNODE) && !o) return E(-1);
        if (f == EVFILT_PROC && (c.fflags & NOTE_EXIT)) { auto p = procs.find((int)c.ident); if (p == procs.end() || p->second.reaped) return E(-1); k.fl |= EV_ONESHOT | EV_CLEAR; }
        k.act = 1;
        if (f == EVFILT_VNODE) { note_file(o); k.arming = true; }
        if (f == EVFILT_TIMER) arm(k);
        if (f == EVFILT_USER) { k.uff = c.fflags & NOTE_FFLAGSMASK; k.mtrig = c.fflags & NOTE_TRIGGER; }
        if (c.flags & EV_DISABLE) k.en = false;
        if ((f == EVFILT_READ || f == EVFILT_WRITE || f == EVFILT_VNODE) && tainted_fds.count(c.ident)) k.tainted = true;
        m[{f, c.ident}] = k; return e;
    }
    KN &k = it->second;
    if (k.tainted) e.any = true;
    if (c.flags & EV_DELETE) { m.erase(it); return e; }
    if (c.flags & EV_DISABLE) { if (k.en) { k.en = false; for (int i = 0; i < V_N; i++) k.must[i] = false; } return e; }
    if (c.flags & EV_ENABLE) {
        if (k.en) return e;
        k.en = true; k.act++; k.quiet = false; if (f == EVFILT_TIMER) arm(k); if (f == EVFILT_VNODE) k.arming = true; return e; }
    if (f == EVFILT_PROC && !(c.fflags & NOTE_EXIT)) k.fflags = c.fflags;
    if (f == EVFILT_PROC && (c.fflags & NOTE_EXIT) && !(k.fflags & NOTE_EXIT)) { auto p = procs.find((int)c.ident); if (p == procs.end() || p->second.reaped) return E(-1); k.fl |= EV_ONESHOT | EV_CLEAR; k.fflags = c.fflags; }
    k.udata = c.udata;
    if (f == EVFILT_TIMER) { k.fl = c.flags & (EV_ONESHOT | EV_CLEAR | EV_DISPATCH); k.fflags = c.fflags; k.data = c.data; if (k.en) arm(k); }
    k.fl = (k.fl & ~EV_DISPATCH) | (c.flags & EV_DISPATCH);
    if (f == EVFILT_USER) {
        unsigned x = c.fflags & NOTE_FFLAGSMASK;
        switch (c.fflags & NOTE_FFCTRLMASK) { case NOTE_FFAND: k.uff &= x; break; case NOTE_FFOR: k.uff |= x; break; case NOTE_FFCOPY: k.uff = x; break; }
        if (c.fflags & NOTE_TRIGGER) (k.en ? k.trig : k.mtrig) = true;   // a trigger while disabled may be ignored
    }
    return e;
}
void model_apply(KQ *q, std::map<KKey, KN> &m, const struct kevent &c) { predict(q, m, c, -1); }
void o_zero_check(KQ *q) {
    if (!q->open || q->extra || !q->m.empty()) return;
    if (int n = owned_fds(q->serial, false)) fail(C_LEAK, nullptr, 0, "no registration is left, yet the library holds %d descriptor(s) for it: %s", n, owned_dump(q->serial, false).c_str());
    if (int n = owned_allocs(q->serial)) fail(C_LEAK, nullptr, 0, "no registration is left, yet the library holds %d allocation(s) for it", n);
}
// -------------------------------------------------------------------- kevent()
// kevent() with a time limit that is none: refused, whatever else was asked for, and nothing is done
void o_bad_time(KQ *q, const std::vector<struct kevent> &ch, int nev, int64_t sec, int64_t nsec) {
    std::vector<struct kevent> el((size_t)nev), c2 = ch; struct timespec ts{(time_t)sec, (long)nsec};
    memset(el.data(), 0xA5, el.size() * sizeof(struct kevent)); std::vector<struct kevent> e0 = el;
    std::map<int,int> sc0 = cur->consumed; Call c{q, cur, now}; active.push_back(&c); Thread *me = cur; me->cur_q = q->serial; uint64_t wa0 = me->waits; ns_t t0 = now;
    me->stalled_in_call = 0; errno = 0; cur->calls++; int n = kevent(q->fd, c2.data(), (int)c2.size(), el.data(), nev, &ts); int err = errno; me->calls++;
    me->cur_q = 0; active.remove(&c); R->kevents++; R->checks++;
    trace("kevent(kq%d, %zu changes, nev=%d, to=%ld.%ld: no time limit) = %d errno %d", q->serial, ch.size(), nev, (long)sec, (long)nsec, n, n < 0 ? err : 0);
    if (n != -1 || err != EINVAL) fail(C_TIMEOUT, nullptr, 0, "kevent() with the invalid time limit {%ld, %ld} gives %d, errno %d, and not EINVAL", (long)sec, (long)nsec, n, n < 0 ? err : 0);
    if (me->waits != wa0 || now - t0 > me->stalled_in_call + MS) fail(C_TIMEOUT, nullptr, 0, "kevent() with an invalid time limit waits before it says so");
    if (memcmp(el.data(), e0.data(), el.size() * sizeof(struct kevent))) fail(C_TIMEOUT, nullptr, 0, "kevent() with an invalid time limit wrote to the event list");
    for (auto &kv : me->consumed) if (kv.second != sc0[kv.first]) fail(C_SIGNAL, nullptr, EVFILT_SIGNAL, "a refused kevent() consumed signal %d", kv.first);
    if (held_mutexes(me->tid)) fail(C_LOCK, nullptr, 0, "kevent() returned with a lock held");
    R->nontrivial++;
}
static void judge_event(KQ *q, const struct kevent &ev, std::set<KKey> &seen, uint64_t vn0, ns_t t0, bool full);
KevRes o_kevent(KQ *q, std::vector<struct kevent> ch, const KevOpts &o) {
    KevRes r{0, 0, {}, 0, 0};
    int nch = (int)ch.size(); int nx = (int)o.extra.size(); if (nx) q->extra = true; int nev = o.null_list ? 0 : o.nev; int cap = std::min(nev, 512);
    // predict
    std::map<KKey, KN> before = q->m; std::vector<Exp> ex; bool overflow = false; int used = 0; int applied = nch;
    int ts0 = lib_thread_safe, fc0 = lib_fork_cleanup;
    for (int i = 0; i < nch; i++) {
        Exp e = predict(q, q->m, ch[i], -1); ex.push_back(e);
        bool need = e.err || (ch[i].flags & EV_RECEIPT) || (e.special && (ch[i].fflags == NOTE_VERSION || ch[i].fflags == NOTE_VERSION_STR));
        if (need && !e.any) { if (used == cap) { overflow = true; applied = i + 1; break; } used++; }
    }
    (void)applied;
    // call
    size_t asz = (size_t)std::max(nev, o.alias ? nch : 0);
    struct kevent *el = o.null_list ? nullptr : (struct kevent *)malloc(asz ? asz * sizeof(struct kevent) : 1);
    if (el && asz) memset(el, 0xA5, asz * sizeof(struct kevent));
    struct kevent *cl = nullptr;
    if (o.alias && el && (int)asz >= nch) { if (nch) memcpy(el, ch.data(), nch * sizeof(struct kevent)); cl = el; }
    else if (nch + nx) { cl = (struct kevent *)malloc((nch + nx) * sizeof(struct kevent)); memcpy(cl, ch.data(), nch * sizeof(struct kevent)); for (int i = 0; i < nx; i++) cl[nch + i] = o.extra[i]; }
    struct timespec ts{(time_t)o.ts_sec, (long)o.ts_nsec};
    cur->soerr.clear(); Call c{q, cur, now}; c.chg = &ch; c.null_ts = o.null_ts; c.blocking = o.null_ts || o.ts_sec || o.ts_nsec;
    for (auto &p : q->m) { p.second.hi = p.second.arming ? now : p.second.hi; begin_window(p.second); }
    std::string cs; for (auto &k : ch) { char b[120]; snprintf(b, sizeof b, " [%s %lu fl=%x ff=%x d=%ld]", fname(k.filter), (unsigned long)k.ident, k.flags, k.fflags, (long)k.data); cs += b; }
    trace("kevent(kq%d,%s,nev=%d%s,to=%s%ld.%09ld)", q->serial, cs.c_str(), nev, o.alias ? " alias" : "", o.null_ts ? "NULL " : "", (long)o.ts_sec, (long)o.ts_nsec);
    active.push_back(&c); Thread *me = cur; me->cur_q = q->serial; me->stalled_in_call = 0; me->eintr_at = -1; me->interrupted = false;
    int f0 = me->lib_faults; bool ce = me->cancel_enabled; uint64_t sm0 = me->sigmask; for (auto &k : ch) if (k.filter == EVFILT_LIBKQUEUE) dbg_maybe = true; uint64_t vn0 = vn_seq; std::map<int,int> sc0 = me->consumed; int stolen0 = proc_stolen;
    errno = 0;
    uint64_t bb0 = me->bbs, se0 = me->seams, wa0 = me->waits, cs0 = chg_seq; me->seam_lim = judged(C_COST) && !dbg_maybe && !C.debug_env && !total_lib_faults ? se0 + 100000 : 0; ns_t tt0 = now;
    cur->calls++; int n = kevent(q->fd, cl, nch + nx, el, nev, o.null_ts ? nullptr : &ts);
    int err = errno; me->calls++;
    me->cur_q = 0; active.remove(&c); R->kevents++; R->checks++;
    for (auto &p : q->m) { KN &k = p.second; if (k.arming) { if (!c.blocking || k.hi > now) k.hi = now; k.hi = std::min(k.hi, now); k.arming = false; } k.fresh = false; observe(k); }
    bool faulted = me->lib_faults != f0;
    me->seam_lim = 0;
    if (judged(C_COST) && n >= 0 && !dbg_maybe && !C.debug_env && total_lib_faults == 0) { // what the call took, against what there was to do
        uint64_t bb = me->bbs - bb0, se = me->seams - se0, wa = me->waits - wa0, cs = chg_seq - cs0, w = nch + nx + n, days = (now - tt0) / (86400 * SEC);
        cost_bb = bb; cost_se = se;
        if (wa > 4 + 2 * cs + days / 8) fail(C_COST, nullptr, 0, "kevent() woke up %lu times while %lu things happened (%lu days)", (unsigned long)wa, (unsigned long)cs, (unsigned long)days);
        if (se > 60 + 30 * w + 10 * (wa + cs)) fail(C_COST, nullptr, 0, "kevent() made %lu system and library calls for %lu changes and events, %lu waits", (unsigned long)se, (unsigned long)w, (unsigned long)wa);
        if (bb > 1500 + 800 * w + 300 * (wa + cs)) fail(C_COST, nullptr, 0, "kevent() executed %lu basic blocks for %lu changes and events with %zu registrations", (unsigned long)bb, (unsigned long)w, q->m.size()); }
    trace("kevent = %d errno %d", n, n < 0 ? err : 0);
    r.n = n; r.err = n < 0 ? err : 0;
    if (n > 0 && n <= (int)asz) for (int i = 0; i < n; i++) { r.ev.push_back(el[i]); trace("  ev %s fl=%x ff=%x d=%ld u=%lx", kn_str(el[i].filter, el[i].ident).c_str(), el[i].flags, el[i].fflags, (long)el[i].data, (long)el[i].udata); }
    if (cl && cl != el) { if (memcmp(cl, ch.data(), nch * sizeof(struct kevent))) fail(C_COUNT, nullptr, 0, "kevent() modified the change list"); free(cl); }
    free(el);
    if (me->cancel_enabled != ce) fail(C_RESULT, nullptr, 0, "kevent() changed the caller's cancellation state");
    if (judged(C_FOREIGN) && (ts.tv_sec != (time_t)o.ts_sec || ts.tv_nsec != (long)o.ts_nsec)) fail(C_FOREIGN, nullptr, 0, "kevent() modified the caller's timeout");
    if (uint64_t d = me->sigmask ^ sm0) { for (auto &p : before) if (p.first.first == EVFILT_SIGNAL && p.first.second - 1 < 64) d &= ~SB((int)p.first.second); for (auto &k : ch) if (k.filter == EVFILT_SIGNAL && k.ident - 1 < 64) d &= ~SB((int)k.ident); for (auto &k : o.extra) if (k.filter == EVFILT_SIGNAL && k.ident - 1 < 64) d &= ~SB((int)k.ident);
        if (d && judged(C_FOREIGN)) fail(C_FOREIGN, nullptr, 0, "kevent() changed the caller's signal mask: %lx to %lx", (unsigned long)sm0, (unsigned long)me->sigmask); }
    if (held_mutexes(me->tid)) fail(C_LOCK, nullptr, 0, "kevent() returned with a lock held");
    if (proc_stolen != stolen0) fail(C_REAP, nullptr, EVFILT_PROC, "the library reaped child %d", proc_stolen);
    o_check_fds();
    if (n > cap) fail(C_COUNT, nullptr, 0, "kevent() returned %d entries for a list of %d", n, cap);
    // result of the call
    if (overflow) {
        if (faulted) finish_run();   // nothing tells which changes took effect
        if (!faulted && n != -1) fail(C_COUNT, nullptr, 0, "the receipts and errors do not fit into %d entries but kevent() returned %d", cap, n);
        if (n == -1) { R->nontrivial++; for (auto &kv : me->consumed) if (kv.second != sc0[kv.first]) fail(C_SIGNAL, nullptr, EVFILT_SIGNAL, "a failing kevent() consumed signal %d", kv.first); o_zero_check(q); return r; }
    }
    if (n < 0) {
        bool legit_eintr = err == EINTR && (c.rescued || faulted || (me->handled && c.blocking));
        if (!legit_eintr) fail(err == EINTR ? C_TIMEOUT : C_COUNT, nullptr, 0, "kevent() failed with errno %d (%s)", err, strerror(err));
        if (used) fail(C_ORDER, nullptr, 0, "kevent() was interrupted and dropped %d receipt(s) or error(s)", used);
        if (!c.blocking) fail(C_TIMEOUT, nullptr, 0, "kevent() with a zero timeout was interrupted");
        me->handled = 0;
        for (auto &kv : me->consumed) if (kv.second != sc0[kv.first]) fail(C_SIGNAL, nullptr, EVFILT_SIGNAL, "an interrupted kevent() consumed signal %d", kv.first);
        return r;
    }
    if (c.rescued && n == 0 && o.null_ts) fail(C_TIMEOUT, nullptr, 0, "an interrupted kevent() with no timeout returned 0");
    me->handled = 0;
    if (me->eintr_at >= 0 && !used) {
        if (n == 0) fail(C_TIMEOUT, nullptr, 0, "the wait was interrupted by a signal but kevent() returned 0");
        if (now - me->eintr_at > me->stalled_in_call - me->eintr_stall + MS) fail(C_TIMEOUT, nullptr, 0, "the wait was interrupted by a signal but kevent() went on waiting for %ld ns", (long)(now - me->eintr_at)); }
    // receipts and errors
    std::vector<Exp> fin; std::map<KKey, KN> after = before; int ri = 0;
    if (faulted && nch) { // injected failures: what happened is read from the receipts, then replayed on the model
        lib_thread_safe = ts0; lib_fork_cleanup = fc0;
        for (int i = 0; i < nch; i++) {
            int forced = -1;
            if ((ch[i].flags & EV_RECEIPT) && ri < n && r.ev[ri].ident == ch[i].ident && r.ev[ri].filter == ch[i].filter && (r.ev[ri].flags & EV_ERROR)) { Exp pr = ex[i]; if (!pr.err && r.ev[ri].data != 0) forced = 1; }
            Exp e2 = predict(q, after, ch[i], forced); fin.push_back(e2); ri++;
        }
        std::map<KKey, KN> pred = q->m; q->m = after;
        for (auto &p : q->m) { auto it = pred.find(p.first); KN &k = p.second; bool fr = !before.count(p.first) || before[p.first].serial != k.serial; if (k.arming) { k.lo = c.t0; k.hi = now; k.arming = false; } k.fresh = false;
            if (it != pred.end() && it->second.serial == k.serial) { KN s = k; k = it->second; k.en = s.en; k.trig = s.trig; k.mtrig = s.mtrig; if (k.filter == EVFILT_PROC) k.fflags = s.fflags; k.uff = s.uff; k.fl = s.fl; k.udata = s.udata; }
            else if (fr) { // created by this call: what happened to its source since then counts
                for (int i = 0; i < V_N; i++) k.hap[i] = it != pred.end() ? it->second.hap[i] : 1000;
                if (it != pred.end()) { k.vals = it->second.vals; k.sizes = it->second.sizes; k.offs = it->second.offs; } else k.anyval = true; }
            k.ever = true; k.always = false; k.eof_ever = true; k.eof_must = false; k.err_always = false; for (int x : {ECONNRESET, EPIPE, ECONNREFUSED, EHOSTUNREACH}) k.errs.insert(x); observe(k); }
        ex = fin;
    }
    int idx = 0;
    for (int i = 0; i < nch; i++) {
        const Exp &e = ex[i]; bool special_receipt = e.special && !e.err && ((ch[i].flags & EV_RECEIPT) || ch[i].fflags == NOTE_VERSION || ch[i].fflags == NOTE_VERSION_STR);
        if (e.any) { if (idx < n && r.ev[idx].ident == ch[i].ident && r.ev[idx].filter == ch[i].filter && (r.ev[idx].flags & EV_ERROR)) idx++; continue; }
        if (!e.err && !(ch[i].flags & EV_RECEIPT) && !special_receipt) {
            if (idx < n && (r.ev[idx].flags & EV_ERROR) && r.ev[idx].ident == ch[i].ident && r.ev[idx].filter == ch[i].filter && r.ev[idx].udata == ch[i].udata && !(i + 1 < nch && 0)) {
                // an unexpected error entry for this change, unless it belongs to a later identical change
                bool later = false; for (int j = i + 1; j < nch; j++) if (ch[j].ident == ch[i].ident && ch[j].filter == ch[i].filter && (ex[j].err || (ch[j].flags & EV_RECEIPT))) later = true;
                if (!later) fail(C_RESULT, q->m.count({ch[i].filter, ch[i].ident}) ? &q->m[{ch[i].filter, ch[i].ident}] : nullptr, ch[i].filter, "change %d (%s flags %x) should succeed but reports error %ld", i, kn_str(ch[i].filter, ch[i].ident).c_str(), ch[i].flags, (long)r.ev[idx].data);
            }
            continue;
        }
        R->nontrivial++;
        auto kit = q->m.find({ch[i].filter, ch[i].ident}); KN *kp = kit != q->m.end() ? &kit->second : nullptr;
        if (idx >= n) fail(C_ORDER, kp, ch[i].filter, "change %d (%s flags %x) should yield an entry, but kevent() returned only %d", i, kn_str(ch[i].filter, ch[i].ident).c_str(), ch[i].flags, n);
        struct kevent &x = r.ev[idx++];
        if (special_receipt) {
            if (x.filter != ch[i].filter || x.ident != ch[i].ident) fail(C_ORDER, nullptr, ch[i].filter, "entry %d is not the answer to the query in change %d", idx - 1, i);
            if (x.flags & EV_ERROR) fail(C_RESULT, nullptr, ch[i].filter, "query %u reports error %ld", ch[i].fflags, (long)x.data);
            continue;   // contents judged by the caller
        }
        if (x.ident != ch[i].ident || x.filter != ch[i].filter || !(x.flags & EV_ERROR)) fail(C_ORDER, kp, ch[i].filter, "entry %d should be the %s for change %d (%s) but is %s flags %x", idx - 1, e.err ? "error" : "receipt", i, kn_str(ch[i].filter, ch[i].ident).c_str(), kn_str(x.filter, x.ident).c_str(), x.flags);
        if (x.udata != ch[i].udata) fail(C_ORDER, kp, ch[i].filter, "entry %d does not carry the change's udata", idx - 1);
        if (!e.err && x.data != 0) fail(C_RESULT, kp, ch[i].filter, "change %d (%s flags %x) should succeed but reports error %ld", i, kn_str(ch[i].filter, ch[i].ident).c_str(), ch[i].flags, (long)x.data);
        if (e.err && e.code > 0 && x.data != e.code) fail(C_RESULT, kp, ch[i].filter, "change %d (%s flags %x) should fail with %d but reports %ld", i, kn_str(ch[i].filter, ch[i].ident).c_str(), ch[i].flags, e.code, (long)x.data);
        if (e.err && x.data == 0) fail(C_RESULT, kp, ch[i].filter, "change %d (%s flags %x) should fail but reports success", i, kn_str(ch[i].filter, ch[i].ident).c_str(), ch[i].flags);
    }
    r.receipts = idx;
    // events
    std::set<KKey> seen; std::map<KKey, KN> snap = q->m;
    for (int i = idx; i < n; i++) {
        if (r.ev[i].flags & EV_ERROR) { bool other = false; for (auto &k : ch) if (k.ident == r.ev[i].ident && k.filter == r.ev[i].filter) other = true;
            fail(other ? C_RESULT : C_COUNT, nullptr, r.ev[i].filter, "entry %d: unexpected error entry %s data %ld", i, kn_str(r.ev[i].filter, r.ev[i].ident).c_str(), (long)r.ev[i].data); }
        judge_event(q, r.ev[i], seen, vn0, c.t0, n == cap); r.events++; R->events++;
    }
    for (auto &kv : me->consumed) { int d = kv.second - sc0[kv.first]; bool rep = seen.count({EVFILT_SIGNAL, (uintptr_t)kv.first}); 
        if (d != (rep ? 1 : 0)) fail(C_SIGNAL, nullptr, EVFILT_SIGNAL, "%d instance(s) of signal %d were consumed, %d event(s) reported", d, kv.first, rep ? 1 : 0);
        }
    // completeness
    int room = cap - idx, mustn = 0, discards = 0; 
    for (auto &p : snap) { KN &k = p.second; if ((k.file() && k.filter == EVFILT_READ) || k.filter == EVFILT_VNODE || k.tainted) discards++; if (k.en && k.always && k.seen) mustn++; }
    if (room > 0 && !faulted) {
        for (auto &p : snap) { KN &k = p.second; if (!(k.en && k.always) || seen.count(p.first)) continue;
            if (r.events + discards < room && k.filter != EVFILT_VNODE) fail(C_MISSED, &k, k.filter, "%s was due throughout the call, with room for it, but was not reported", kn_str(k.filter, k.ident).c_str());
            if (r.events == 0) fail(C_MISSED, &k, k.filter, "%s was due throughout the call but kevent() reported no event", kn_str(k.filter, k.ident).c_str()); }
        if (!discards && r.events < std::min(room, mustn)) fail(C_MISSED, nullptr, 0, "%d registrations were due throughout the call, there was room for %d, %d were reported", mustn, room, r.events);
    }
    if (r.events < room && !faulted) for (auto &p : snap) { KN &k = p.second; if (k.file() && k.filter == EVFILT_READ && k.en && k.quiet && !(k.fl & EV_CLEAR) && !k.tainted && !seen.count(p.first) && !(k.o->dead) && rdata(k.o) > 0) { R->known |= KF_FILE_QUIET; if (!(known_mask & KF_FILE_QUIET)) fail(C_MISSED, &k, EVFILT_READ, "%s (file): not reported although bytes were added after its end was seen", kn_str(k.filter, k.ident).c_str()); } } // grew after end of file was seen
    if (mustn) R->nontrivial++;
    // nothing due is passed over for ever: each other registration is served a bounded number of times first
    for (auto &p : q->m) { KN &k = p.second; bool touched = faulted || q->shared || k.tainted; for (auto &x : ch) if (x.ident == k.ident && (x.filter == k.filter || ((x.filter == EVFILT_READ || x.filter == EVFILT_WRITE) && (k.filter == EVFILT_READ || k.filter == EVFILT_WRITE)))) touched = true;
        if (touched || seen.count(p.first) || !(k.en && k.always && k.seen)) { k.starve = 0; continue; }
        k.starve += r.events; R->checks++;
        if (k.starve > 4 * (int)q->m.size() + 8) fail(C_STARVE, &k, k.filter, "%s stays due but is passed over: %d events of the %zu registrations were reported meanwhile", kn_str(k.filter, k.ident).c_str(), k.starve, q->m.size()); }
    if (!faulted) for (auto &x : me->soerr) { bool ok = false; for (auto &e : r.ev) if ((int)e.ident == x.first && (e.filter == EVFILT_READ || e.filter == EVFILT_WRITE) && (int)e.fflags == x.second) ok = true; if (!ok) fail(C_DATA, nullptr, EVFILT_READ, "the library took error %d from socket %d but did not report it", x.second, x.first); }
    if (truncates_used) for (auto &p : q->m) { KN &k = p.second; if (k.filter != EVFILT_VNODE) continue;
        bool sure = vn0 == vn_seq && !q->shared && !faulted && !k.tainted && k.en && k.o && k.o->ino, changed_here = false;
        for (auto &c2 : ch) if (c2.filter == EVFILT_VNODE && c2.ident == k.ident) changed_here = true;
        if (!sure) k.vsize = INT64_MAX;
        else if (seen.count(p.first) || (room > 0 && r.events + discards < room)) k.vsize = k.o->ino->size;
        else if (changed_here) k.vsize = INT64_MAX; }
    // length of the wait
    if (n == 0 && room > 0) {
        ns_t el2 = now - c.t0;
        if (o.null_ts) fail(C_TIMEOUT, nullptr, 0, "kevent() without a timeout returned 0 after %ld ns", (long)el2);
        __int128 want = (__int128)o.ts_sec * SEC + o.ts_nsec;
        if (c.blocking || 1) { if ((__int128)el2 < want) fail(C_TIMEOUT, nullptr, 0, "kevent() returned 0 after %ld ns, before its timeout of %ld.%09ld s", (long)el2, (long)o.ts_sec, (long)o.ts_nsec);
            if ((__int128)el2 > want + me->stalled_in_call + MS) fail(C_TIMEOUT, nullptr, 0, "kevent() returned 0 after %ld ns, long after its timeout of %ld.%09ld s", (long)el2, (long)o.ts_sec, (long)o.ts_nsec); }
        R->nontrivial++;
    }
    if ((room == 0 || !c.blocking || idx > 0) && now - c.t0 > me->stalled_in_call + MS) fail(C_TIMEOUT, nullptr, 0, "kevent() waited %ld ns although it must not block", (long)(now - c.t0));
    if (n > 0 && !o.null_ts) { __int128 want = (__int128)o.ts_sec * SEC + o.ts_nsec; if ((__int128)(now - c.t0) > want + me->stalled_in_call + MS) fail(C_TIMEOUT, nullptr, 0, "kevent() returned only after %ld ns, its timeout was %ld.%09ld s", (long)(now - c.t0), (long)o.ts_sec, (long)o.ts_nsec); }
    if (!faulted) o_zero_check(q);
    { uint64_t h = q->m.size(); for (auto &p : q->m) h = mix(h, mix((uint64_t)(p.first.first + 100), (uint64_t)(p.second.fl | (p.second.en ? 0x1000 : 0) | (due(p.second) << 14)))); h = mix(h, (uint64_t)r.events); note_state(h); }
    return r;
}
static void judge_event(KQ *q, const struct kevent &ev, std::set<KKey> &seen, uint64_t vn0, ns_t t0, bool full) {
    KKey key{ev.filter, ev.ident}; std::string nm = kn_str(ev.filter, ev.ident);
    auto it = q->m.find(key);
    if (seen.count(key)) fail(C_DUP, nullptr, ev.filter, "%s is reported twice by one call", nm.c_str());
    seen.insert(key); R->nontrivial++;
    if (it == q->m.end()) fail(C_SPURIOUS, nullptr, ev.filter, "%s is reported but not registered in this kqueue", nm.c_str());
    KN &k = it->second;
    if (!k.tainted) {
    if (!k.en) fail(C_DISABLED, &k, ev.filter, "%s is reported while disabled", nm.c_str());
    if (ev.udata != k.udata) fail(C_UDATA, &k, ev.filter, "%s carries udata %lx instead of %lx", nm.c_str(), (long)ev.udata, (long)k.udata);
    if (!k.ever) {
        bool clear = (k.fl & EV_CLEAR) && (ev.filter == EVFILT_READ || ev.filter == EVFILT_WRITE) && k.o && !k.o->dead && !k.file() && (ev.filter == EVFILT_READ ? rmask(k.o) : wmask(k.o));
        fail(clear ? C_AGAIN : C_NOTDUE, &k, ev.filter, clear ? "%s is reported again without new activity" : "%s is reported although its condition did not hold at any moment of the call", nm.c_str());
    }
    }
    switch (ev.filter) {
    case EVFILT_READ: case EVFILT_WRITE:
        if (k.tainted || (k.o && k.o->dead)) break;
        if (k.file()) { bool ok = false; for (auto z : k.sizes) if (k.offs.count(z - ev.data)) ok = true; if (k.anyval) ok = true; // size and position are read one after the other
            if (ev.filter == EVFILT_READ && !ok) fail(C_DATA, &k, ev.filter, "%s (file): data %ld is not the number of bytes left", nm.c_str(), (long)ev.data); }
        else {
            bool check = ev.filter == EVFILT_READ || (k.o->kind == K_SOCK && !(ev.flags & EV_EOF));
            if (check && !k.anyval && std::find(k.vals.begin(), k.vals.end(), ev.data) == k.vals.end()) fail(C_DATA, &k, ev.filter, "%s: data %ld was at no moment of the call the number of bytes queued", nm.c_str(), (long)ev.data);
        }
        if ((ev.flags & EV_EOF) && !k.eof_ever) fail(C_EOF, &k, ev.filter, "%s: end of file is flagged but the peer is alive", nm.c_str());
        if (!(ev.flags & EV_EOF) && k.eof_must && k.seen) fail(C_EOF, &k, ev.filter, "%s: the peer is gone and everything is read, but end of file is not flagged", nm.c_str());
        if (!k.file() && ev.fflags && !k.errs.count((int)ev.fflags) && !(k.o->kind != K_SOCK && ev.fflags == EIO && k.eof_ever)) fail(C_DATA, &k, ev.filter, "%s reports error %u, which the descriptor did not have", nm.c_str(), ev.fflags);
        if (!k.file() && k.o->kind == K_SOCK && !ev.fflags && k.err_always && k.seen) fail(C_DATA, &k, ev.filter, "%s does not report the socket's pending error %d", nm.c_str(), k.o->err);
        k.ack_lo = k.act_e; k.ack_hi = k.act; k.ack_may = k.may_e; break;
    case EVFILT_TIMER: {
        if (ev.data <= 0) fail(C_DATA, &k, ev.filter, "%s reports %ld expirations", nm.c_str(), (long)ev.data);
        int64_t c = k.C + ev.data, lo = t_lo(k, t0), hi = t_hi(k, now);
        if (k.abs && !(k.fl & EV_ONESHOT)) { if (now < k.p) fail(C_NOTDUE, &k, ev.filter, "%s fired before its absolute time", nm.c_str()); }
        else if (c < lo || c > hi) fail(hi < 1 ? C_NOTDUE : C_DATA, &k, ev.filter, "%s: %ld expirations reported in all, between %ld and %ld have happened (period %ld ns)", nm.c_str(), (long)c, (long)lo, (long)hi, (long)k.p);
        k.C = c; break; }
    case EVFILT_USER:
        if (ev.fflags != k.uff) fail(C_DATA, &k, ev.filter, "%s reports fflags %x instead of %x", nm.c_str(), ev.fflags, k.uff);
        if (k.fl & (EV_CLEAR | EV_DISPATCH | EV_ONESHOT)) k.trig = k.mtrig = false;
        break;
    case EVFILT_PROC: {
        auto p = procs.find((int)ev.ident);
        if (p != procs.end() && p->second.exited && !p->second.reaped) {
            int st = p->second.code == CLD_EXITED ? p->second.status << 8 : (p->second.status & 0x7f) | (p->second.code == CLD_DUMPED ? 0x80 : 0);
            if (ev.data != st) fail(C_DATA, &k, ev.filter, "%s reports status %lx instead of %x", nm.c_str(), (long)ev.data, st); }
        if (!(ev.flags & EV_EOF)) fail(C_EOF, &k, ev.filter, "%s reports an exit without end-of-file", nm.c_str());
        if (ev.fflags != NOTE_EXIT) fail(C_DATA, &k, ev.filter, "%s reports fflags %x instead of NOTE_EXIT", nm.c_str(), ev.fflags);
        break; }
    case EVFILT_VNODE:
        if (k.tainted) break;
        if (!(ev.fflags & 0x3f)) fail(C_NOTDUE, &k, ev.filter, "%s is reported with no note set", nm.c_str());
        if (ev.fflags & ~(k.fflags | ((k.fflags & NOTE_WRITE) ? NOTE_EXTEND : 0))) fail(C_DATA, &k, ev.filter, "%s reports notes %x, only %x were asked for", nm.c_str(), ev.fflags, k.fflags);
        for (int i = 0; i < V_N; i++) if (ev.fflags & (1u << i)) { k.rep[i]++; if (k.rep[i] > k.hap[i]) fail(C_DATA, &k, ev.filter, "%s: note %x is reported more often (%lu) than it happened (%lu)", nm.c_str(), 1u << i, (unsigned long)k.rep[i], (unsigned long)k.hap[i]); if (k.hap[i] <= k.base[i]) fail(C_DATA, &k, ev.filter, "%s: note %x is reported again, but it did not happen again since the last report", nm.c_str(), 1u << i); if (k.must[i]) { k.must[i] = false; } }
        memcpy(k.base, k.hap_e, sizeof k.base);
        if ((ev.fflags & NOTE_LINK) && vn0 == vn_seq) k.nl.clear();
        break;
    case EVFILT_SIGNAL: if (ev.data < 1) fail(C_DATA, &k, ev.filter, "%s reports data %ld", nm.c_str(), (long)ev.data); break;
    }
    if (KN *sb = sibling(q->m, ev.filter, ev.ident)) { if (k.fl & (EV_ONESHOT | EV_DISPATCH)) sb->may++; if (full) { sb->may++; k.may++; } } // they share one epoll entry, which is armed again
    if (k.fl & EV_DISPATCH) { k.en = false; for (int i = 0; i < V_N; i++) k.must[i] = false; }
    if (k.fl & EV_ONESHOT) q->m.erase(it);
}
