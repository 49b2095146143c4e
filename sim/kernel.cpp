// Simulated Linux kernel objects: descriptors, epoll, pipes, sockets, eventfd, timerfd, signalfd,
// inotify, pidfd, files, signals, child processes.  Everything here is a stub of the real kernel; the
// library code on top of it is the real code.
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <sys/inotify.h>
uint64_t next_ino() { static uint64_t n = 100; return n++; }

std::vector<Fd> fdt; std::deque<PendSig> shared_pend; std::map<int, Proc> procs; uint64_t handler_ran = 0;
std::map<std::string, Dentry*> names;
static std::vector<OFD*> timerfds; static std::vector<OFD*> signalfds; static std::vector<OFD*> inotifies;
static uint64_t next_ofd = 1; static int next_pid = 5001; int fd_limit_k = 256, fd_soft = 256;
ns_t rt_off = 1600000000LL * SEC;   // the wall clock is ahead of the monotonic one by this
void k_clock_jump(ns_t d) { rt_off += d; R->fault[FK_CLOCK_JUMP]++; trace("wall clock jumps by %ld ns", (long)d); for (auto o : timerfds) if (o->armed && o->rtabs) o->next = std::max<ns_t>(o->next - d, now); if (on_change) on_change(); }
static const uint32_t PRIV = EPOLLET | EPOLLONESHOT | EPOLLWAKEUP | EPOLLEXCLUSIVE;
std::function<void(OFD*, uint32_t)> on_activity;
std::function<void(Inode*, uint32_t)> on_inode_event;
uint64_t chg_seq = 0; // everything that happened to any source
static void changed() { chg_seq++; if (on_change) on_change(); }

OFD *ofd_new(Kind k, bool lib, const char *mk) { OFD *o = new OFD; o->kind = k; o->id = next_ofd++; o->lib = lib; o->mk = mk; if (cur) { o->owner = cur->cur_q; o->creation = cur->creating; o->opener = cur; o->opcall = cur->calls; } if (k == K_TIMERFD) timerfds.push_back(o); if (k == K_SIGNALFD) signalfds.push_back(o); if (k == K_INOTIFY) inotifies.push_back(o); return o; }
static OFD *filler;
int fd_alloc(OFD *o, bool cloexec, int i) {
    while (i < (int)fdt.size() && fdt[i].o) i++;
    if (i >= fd_soft) { // out of numbers: the program lets go of one of the files it keeps open, if it has any
        if (C.high_fds) for (int j = 3; j < fd_soft && j < (int)fdt.size(); j++) if (fdt[j].o == filler) { fdt[j].o = nullptr; i = j; break; }
        if (i >= fd_soft) { errno = EMFILE; return -1; } }
    if (i >= (int)fdt.size()) fdt.resize(i + 1);
    fdt[i].o = o; fdt[i].cloexec = cloexec; o->refs++;
    return i;
}
bool fd_room(int n) { int f = 0; for (int i = 0; i < fd_soft && f < n; i++) if (i >= (int)fdt.size() || !fdt[i].o || (C.high_fds && fdt[i].o == filler)) f++; return f >= n; }
OFD *ofd_get(int fd) { if (fd < 0 || fd >= (int)fdt.size() || !fdt[fd].o) { errno = EBADF; return nullptr; } return fdt[fd].o; }
int fd_of(OFD *o) { for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o == o) return (int)i; return -1; }

void kernel_init(int limit) {
    fd_soft = limit; fd_limit_k = limit + (C.high_fds ? 0 : 64); fdt.clear(); fdt.resize(3);
    for (int i = 0; i < 3; i++) if (!(C.nostdio >> i & 1)) { fdt[i].o = ofd_new(K_DUMMY, false, "std"); fdt[i].o->refs = 1; }
    if (C.high_fds) { filler = ofd_new(K_DUMMY, false, "other file"); filler->refs = 1000000; int n = limit - C.high_fds; if (n > 3) fdt.resize(n); for (int i = 3; i < n; i++) { fdt[i].o = filler; fdt[i].cloexec = true; } }
}
int owned_fds(int q, bool ct) { int n = 0; for (auto &f : fdt) if (f.o && f.o->lib && f.o->owner == q && (ct || !f.o->creation)) n++; return n; }
std::string owned_dump(int q, bool ct) { std::string s; for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o && fdt[i].o->lib && fdt[i].o->owner == q && (ct || !fdt[i].o->creation)) s += std::to_string(i) + ":" + fdt[i].o->mk + " "; return s; }
int k_open_fds(bool libonly) { int n = 0; for (auto &f : fdt) if (f.o && (!libonly || f.o->lib)) n++; return n; }
std::string k_fd_dump(bool libonly) { std::string s; for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o && (!libonly || fdt[i].o->lib)) s += std::to_string(i) + ":" + fdt[i].o->mk + " "; return s; }

// ------------------------------------------------------------ poll
static bool sock_writable(OFD *o) { OFD *p = o->peer; if (!p) return true; return p->rbytes < p->rcap && (int)p->dg.size() < 8; }
uint32_t k_poll(OFD *o) {
    uint32_t m = 0;
    switch (o->kind) {
    case K_PIPE_R: if (o->pipe->bytes > 0) m |= EPOLLIN; if (o->pipe->writers == 0) m |= EPOLLHUP; break;
    case K_PIPE_W: if (o->pipe->bytes < o->pipe->cap) m |= EPOLLOUT; if (o->pipe->readers == 0) m |= EPOLLERR; break;
    case K_EVENTFD: if (o->count > 0) m |= EPOLLIN; m |= EPOLLOUT; break;
    case K_TIMERFD: if (o->ticks > 0) m |= EPOLLIN; break;
    case K_SIGNALFD: {
        for (auto &p : shared_pend) if (o->mask & (SB(p.sig))) m |= EPOLLIN;
        if (cur) for (auto &p : cur->pend) if (o->mask & (SB(p.sig))) m |= EPOLLIN;
        break; }
    case K_INOTIFY: if (!o->inq.empty()) m |= EPOLLIN; break;
    case K_PIDFD: { auto it = procs.find(o->pid); if (it == procs.end() || it->second.exited) m |= EPOLLIN; if (it == procs.end() || it->second.reaped) m |= EPOLLHUP; break; }
    case K_SOCK:
        if (o->st == S_LISTEN) { if (o->rbytes > 0) m |= EPOLLIN; break; }
        if (o->st == S_DGRAM) { if (!o->dg.empty()) m |= EPOLLIN; if (sock_writable(o)) m |= EPOLLOUT; if (o->err) m |= EPOLLERR; break; }
        if (o->rbytes > 0) m |= EPOLLIN;
        if (o->peer_shut_wr || o->peer_gone || (o->shut & 1)) m |= EPOLLIN | EPOLLRDHUP;
        if (o->peer_gone && (o->st == S_UNIX || (o->shut & 2))) m |= EPOLLHUP;
        if (o->peer_shut_wr && (o->shut & 2)) m |= EPOLLHUP;
        if (o->reset) m |= EPOLLHUP | EPOLLIN | EPOLLRDHUP | EPOLLOUT;
        if (o->err) m |= EPOLLERR;
        if (o->peer_gone || (o->shut & 2) || sock_writable(o)) m |= EPOLLOUT;
        break;
    case K_EPOLL: for (auto e : o->rdl) if (k_poll(e->target) & e->events & ~PRIV) { m |= EPOLLIN; break; } break;
    default: m = EPOLLIN | EPOLLOUT; break;
    }
    return m;
}
static void rdl_add(Epi *e) { if (!e->ready) { e->ready = true; e->ep->rdl.push_back(e); } }
static void rdl_del(Epi *e) { if (e->ready) { e->ready = false; auto &q = e->ep->rdl; q.erase(std::find(q.begin(), q.end(), e)); } }
void k_wake(OFD *o, uint32_t key) {
    if (on_activity) on_activity(o, key);
    for (auto e : o->watchers) {
        if (!(e->events & ~PRIV)) continue;
        if (key && !(key & e->events)) continue;
        rdl_add(e);
    }
    changed();
}
// ------------------------------------------------------------ epoll
static Epi *epi_find(OFD *ep, OFD *t, int fd) { for (auto e : ep->items) if (e->target == t && e->fd == fd) return e; return nullptr; }
static void epi_free(Epi *e) {
    rdl_del(e);
    auto &v = e->ep->items; v.erase(std::find(v.begin(), v.end(), e));
    auto &w = e->target->watchers; w.erase(std::find(w.begin(), w.end(), e));
    delete e;
}
int k_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev, int inject) {
    OFD *ep = ofd_get(epfd); if (!ep) return -1;
    OFD *t = ofd_get(fd); if (!t) return -1;
    if (t->kind == K_FILE || t->kind == K_DUMMY) { errno = EPERM; return -1; }
    if (ep->kind != K_EPOLL || t == ep) { errno = EINVAL; return -1; }
    if (in_child_world && ep->inherited) violation("P17", "child-touches-parent-epoll", "the forked child changed an epoll instance it shares with its parent (op %d)", op);
    Epi *e = epi_find(ep, t, fd);
    switch (op) {
    case EPOLL_CTL_ADD:
        if (e) { errno = EEXIST; return -1; }
        if (inject) { errno = inject; return -1; }
        e = new Epi{ep, t, fd, ev->events | EPOLLERR | EPOLLHUP, ev->data.u64, false};
        ep->items.push_back(e); t->watchers.push_back(e);
        if (k_poll(t) & e->events & ~PRIV) rdl_add(e);
        break;
    case EPOLL_CTL_MOD:
        if (!e) { errno = ENOENT; return -1; }
        e->events = ev->events | EPOLLERR | EPOLLHUP; e->data = ev->data.u64;
        if (k_poll(t) & e->events & ~PRIV) rdl_add(e);
        break;
    case EPOLL_CTL_DEL:
        if (!e) { errno = ENOENT; return -1; }
        epi_free(e);
        break;
    default: errno = EINVAL; return -1;
    }
    return 0;
}
bool k_epoll_ready(OFD *ep) { for (auto e : ep->rdl) if (k_poll(e->target) & e->events & ~PRIV) return true; return false; }
int k_epoll_harvest(OFD *ep, struct epoll_event *out, int max) {
    std::deque<Epi*> tx; tx.swap(ep->rdl); int n = 0;
    std::deque<Epi*> again;
    while (!tx.empty()) {
        Epi *e = tx.front();
        if (n >= max) break;
        tx.pop_front(); e->ready = false;
        uint32_t r = k_poll(e->target) & e->events & ~PRIV;
        if (!r) continue;
        out[n].events = r; out[n].data.u64 = e->data; n++;
        if (e->events & EPOLLONESHOT) e->events &= PRIV;
        else if (!(e->events & EPOLLET)) { e->ready = true; again.push_back(e); }
    }
    for (auto e : again) ep->rdl.push_back(e);
    for (auto it = tx.rbegin(); it != tx.rend(); ++it) ep->rdl.push_front(*it);
    return n;
}
// ------------------------------------------------------------ signals
static bool std_sig(int s) { return s < 34; }
static void raise_to_signalfds() { for (auto o : signalfds) { for (auto e : o->watchers) if (e->events & ~PRIV) rdl_add(e); } changed(); }
static void handler(Thread *t, int sig) {
    t->handled |= SB(sig); handler_ran |= SB(sig);
    trace("signal %d runs its handler in %s", sig, t->name.c_str());
    if (on_handler) on_handler(t, sig);
    if (t->st == T_BLOCK && t->intr_ok) t->interrupted = true;
}
bool k_sig_pending(int sig) { for (auto &p : shared_pend) if (p.sig == sig) return true; return false; }
int k_sig_count(int sig) { int n = 0; for (auto &p : shared_pend) if (p.sig == sig) n++; for (auto t : threads) for (auto &p : t->pend) if (p.sig == sig) n++; return n; }
void k_kill(int sig) {
    R->fault[FK_SIGNAL]++;
    for (auto t : threads) if (t->st != T_DONE && !(t->sigmask & SB(sig))) { handler(t, sig); changed(); return; }
    if (std_sig(sig) && k_sig_pending(sig)) return;
    shared_pend.push_back(PendSig{sig, 0, -1, 0, 0}); sig_queued[sig]++;
    raise_to_signalfds();
}
void k_tkill(Thread *t, PendSig p) {
    if (t->st == T_DONE) return;
    if (!(t->sigmask & (SB(p.sig)))) {
        if (p.sig >= 34) violation(target_prop, "killed-by-signal", "the library's monitoring signal was delivered to %s, which does not block it: the process dies", t->name.c_str());
        handler(t, p.sig); return;
    }
    if (std_sig(p.sig)) for (auto &q : t->pend) if (q.sig == p.sig) return;
    t->pend.push_back(p); raise_to_signalfds();
}
void k_unblocked(Thread *t) { // after a mask change: deliver what is now unblocked
    bool again = true;
    while (again) { again = false;
        for (size_t i = 0; i < shared_pend.size(); i++) if (!(t->sigmask & (SB(shared_pend[i].sig)))) { int s = shared_pend[i].sig; shared_pend.erase(shared_pend.begin() + i); handler(t, s); again = true; break; }
        for (size_t i = 0; !again && i < t->pend.size(); i++) if (!(t->sigmask & (SB(t->pend[i].sig)))) { int s = t->pend[i].sig; t->pend.erase(t->pend.begin() + i); handler(t, s); again = true; break; } }
}
bool k_dequeue(uint64_t mask, PendSig *out) { // private first, lowest number first
    for (int pass = 0; pass < 2; pass++) {
        std::deque<PendSig> &q = pass ? shared_pend : cur->pend; int best = -1;
        for (size_t i = 0; i < q.size(); i++) if ((mask & (SB(q[i].sig))) && (best < 0 || q[i].sig < q[best].sig)) best = (int)i;
        if (best >= 0) { *out = q[best]; q.erase(q.begin() + best); changed(); return true; }
    }
    return false;
}
bool k_has_pending(Thread *t, uint64_t mask) { for (auto &p : t->pend) if (mask & (SB(p.sig))) return true; for (auto &p : shared_pend) if (mask & (SB(p.sig))) return true; return false; }
// ------------------------------------------------------------ inotify
static void in_queue(OFD *o, int wd, uint32_t mask) {
    if (!o->inq.empty() && o->inq.back().wd == wd && o->inq.back().mask == mask) return;
    o->inq.push_back(INEvent{wd, mask});
    k_wake(o, EPOLLIN);
}
static void watch_drop(OFD *o, Watch *w, bool ignored) {
    auto &v = w->ino->watchers;
    for (size_t i = 0; i < v.size(); i++) if (v[i].first == o && v[i].second == w->wd) { v.erase(v.begin() + i); break; }
    int wd = w->wd; o->watches.erase(wd); delete w;
    if (ignored) in_queue(o, wd, IN_IGNORED);
}
static void ino_event(Inode *ino, uint32_t m) {
    if (on_inode_event) on_inode_event(ino, m);
    auto ws = ino->watchers;
    for (auto &p : ws) {
        auto it = p.first->watches.find(p.second); if (it == p.first->watches.end()) continue;
        Watch *w = it->second;
        if (!(w->mask & m)) continue;
        in_queue(p.first, w->wd, m);
        if (w->oneshot) watch_drop(p.first, w, true);
    }
    changed();
}
static void ino_maybe_gone(Inode *ino) {
    if (ino->nlink == 0 && ino->opens == 0 && !ino->gone) {
        ino->gone = true; ino_event(ino, IN_DELETE_SELF);
        auto ws = ino->watchers;
        for (auto &p : ws) { auto it = p.first->watches.find(p.second); if (it != p.first->watches.end()) watch_drop(p.first, it->second, true); }
    }
}
int k_inotify_add(int ifd, const char *path, uint32_t mask, int inject) {
    OFD *o = ofd_get(ifd); if (!o) return -1;
    if (o->kind != K_INOTIFY) { errno = EINVAL; return -1; }
    Inode *ino = nullptr; int pid, pfd;
    if (sscanf(path, "/proc/%d/fd/%d", &pid, &pfd) == 2 || sscanf(path, "/proc/self/fd/%d", &pfd) == 1) { if (pfd >= 0 && (size_t)pfd < fdt.size() && fdt[pfd].o) ino = fdt[pfd].o->ino; } // a magic link leads to the file itself
    else { auto it = names.find(path); if (it != names.end()) ino = it->second->ino; }
    if (!ino) { errno = ENOENT; return -1; }
    if (inject) { errno = inject; return -1; }
    for (auto &w : o->watches) if (w.second->ino == ino) { w.second->mask = mask; w.second->oneshot = mask & IN_ONESHOT; return w.first; }
    Watch *w = new Watch{o->nextwd++, ino, mask & ~(uint32_t)IN_ONESHOT, (mask & IN_ONESHOT) != 0};
    o->watches[w->wd] = w; ino->watchers.push_back({o, w->wd});
    return w->wd;
}
int k_inotify_rm(int ifd, int wd) {
    OFD *o = ofd_get(ifd); if (!o) return -1;
    if (o->kind != K_INOTIFY || !o->watches.count(wd)) { errno = EINVAL; return -1; }
    watch_drop(o, o->watches[wd], true); return 0;
}
// ------------------------------------------------------------ files
void k_mkfile(const char *path, int64_t size) { Inode *i = new Inode; i->path = path; i->size = size; names[path] = new Dentry{path, i, false}; }
int k_open(const char *path, bool wr) {
    auto it = names.find(path); if (it == names.end()) { errno = ENOENT; return -1; }
    OFD *o = ofd_new(K_FILE, false, "file"); o->ino = it->second->ino; o->de = it->second; o->wr = wr;
    int fd = fd_alloc(o, true); if (fd < 0) { delete o; return -1; }
    o->ino->opens++; ino_event(o->ino, IN_OPEN); return fd;
}
int k_unlink(const char *path) { auto it = names.find(path); if (it == names.end()) { errno = ENOENT; return -1; } Dentry *d = it->second; names.erase(it); d->deleted = true; d->ino->nlink--; ino_event(d->ino, IN_ATTRIB); ino_maybe_gone(d->ino); return 0; }
int k_link(const char *path, const char *np) { auto it = names.find(path); if (it == names.end() || names.count(np)) { errno = EEXIST; return -1; } Inode *i = it->second->ino; names[np] = new Dentry{np, i, false}; i->nlink++; ino_event(i, IN_ATTRIB); return 0; }
int k_rename(const char *path, const char *np) {
    auto it = names.find(path); if (it == names.end()) { errno = ENOENT; return -1; }
    Dentry *d = it->second; Inode *over = nullptr;
    if (names.count(np)) { Dentry *t = names[np]; if (t->ino == d->ino) return 0; over = t->ino; t->deleted = true; over->nlink--; }
    names.erase(path); d->name = np; names[np] = d; ino_event(d->ino, IN_MOVE_SELF);
    if (over) { ino_event(over, IN_ATTRIB); ino_maybe_gone(over); }
    return 0;
}
int k_chmod(int fd) { OFD *o = ofd_get(fd); if (!o || !o->ino) return -1; o->ino->mode ^= 1; ino_event(o->ino, IN_ATTRIB); return 0; }
int k_truncate(int fd, int64_t n) { OFD *o = ofd_get(fd); if (!o || !o->ino) return -1; o->ino->size = n; ino_event(o->ino, IN_MODIFY); return 0; }
int64_t k_lseek(int fd, int64_t off, int wh) { OFD *o = ofd_get(fd); if (!o) return -1; if (o->kind != K_FILE) { errno = ESPIPE; return -1; } int64_t n = wh == 0 ? off : wh == 1 ? o->off + off : o->ino->size + off; if (n < 0) { errno = EINVAL; return -1; } o->off = n; if (off || wh != 1) changed(); return n; }
// ------------------------------------------------------------ pipes, sockets
static void sigio(OFD *o, int band) {
    (void)band;
    if (!o || !o->fasync || !o->fowner) return;
    for (auto t : threads) if (t->tid + 100 == o->fowner && t->st != T_DONE) { trace("fasync signal %d si_fd=%d", o->fsig ? o->fsig : 29, o->ffd); k_tkill(t, PendSig{o->fsig ? o->fsig : 29, 0, o->ffd, 0, 0}); }
}
int k_pipe(int fds[2], int cap) {
    if (!fd_room(2)) { errno = EMFILE; return -1; }
    Pipe *p = new Pipe; p->cap = cap; OFD *r = ofd_new(K_PIPE_R, false, "pipe"), *w = ofd_new(K_PIPE_W, false, "pipe"); r->pipe = w->pipe = p; p->r = r; p->w = w;
    fds[0] = fd_alloc(r, true); fds[1] = fd_alloc(w, true); return 0;
}
int k_sockpair(int fds[2], SockType t, int cap) {
    if (!fd_room(2)) { errno = EMFILE; return -1; }
    OFD *a = ofd_new(K_SOCK, false, "sock"), *b = ofd_new(K_SOCK, false, "sock"); a->st = b->st = t; a->peer = b; b->peer = a; a->rcap = b->rcap = cap;
    fds[0] = fd_alloc(a, true); fds[1] = fd_alloc(b, true); return 0;
}
int k_listen() { OFD *a = ofd_new(K_SOCK, false, "listen"); a->st = S_LISTEN; int fd = fd_alloc(a, true); if (fd < 0) delete a; return fd; }
int k_connect_to(int lfd) { OFD *o = ofd_get(lfd); if (!o) return -1; o->rbytes++; k_wake(o, EPOLLIN); return 0; }
int k_accept(int lfd) { OFD *o = ofd_get(lfd); if (!o) return -1; if (!o->rbytes) { errno = EAGAIN; return -1; } o->rbytes--; changed(); return 0; }
int k_eventfd(uint64_t v) { OFD *a = ofd_new(K_EVENTFD, false, "eventfd"); a->count = v; int fd = fd_alloc(a, true); if (fd < 0) delete a; return fd; }
int k_write(int fd, int n) {
    OFD *o = ofd_get(fd); if (!o) return -1;
    switch (o->kind) {
    case K_PIPE_W: { Pipe *p = o->pipe; if (!p->readers) { errno = EPIPE; return -1; } int m = std::min(n, p->cap - p->bytes); if (m <= 0) { errno = EAGAIN; return -1; } p->bytes += m; k_wake(p->r, EPOLLIN); return m; }
    case K_SOCK: {
        if (o->st == S_LISTEN) { errno = ENOTCONN; return -1; }
        OFD *p = o->peer; if (o->err) { int e = o->err; o->err = 0; changed(); errno = e; return -1; }
        if (!p || o->peer_gone || (o->shut & 2)) { errno = EPIPE; return -1; }
        if (!sock_writable(o)) { errno = EAGAIN; return -1; }
        if (o->st == S_DGRAM) { p->dg.push_back(n); p->rbytes += n; k_wake(p, EPOLLIN); return n; }
        int m = std::min(n, p->rcap - p->rbytes); if (m <= 0) { errno = EAGAIN; return -1; }
        p->rbytes += m; k_wake(p, EPOLLIN); return m; }
    case K_EVENTFD: o->count += n; k_wake(o, EPOLLIN); return 8;
    case K_FILE: { if (!o->wr) { errno = EBADF; return -1; } o->off += n; if (o->off > o->ino->size) o->ino->size = o->off; ino_event(o->ino, IN_MODIFY); return n; }
    default: errno = EINVAL; return -1;
    }
}
int k_read(int fd, int n) {
    OFD *o = ofd_get(fd); if (!o) return -1;
    switch (o->kind) {
    case K_PIPE_R: { Pipe *p = o->pipe; if (!p->bytes) { if (!p->writers) return 0; errno = EAGAIN; return -1; } bool full = p->bytes >= p->cap; int m = std::min(n, p->bytes); p->bytes -= m; if (full && p->w) k_wake(p->w, EPOLLOUT); else changed(); return m; }
    case K_SOCK: {
        if (o->st == S_LISTEN) return k_accept(fd);
        if (o->st == S_DGRAM && !o->err) { if (o->dg.empty()) { errno = EAGAIN; return -1; } bool full = o->peer && !sock_writable(o->peer); int m = o->dg.front(); o->dg.pop_front(); o->rbytes -= m; if (full && o->peer) k_wake(o->peer, EPOLLOUT); else changed(); return m; }
        if (o->err) { int e = o->err; o->err = 0; changed(); errno = e; return -1; }
        if (!o->rbytes) { if (o->peer_gone || o->peer_shut_wr || o->reset) return 0; errno = EAGAIN; return -1; }
        bool full = o->rbytes >= o->rcap; int m = std::min(n, o->rbytes); o->rbytes -= m; if (full && o->peer) k_wake(o->peer, EPOLLOUT); else changed(); return m; }
    case K_EVENTFD: { if (!o->count) { errno = EAGAIN; return -1; } o->count = 0; changed(); return 8; }
    case K_FILE: { int64_t m = std::min<int64_t>(n, o->ino->size - o->off); if (m <= 0) return 0; o->off += m; changed(); return (int)m; }
    default: errno = EINVAL; return -1;
    }
}
int k_shutdown_wr(int fd) { OFD *o = ofd_get(fd); if (!o || o->kind != K_SOCK || o->st == S_LISTEN || o->st == S_DGRAM || (o->shut & 2)) return -1; o->shut |= 2; if (o->peer) { o->peer->peer_shut_wr = true; k_wake(o->peer, EPOLLIN | EPOLLRDHUP | (o->peer->shut & 2 ? EPOLLHUP : 0)); } k_wake(o, EPOLLOUT | (o->peer_shut_wr ? EPOLLHUP : 0)); return 0; }
int k_soerr(int fd, int e) { OFD *o = ofd_get(fd); if (!o || o->kind != K_SOCK || o->st != S_DGRAM || o->err) return -1; o->err = e; R->fault[FK_PEER_RESET]++; k_wake(o, EPOLLERR); return 0; } // an ICMP error arrives
int k_reset(int fd) { // the peer resets: fd sees ECONNRESET
    OFD *o = ofd_get(fd); if (!o || o->kind != K_SOCK || o->st != S_TCP || o->reset) return -1;
    o->reset = true; o->err = ECONNRESET; o->peer_gone = true; o->rbytes = 0; if (o->peer) { o->peer->peer = nullptr; } o->peer = nullptr; R->fault[FK_PEER_RESET]++;
    k_wake(o, EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP | EPOLLERR); return 0;
}
void ofd_release(OFD *o) { // last reference gone
    switch (o->kind) {
    case K_PIPE_R: o->pipe->readers--; o->pipe->r = nullptr; if (o->pipe->w) { k_wake(o->pipe->w, 0); sigio(o->pipe->w, EPOLLOUT); } break;
    case K_PIPE_W: o->pipe->writers--; o->pipe->w = nullptr; if (o->pipe->r) { k_wake(o->pipe->r, 0); sigio(o->pipe->r, EPOLLIN); } break;
    case K_SOCK: if (o->peer) { OFD *p = o->peer; p->peer = nullptr; o->peer = nullptr; R->fault[FK_PEER_CLOSE]++; if (o->st != S_DGRAM) { p->peer_gone = true; p->peer_shut_wr = true; if (o->rbytes > 0) { p->err = ECONNRESET; if (o->st == S_TCP) { p->reset = true; p->rbytes = 0; } } } k_wake(p, 0); } break;
    case K_FILE: { Inode *i = o->ino; i->opens--; ino_event(i, o->wr ? IN_CLOSE_WRITE : IN_CLOSE_NOWRITE); ino_maybe_gone(i); break; }
    case K_INOTIFY: while (!o->watches.empty()) watch_drop(o, o->watches.begin()->second, false); inotifies.erase(std::find(inotifies.begin(), inotifies.end(), o)); break;
    case K_TIMERFD: timerfds.erase(std::find(timerfds.begin(), timerfds.end(), o)); break;
    case K_SIGNALFD: signalfds.erase(std::find(signalfds.begin(), signalfds.end(), o)); break;
    case K_EPOLL: while (!o->items.empty()) epi_free(o->items.back()); break;
    default: break;
    }
    while (!o->watchers.empty()) epi_free(o->watchers.back());
    o->fasync = false; o->dead = true;   // kept (not freed): identities stay comparable for the oracle
    changed();
}
int k_close(int fd) {
    OFD *o = ofd_get(fd); if (!o) return -1;
    fdt[fd] = Fd();
    if (--o->refs == 0) ofd_release(o);
    changed(); return 0;
}
int k_dup(int fd) { OFD *o = ofd_get(fd); if (!o) return -1; return fd_alloc(o, false); }
// ------------------------------------------------------------ timers
ns_t timers_next() { ns_t b = -1; for (auto o : timerfds) if (o->armed && !o->fired && (b < 0 || o->next < b)) b = o->next; return b; }
void timers_fire() {
    for (size_t i = 0; i < timerfds.size(); i++) { OFD *o = timerfds[i];
        if (o->armed && !o->fired && o->next <= now) { o->fired = true; o->ticks = 1; if (!o->interval) o->armed = false; k_wake(o, EPOLLIN); } }
}
void k_timer_set(OFD *o, ns_t value, ns_t interval, bool abs) {
    o->ticks = 0; o->fired = false; o->armed = value != 0; o->interval = interval; o->next = abs ? value : now + value;
    if (o->armed && o->next <= now) timers_fire();
    changed();
}
uint64_t k_timer_read(OFD *o) {
    uint64_t t = o->ticks; o->ticks = 0; o->fired = false;
    if (t && o->interval && o->armed) { ns_t k = (now - o->next) / o->interval; t += k; o->next += (k + 1) * o->interval; }
    changed(); return t;
}
// ------------------------------------------------------------ processes
int k_fork_child() { int p = next_pid++; Proc pr; pr.pid = p; procs[p] = pr; changed(); return p; }
void k_child_exit(int pid, int code, int status) {
    auto it = procs.find(pid); if (it == procs.end() || it->second.exited) return;
    it->second.exited = true; it->second.code = code; it->second.status = status; R->fault[FK_PROC_EXIT]++;
    for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o && fdt[i].o->kind == K_PIDFD && fdt[i].o->pid == pid) k_wake(fdt[i].o, 0);
    changed();
}
int k_wait_peek(int pid, int *code, int *status) { auto it = procs.find(pid); if (it == procs.end() || it->second.reaped || !it->second.child) { errno = ECHILD; return -1; } if (!it->second.exited) return 0; *code = it->second.code; *status = it->second.status; return 1; }
int k_reap(int pid) { auto it = procs.find(pid); if (it == procs.end() || it->second.reaped || !it->second.exited) return -1; it->second.reaped = true; for (auto &f : fdt) if (f.o && f.o->kind == K_PIDFD && f.o->pid == pid) k_wake(f.o, EPOLLIN | EPOLLHUP); changed(); return 0; }
