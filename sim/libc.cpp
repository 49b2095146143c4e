// The system-call / libc / pthread seam: every nondeterministic symbol the library imports is
// redirected (objcopy --redefine-sym X=sim_X) to the definition below.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <csetjmp>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/inotify.h>
#include <sys/signalfd.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/sockios.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/uio.h>
#include <set>

// What belongs to the application is only to be looked at.
bool dbg_maybe = false; // debug messages may have been asked for
static bool p24() { return target_prop && !strcmp(target_prop, "P24"); }
static void foreign(int fd, const char *what) { if (p24() && fd >= 0 && fd < (int)fdt.size() && fdt[fd].o && !fdt[fd].o->lib) violation(target_prop, "changes-foreign-fd", "the library called %s on descriptor %d of the application (%s)", what, fd, fdt[fd].o->mk.c_str()); }
static void global(const char *what) { if (p24()) violation(target_prop, "changes-process", "the library called %s, which affects the whole program", what); }
static void prints(const char *t) { if (p24() && !dbg_maybe && !C.debug_env) violation(target_prop, "prints", "the library prints although debugging is off: %.100s", t ? t : ""); }

// ---------------------------------------------------------------- memory
struct AInfo { size_t n; uint64_t seq; const char *fn; int owner; bool creation; };
int total_lib_faults = 0;
static std::map<void*, AInfo> allocs; static uint64_t aseq = 0; static size_t abytes = 0;
static void *track(void *p, size_t n, const char *fn) { if (p) { allocs[p] = AInfo{n, aseq++, fn, cur ? cur->cur_q : 0, cur && cur->creating}; abytes += n; } return p; }
static void untrack(void *p) { auto it = allocs.find(p); if (it != allocs.end()) { abytes -= it->second.n; allocs.erase(it); } }
int owned_allocs(int q) { int n = 0; for (auto &a : allocs) if (a.second.owner == q && !a.second.creation) n++; return n; }
int owned_allocs_all(int q) { int n = 0; for (auto &a : allocs) if (a.second.owner == q) n++; return n; }
int nlib_allocs() { return (int)allocs.size(); }
size_t lib_alloc_bytes() { return abytes; }
std::string lib_alloc_dump() { std::map<uint64_t, AInfo> s; for (auto &a : allocs) s[a.second.seq] = a.second; std::string r; for (auto &a : s) r += std::to_string(a.second.n) + " "; return r; }
static void lib_fault_hit() { cur->lib_faults++; total_lib_faults++; }
static bool lfault(FaultKind k) { if (cur->nofault) return false; if (fault(k)) { lib_fault_hit(); return true; } return false; }
static int create_fault() { // errno to inject for a descriptor-creating call
    if (lfault(FK_EMFILE)) return EMFILE;
    if (lfault(FK_ENFILE)) return ENFILE;
    if (lfault(FK_ENOMEM_SYS)) return ENOMEM;
    return 0;
}
extern "C" {
void *sim_malloc(size_t n) { yield_point("malloc"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return nullptr; } return track(malloc(n), n, "malloc"); }
void *sim_calloc(size_t a, size_t b) { yield_point("calloc"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return nullptr; } return track(calloc(a, b), a * b, "calloc"); }
void *sim_realloc(void *p, size_t n) { yield_point("realloc"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return nullptr; } untrack(p); return track(realloc(p, n), n, "realloc"); }
void sim_free(void *p) { yield_point("free"); int e = errno; if (p) untrack(p); free(p); errno = e; }
char *sim_strdup(const char *s) { yield_point("strdup"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return nullptr; } char *p = strdup(s); return (char *)track(p, strlen(s) + 1, "strdup"); }
char *sim_strndup(const char *s, size_t n) { yield_point("strndup"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return nullptr; } char *p = strndup(s, n); return (char *)track(p, strlen(p) + 1, "strndup"); }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
void *sim_aligned_alloc(size_t al, size_t n) { yield_point("aligned_alloc"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return nullptr; } return track(aligned_alloc(al, n), n, "aligned_alloc"); }
int sim_posix_memalign(void **out, size_t al, size_t n) { yield_point("posix_memalign"); if (lfault(FK_MALLOC)) return ENOMEM; int r = posix_memalign(out, al, n); if (!r) track(*out, n, "posix_memalign"); return r; }
int sim_vasprintf(char **out, const char *fmt, va_list ap) { yield_point("asprintf"); if (lfault(FK_MALLOC)) { errno = ENOMEM; return -1; } int n = vasprintf(out, fmt, ap); if (n >= 0) track(*out, (size_t)n + 1, "asprintf"); return n; }
int sim_asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vasprintf(out, fmt, ap); va_end(ap); return n; }

// ---------------------------------------------------------------- emulated TLS
struct emutls_control { size_t size, align; void *obj; void *templ; };
void *sim_emutls(emutls_control *c) {
    auto it = cur->tls.find(c); if (it != cur->tls.end()) return it->second;
    void *p = malloc(c->size ? c->size : 1); if (c->templ) memcpy(p, c->templ, c->size); else memset(p, 0, c->size);
    cur->tls[c] = p; return p;
}
// ---------------------------------------------------------------- coverage / basic block preemption
extern void sim_bb(void);
uint8_t *cov_map; uint32_t cov_n = 0;
void sim_cov_guard(uint32_t *g) { if (!sim_active) return; if (cov_map && *g && *g < 65536) { if (!cov_map[*g]) { cov_map[*g] = 1; } } sim_bb(); }
const uintptr_t *cov_pcs; size_t cov_npcs = 0;
void sim_cov_pcs(const uintptr_t *a, const uintptr_t *b) { if (!cov_pcs) { cov_pcs = a; cov_npcs = (size_t)(b - a) / 2; } }
void sim_cov_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (uint32_t *x = a; x < b; x++) *x = ++cov_n; }

// ---------------------------------------------------------------- descriptors
static int mkfd(Kind k, const char *name, bool cloexec, OFD **out) { OFD *o = ofd_new(k, true, name); int fd = fd_alloc(o, cloexec); if (fd < 0) { int e = errno; lib_fault_hit(); o->refs = 1; o->refs = 0; ofd_release(o); errno = e; return -1; } if (out) *out = o; return fd; }
int sim_close(int fd) {
    yield_point("close"); test_cancel();
    OFD *o = ofd_get(fd);
    if (!o) { trace("close(%d) EBADF", fd); if (fd >= 0) cur->bad_close = fd; errno = EBADF; return -1; }
    trace("close(%d) %s", fd, o->mk.c_str());
    if (!o->lib) violation(target_prop, "closes-foreign-fd", "the library closed descriptor %d, which belongs to the application (%s)", fd, o->mk.c_str());
    if (o->kqid && !cur->cur_call_close_ok && !in_child_world) { } 
    return k_close(fd);
}
int sim_epoll_create1(int flags) { yield_point("epoll_create1"); if (int e = create_fault()) { errno = e; return -1; } int fd = mkfd(K_EPOLL, "epoll", flags & EPOLL_CLOEXEC, nullptr); trace("epoll_create1 = %d", fd); return fd; }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    yield_point("epoll_ctl"); int inj = 0;
    if (op == EPOLL_CTL_ADD) { if (lfault(FK_ENOMEM_SYS)) inj = ENOMEM; else if (lfault(FK_ENOSPC)) inj = ENOSPC; }
    int r = k_epoll_ctl(ep, op, fd, ev, inj); int e = errno; trace("epoll_ctl(%d,%d,%d,%x) = %d %d", ep, op, fd, ev ? ev->events : 0, r, r < 0 ? e : 0); errno = e; return r;
}
int sim_epoll_pwait(int epfd, struct epoll_event *out, int max, int timeout, const sigset_t *) ;
int sim_epoll_wait(int epfd, struct epoll_event *out, int max, int timeout) {
    OFD *ep = ofd_get(epfd);
    if (!ep) { yield_point("epoll_wait"); return -1; }
    if (ep->kind != K_EPOLL || max <= 0) { errno = EINVAL; return -1; }
    if (in_child_world && ep->inherited) violation("P17", "child-waits-on-parent-epoll", "the forked child waits on an epoll instance it shares with its parent");
    ns_t dl = timeout < 0 ? -1 : now + (ns_t)timeout * MS;
    if (timeout != 0 && !k_epoll_ready(ep) && lfault(FK_EINTR_WAIT)) { test_cancel(); trace("epoll_wait EINTR"); Thread_wait_eintr(cur); errno = EINTR; return -1; }
    cur->waiting_ep = ep; if (timeout) cur->waits++;
    int r = block_until("epoll_wait", [ep] { return ep->dead || k_epoll_ready(ep); }, dl, true, timeout != 0);
    cur->waiting_ep = nullptr;
    if (r == 3) { trace("epoll_wait EINTR"); Thread_wait_eintr(cur); errno = EINTR; return -1; }
    if (ep->dead) { // descriptor closed while waiting: real epoll would never wake; treat as still blocked
        violation(target_prop, "epoll-closed-under-waiter", "the library closed the epoll instance another thread is waiting on");
    }
    int n = k_epoll_harvest(ep, out, max);
    trace("epoll_wait(%d,max=%d,to=%d) = %d", epfd, max, timeout, n);
    if (on_change) on_change();
    return n;
}
int sim_epoll_pwait(int epfd, struct epoll_event *out, int max, int timeout, const sigset_t *) { return sim_epoll_wait(epfd, out, max, timeout); }
static int do_poll(struct pollfd *f, nfds_t n, ns_t to) {
    if (to != 0) { bool rdy = false; for (nfds_t i = 0; i < n; i++) { OFD *o = f[i].fd >= 0 && f[i].fd < (int)fdt.size() ? fdt[f[i].fd].o : nullptr; if (o && (k_poll(o) & (f[i].events | POLLERR | POLLHUP))) rdy = true; } if (!rdy && lfault(FK_EINTR_WAIT)) { test_cancel(); trace("ppoll EINTR"); Thread_wait_eintr(cur); errno = EINTR; return -1; } }
    std::vector<OFD*> os; for (nfds_t i = 0; i < n; i++) os.push_back(f[i].fd >= 0 && f[i].fd < (int)fdt.size() ? fdt[f[i].fd].o : nullptr);
    auto rd = [&]() { for (nfds_t i = 0; i < n; i++) if (!os[i] || os[i]->dead || (k_poll(os[i]) & (f[i].events | POLLERR | POLLHUP))) return true; return false; };
    for (auto o : os) if (o && o->kind == K_EPOLL) cur->waiting_ep = o;
    if (to) cur->waits++;
    int r = block_until("ppoll", rd, to < 0 ? -1 : now + to, true, to != 0);
    cur->waiting_ep = nullptr;
    if (r == 3) { trace("ppoll EINTR"); Thread_wait_eintr(cur); errno = EINTR; return -1; }
    int c = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = os[i] ? (short)(k_poll(os[i]) & (f[i].events | POLLERR | POLLHUP)) : POLLNVAL; if (f[i].revents) c++; }
    trace("ppoll = %d", c); return c;
}
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) {
    if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= SEC)) { errno = EINVAL; return -1; }
    ns_t to = ts ? (ts->tv_sec > 100000000 ? 100000000 * SEC : ts->tv_sec * SEC + ts->tv_nsec) : -1;
    return do_poll(f, n, to);
}
int sim_poll(struct pollfd *f, nfds_t n, int ms) { return do_poll(f, n, ms < 0 ? -1 : ms * MS); }
int sim_epoll_pwait2(int epfd, struct epoll_event *out, int max, const struct timespec *ts, const sigset_t *) {
    if (!ts) return sim_epoll_wait(epfd, out, max, -1);
    struct pollfd p = {epfd, POLLIN, 0}; if (ts->tv_sec || ts->tv_nsec) { int r = sim_ppoll(&p, 1, ts, nullptr); if (r < 0) return r; if (r == 0) return 0; }
    return sim_epoll_wait(epfd, out, max, 0);
}
int sim_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) {
    std::vector<struct pollfd> v; for (int i = 0; i < nfds; i++) if (r && FD_ISSET(i, r)) v.push_back({i, POLLIN, 0});
    (void)w; (void)e; int n = sim_ppoll(v.data(), v.size(), ts, nullptr); if (n < 0) return n;
    if (r) { FD_ZERO(r); for (auto &p : v) if (p.revents) FD_SET(p.fd, r); } return n;
}
int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { struct timespec ts; if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; } return sim_pselect(nfds, r, w, e, tv ? &ts : nullptr, nullptr); }
int sim_eventfd(unsigned v, int flags) { yield_point("eventfd"); if (int e = create_fault()) { errno = e; return -1; } OFD *o; int fd = mkfd(K_EVENTFD, "lib-eventfd", flags & EFD_CLOEXEC, &o); if (fd >= 0) { o->count = v; o->flags = flags & EFD_NONBLOCK ? O_NONBLOCK : 0; o->sema = flags & EFD_SEMAPHORE; } trace("eventfd = %d", fd); return fd; }
static void shared_touch(OFD *o, const char *what) { if (in_child_world && o->inherited && o->lib) violation("P17", "child-touches-parent-object", "the forked child's library code did %s on a %s it shares with its parent", what, o->mk.c_str()); }
ssize_t sim_write(int fd, const void *buf, size_t n) {
    yield_point("write"); test_cancel(); OFD *o = ofd_get(fd); if (!o) return -1;
    shared_touch(o, "write");
    if (!o->lib) violation(target_prop, "writes-foreign-fd", "the library wrote to descriptor %d of the application", fd);
    if (o->kind == K_EVENTFD) { uint64_t v; if (n < 8) { errno = EINVAL; return -1; } memcpy(&v, buf, 8); o->count += v; trace("write eventfd %d", fd); k_wake(o, EPOLLIN); return 8; }
    if (o->kind == K_PIPE_W) return k_write(fd, (int)n);
    errno = EINVAL; return -1;
}
ssize_t sim_read(int fd, void *buf, size_t n) {
    yield_point("read"); test_cancel(); OFD *o = ofd_get(fd); if (!o) return -1;
    shared_touch(o, "read");
    bool nb = o->flags & O_NONBLOCK;
    switch (o->kind) {
    case K_EVENTFD: case K_TIMERFD: {
        if (n < 8) { errno = EINVAL; return -1; }
        if (!o->lib) violation(target_prop, "reads-foreign-fd", "the library consumed data from descriptor %d of the application", fd);
        auto rdy = [o] { return o->kind == K_EVENTFD ? o->count > 0 : o->ticks > 0; };
        if (!rdy()) { if (nb) { errno = EAGAIN; return -1; } trace("read(%d) blocks", fd); int r = block_until("read", rdy, -1, true, true); if (r == 3) { errno = EINTR; return -1; } }
        uint64_t v; if (o->kind == K_TIMERFD) v = k_timer_read(o); else if (o->sema) { v = 1; o->count--; } else { v = o->count; o->count = 0; }
        if (on_change) on_change();
        memcpy(buf, &v, 8); trace("read(%d) = %lu", fd, (unsigned long)v); return 8; }
    case K_SIGNALFD: {
        if (n < sizeof(struct signalfd_siginfo)) { errno = EINVAL; return -1; }
        PendSig p; uint64_t m = o->mask; Thread *me = cur;
        if (!k_has_pending(cur, m)) { if (nb) { errno = EAGAIN; return -1; } int r = block_until("read signalfd", [me, m] { return k_has_pending(me, m); }, -1, true, true); if (r == 3) { errno = EINTR; return -1; } }
        k_dequeue(m, &p); cur->consumed[p.sig]++;
        struct signalfd_siginfo si; memset(&si, 0, sizeof si); si.ssi_signo = p.sig; memcpy(buf, &si, sizeof si); trace("read signalfd sig %d", p.sig); return sizeof si; }
    case K_INOTIFY: {
        if (o->inq.empty()) { if (nb) { errno = EAGAIN; return -1; } trace("read(inotify) blocks"); int r = block_until("read inotify", [o] { return !o->inq.empty(); }, -1, true, true); if (r == 3) { errno = EINTR; return -1; } }
        if (n < sizeof(struct inotify_event)) { errno = EINVAL; return -1; }
        size_t k = 0; while (!o->inq.empty() && k + sizeof(struct inotify_event) <= n) { struct inotify_event ie; memset(&ie, 0, sizeof ie); ie.wd = o->inq.front().wd; ie.mask = o->inq.front().mask; o->inq.pop_front(); memcpy((char *)buf + k, &ie, sizeof ie); trace("read inotify mask %x", ie.mask); k += sizeof ie; }
        if (on_change) on_change();
        return (ssize_t)k; }
    case K_PIPE_R: { int r = k_read(fd, (int)n); int e = errno; trace("read pipe %d = %d", fd, r); errno = e; return r; }
    default: if (!o->lib) violation(target_prop, "reads-foreign-fd", "the library consumed data from descriptor %d of the application", fd); errno = EINVAL; return -1;
    }
}
// calls today's library does not make: a rewrite of it may
ssize_t sim_readv(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; } return t; }
int sim_eventfd_write(int fd, eventfd_t v) { uint64_t x = v; return sim_write(fd, &x, 8) == 8 ? 0 : -1; }
int sim_eventfd_read(int fd, eventfd_t *v) { return sim_read(fd, v, 8) == 8 ? 0 : -1; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    yield_point("fcntl"); OFD *o = ofd_get(fd); if (!o) return -1;
    int iv = (int)(intptr_t)arg;
    switch (cmd) {
    case F_GETFD: return fdt[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: foreign(fd, "fcntl(F_SETFD)"); fdt[fd].cloexec = iv & FD_CLOEXEC; return 0;
    case F_GETFL: return o->flags;
    case F_SETFL: foreign(fd, "fcntl(F_SETFL)"); if ((iv & O_ASYNC) && lfault(FK_ENOMEM_SYS)) { errno = ENOMEM; return -1; } o->flags = iv & (O_NONBLOCK | O_ASYNC | O_APPEND); if (iv & O_ASYNC) { o->fasync = true; o->ffd = fd; } else o->fasync = false; return 0;
    case F_SETSIG: foreign(fd, "fcntl(F_SETSIG)"); o->fsig = iv; return 0;
    case F_SETOWN: foreign(fd, "fcntl(F_SETOWN)"); o->fowner = iv; return 0;
    case F_SETOWN_EX: foreign(fd, "fcntl(F_SETOWN_EX)"); { auto *x = (struct f_owner_ex *)arg; bool ok = false; for (auto t : threads) if (t->tid + 100 == x->pid && t->st != T_DONE) ok = true; if (!ok) { errno = ESRCH; return -1; } o->fowner = x->pid; return 0; }
    case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: case F_SETLEASE: case F_NOTIFY: case F_SETPIPE_SZ: foreign(fd, "fcntl (locks, leases, sizes)"); return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: foreign(fd, "fcntl(F_DUPFD)"); { if (int e = create_fault()) { errno = e; return -1; } return fd_alloc(o, cmd == F_DUPFD_CLOEXEC, iv); }
    default: return 0;
    }
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_dup2(int fd, int to) { yield_point("dup2"); OFD *o = ofd_get(fd); if (!o) return -1; foreign(fd, "dup2"); if (fd == to) return to; if (to >= 0 && to < (int)fdt.size() && fdt[to].o) sim_close(to); if (to < 0 || to >= fd_soft) { errno = EBADF; return -1; } if (to >= (int)fdt.size()) fdt.resize(to + 1); fdt[to].o = o; fdt[to].cloexec = false; o->refs++; return to; }
int sim_dup3(int fd, int to, int fl) { int r = sim_dup2(fd, to); if (r >= 0) fdt[r].cloexec = fl & O_CLOEXEC; return r; }
int sim_dup(int fd) { yield_point("dup"); OFD *o = ofd_get(fd); if (!o) return -1; foreign(fd, "dup"); return fd_alloc(o, false); }
int sim_fstat(int fd, struct stat *sb) {
    yield_point("fstat"); OFD *o = ofd_get(fd); if (!o) return -1; memset(sb, 0, sizeof *sb);
    switch (o->kind) { case K_PIPE_R: case K_PIPE_W: sb->st_mode = (o->chr ? S_IFCHR : S_IFIFO) | 0600; sb->st_dev = 12; sb->st_ino = o->pipe->id; break; case K_SOCK: sb->st_mode = S_IFSOCK | 0777; sb->st_dev = 8; sb->st_ino = 5000000 + (uint64_t)fd; break;
    case K_FILE: sb->st_mode = S_IFREG | o->ino->mode; sb->st_dev = 2049; sb->st_ino = o->ino->id; sb->st_size = o->ino->size; sb->st_nlink = o->ino->nlink; break; case K_DUMMY: sb->st_mode = S_IFCHR | 0666; break; default: sb->st_mode = 0600; sb->st_dev = 13; sb->st_ino = 7; break; }
    return 0;
}
int sim_fstatat(int fd, const char *path, struct stat *sb, int fl) { if (path && !*path && (fl & AT_EMPTY_PATH)) return sim_fstat(fd, sb); int f; if (path && sscanf(path, "/proc/self/fd/%d", &f) == 1) return sim_fstat(f, sb); errno = ENOENT; return -1; }
int sim_stat(const char *path, struct stat *sb) { return sim_fstatat(-1, path, sb, 0); }
int sim_statx(int fd, const char *path, int fl, unsigned, struct statx *x) { struct stat s; if (sim_fstatat(fd, path, &s, fl) < 0) return -1; memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = s.st_mode; x->stx_size = s.st_size; x->stx_nlink = s.st_nlink; x->stx_ino = s.st_ino; return 0; }
int sim_fstat64(int fd, struct stat *sb) { return sim_fstat(fd, sb); }
off_t sim_lseek(int fd, off_t off, int wh) { yield_point("lseek"); if (off || wh != SEEK_CUR) foreign(fd, "lseek"); return k_lseek(fd, off, wh); }
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_getsockopt(int fd, int lvl, int opt, void *val, socklen_t *len) {
    yield_point("getsockopt"); (void)lvl; OFD *o = ofd_get(fd); if (!o) return -1;
    if (o->kind != K_SOCK) { errno = ENOTSOCK; return -1; }
    switch (opt) {
    case SO_TYPE: *(int *)val = o->sotype ? o->sotype : o->st == S_DGRAM ? SOCK_DGRAM : SOCK_STREAM; break;
    case SO_ACCEPTCONN: *(int *)val = o->st == S_LISTEN; break;
    case SO_ERROR: *(int *)val = o->err; if (o->err) { cur->soerr.push_back({fd, o->err}); o->err = 0; if (on_change) on_change(); } break;
    case SO_GET_FILTER: *len = o->bpf ? 3 : 0; break;
    default: break; }
    return 0;
}
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { yield_point("setsockopt"); foreign(fd, "setsockopt"); return 0; }
int sim_shutdown(int fd, int) { foreign(fd, "shutdown"); errno = ENOTSOCK; return -1; }
int sim_accept(int fd, struct sockaddr *, socklen_t *) { foreign(fd, "accept"); errno = ENOTSOCK; return -1; }
int sim_accept4(int fd, struct sockaddr *, socklen_t *, int) { foreign(fd, "accept4"); errno = ENOTSOCK; return -1; }
int sim_connect(int fd, const struct sockaddr *, socklen_t) { foreign(fd, "connect"); errno = ENOTSOCK; return -1; }
int sim_listen(int fd, int) { foreign(fd, "listen"); errno = ENOTSOCK; return -1; }
int sim_bind(int fd, const struct sockaddr *, socklen_t) { foreign(fd, "bind"); errno = ENOTSOCK; return -1; }
ssize_t sim_send(int fd, const void *, size_t, int) { foreign(fd, "send"); errno = ENOTSOCK; return -1; }
ssize_t sim_sendto(int fd, const void *, size_t, int, const struct sockaddr *, socklen_t) { foreign(fd, "sendto"); errno = ENOTSOCK; return -1; }
ssize_t sim_sendmsg(int fd, const struct msghdr *, int) { foreign(fd, "sendmsg"); errno = ENOTSOCK; return -1; }
ssize_t sim_pwrite(int fd, const void *, size_t, off_t) { foreign(fd, "pwrite"); errno = ESPIPE; return -1; }
int sim_ftruncate(int fd, off_t) { foreign(fd, "ftruncate"); errno = EINVAL; return -1; }
int sim_fchmod(int fd, mode_t) { foreign(fd, "fchmod"); return 0; }
int sim_fchown(int fd, uid_t, gid_t) { foreign(fd, "fchown"); return 0; }
int sim_futimens(int fd, const struct timespec *) { foreign(fd, "futimens"); return 0; }
int sim_flock(int fd, int) { foreign(fd, "flock"); return 0; }
int sim_lockf(int fd, int, off_t) { foreign(fd, "lockf"); return 0; }
int sim_chdir(const char *) { global("chdir"); return 0; }
int sim_fchdir(int) { global("fchdir"); return 0; }
mode_t sim_umask(mode_t) { global("umask"); return 022; }
int sim_setrlimit(int, const struct rlimit *) { global("setrlimit"); return 0; }
int sim_setenv(const char *, const char *, int) { global("setenv"); return 0; }
int sim_putenv(char *) { global("putenv"); return 0; }
int sim_unsetenv(const char *) { global("unsetenv"); return 0; }
unsigned sim_alarm(unsigned) { global("alarm"); return 0; }
int sim_setitimer(int, const struct itimerval *, struct itimerval *) { global("setitimer"); return 0; }
int sim_sigaction(int, const struct sigaction *a, struct sigaction *o) { if (a) global("sigaction"); if (o) memset(o, 0, sizeof *o); return 0; }
void (*sim_signal(int, void (*)(int)))(int) { global("signal"); return nullptr; }
void (*sim___sysv_signal(int, void (*)(int)))(int) { global("signal"); return nullptr; }
void (*sim_bsd_signal(int, void (*)(int)))(int) { global("signal"); return nullptr; }
void (*sim_sigset(int, void (*)(int)))(int) { global("sigset"); return nullptr; }
int sim_sigignore(int) { global("sigignore"); return 0; }
int sim_siginterrupt(int, int) { global("siginterrupt"); return 0; }
int sim_nice(int) { global("nice"); return 0; }
int sim_setpriority(int, unsigned, int) { global("setpriority"); return 0; }
void sim_srand(unsigned) { global("srand"); }
void sim_srandom(unsigned) { global("srandom"); }
int sim_system(const char *) { global("system"); return 0; }
pid_t sim_fork(void) { global("fork"); return -1; }
pid_t sim_vfork(void) { global("vfork"); return -1; }
char *sim_setlocale(int, const char *) { global("setlocale"); return nullptr; }
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); int *arg = va_arg(ap, int *); va_end(ap);
    yield_point("ioctl"); OFD *o = ofd_get(fd); if (!o) return -1; int v;
    if (req == SIOCINQ) { switch (o->kind) { case K_PIPE_R: case K_PIPE_W: v = o->pipe->bytes; break; case K_SOCK: if (o->st == S_LISTEN) { errno = EINVAL; return -1; } v = o->bpf ? 0 : o->st == S_DGRAM ? (o->dg.empty() ? 0 : o->dg.front()) : o->rbytes; break; case K_FILE: v = (int)(o->ino->size - o->off); break; case K_INOTIFY: v = (int)o->inq.size() * 16; break; default: errno = ENOTTY; return -1; } *arg = v; return 0; }
    if (req == FIONBIO || req == FIOASYNC || req == FIOCLEX || req == FIONCLEX) { foreign(fd, "ioctl (status flags)"); int on = arg ? *arg : 0; if (req == FIONBIO) o->flags = on ? o->flags | O_NONBLOCK : o->flags & ~O_NONBLOCK; if (req == FIOCLEX) fdt[fd].cloexec = true; if (req == FIONCLEX) fdt[fd].cloexec = false; return 0; }
    if (req == SIOCOUTQ) { if (o->kind != K_SOCK || o->st == S_LISTEN) { errno = ENOTTY; return -1; } *arg = o->peer ? o->peer->rbytes : 0; return 0; }
    errno = ENOTTY; return -1;
}
int sim_inotify_init1(int flags) { yield_point("inotify_init1"); if (int e = create_fault()) { errno = e; return -1; } OFD *o; int fd = mkfd(K_INOTIFY, "inotify", flags & IN_CLOEXEC, &o); if (fd >= 0) o->flags = flags & IN_NONBLOCK ? O_NONBLOCK : 0; trace("inotify_init1 = %d", fd); return fd; }
int sim_inotify_init(void) { return sim_inotify_init1(0); }
int sim_inotify_add_watch(int fd, const char *path, uint32_t mask) { yield_point("inotify_add_watch"); int inj = lfault(FK_ENOSPC) ? ENOSPC : lfault(FK_ENOMEM_SYS) ? ENOMEM : 0; int r = k_inotify_add(fd, path, mask, inj); int e = errno; trace("inotify_add_watch(%d,%s,%x) = %d", fd, path, mask, r); errno = e; return r; }
int sim_inotify_rm_watch(int fd, int wd) { yield_point("inotify_rm_watch"); return k_inotify_rm(fd, wd); }
int sim_pipe2(int fds[2], int flags) {
    yield_point("pipe2"); if (int e = create_fault()) { errno = e; return -1; }
    if (!fd_room(2)) { lib_fault_hit(); errno = EMFILE; return -1; }
    k_pipe(fds, 65536); for (int i = 0; i < 2; i++) { OFD *o = fdt[fds[i]].o; o->lib = true; o->mk = i ? "kq-pipe-w" : "kq-pipe-r"; o->flags = flags & O_NONBLOCK; fdt[fds[i]].cloexec = flags & O_CLOEXEC; }
    trace("pipe2 = %d,%d", fds[0], fds[1]); return 0;
}
int sim_pipe(int fds[2]) { return sim_pipe2(fds, 0); }
int sim_signalfd(int fd, const sigset_t *m, int flags) {
    yield_point("signalfd"); uint64_t mask = 0; for (int s = 1; s <= 64; s++) if (sigismember(m, s) == 1) mask |= SB(s);
    if (fd >= 0) { OFD *o = ofd_get(fd); if (!o) return -1; o->mask = mask; return fd; }
    if (int e = create_fault()) { errno = e; return -1; }
    OFD *o; int n = mkfd(K_SIGNALFD, "signalfd", flags & SFD_CLOEXEC, &o); if (n >= 0) { o->mask = mask; o->flags = flags & SFD_NONBLOCK ? O_NONBLOCK : 0; } trace("signalfd = %d", n); return n;
}
int sim_timerfd_create(int clk, int flags) { yield_point("timerfd_create"); if (int e = create_fault()) { errno = e; return -1; } OFD *o; int fd = mkfd(K_TIMERFD, "timerfd", flags & TFD_CLOEXEC, &o); if (fd >= 0) { o->clk = clk; o->flags = flags & TFD_NONBLOCK ? O_NONBLOCK : 0; } trace("timerfd_create = %d", fd); return fd; }

int sim_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *old) {
    yield_point("timerfd_settime"); OFD *o = ofd_get(fd); if (!o) return -1; (void)old;
    auto bad = [](const struct timespec &t) { return t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= SEC; };
    if (bad(n->it_value) || bad(n->it_interval)) { errno = EINVAL; return -1; }
    shared_touch(o, "timerfd_settime");
    auto c = [](const struct timespec &t) -> ns_t { return t.tv_sec > 8000000000LL ? 8000000000LL * SEC : t.tv_sec * SEC + t.tv_nsec; };
    ns_t v = c(n->it_value); bool abs = flags & TFD_TIMER_ABSTIME;
    o->rtabs = abs && v && (o->clk == CLOCK_REALTIME || o->clk == CLOCK_REALTIME_ALARM);
    if (o->rtabs) v = std::max<ns_t>(v - rt_off, 1);
    k_timer_set(o, v, c(n->it_interval), abs); trace("timerfd_settime(%d,%ld,%ld,%d)", fd, (long)v, (long)c(n->it_interval), flags); return 0;
}
int sim_timerfd_gettime(int fd, struct itimerspec *t) { OFD *o = ofd_get(fd); if (!o) return -1; memset(t, 0, sizeof *t); if (o->armed) { ns_t l = o->next > now ? o->next - now : 1; t->it_value.tv_sec = l / SEC; t->it_value.tv_nsec = l % SEC; t->it_interval.tv_sec = o->interval / SEC; t->it_interval.tv_nsec = o->interval % SEC; } return 0; }
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) {
    yield_point("recv"); test_cancel(); OFD *o = ofd_get(fd); if (!o) return -1;
    if (o->kind != K_SOCK) { errno = ENOTSOCK; return -1; }
    if (!(flags & MSG_PEEK)) violation(target_prop, "reads-foreign-fd", "the library consumed data from descriptor %d of the application", fd);
    if (o->st == S_LISTEN) { errno = ENOTCONN; return -1; }
    if (o->err) { int e = o->err; o->err = 0; if (on_change) on_change(); errno = e; return -1; }
    int have = o->st == S_DGRAM ? (o->dg.empty() ? -1 : o->dg.front()) : o->rbytes;
    if (have > 0) { int m = std::min<int>(have, (int)n); memset(buf, 'x', m); return m; }
    if (have == 0 && (o->st == S_DGRAM || o->peer_gone || o->peer_shut_wr || o->reset || (o->shut & 1))) return 0;
    if (!(flags & MSG_DONTWAIT)) violation(target_prop, "blocking-recv", "the library blocks in recv() on descriptor %d", fd);
    errno = EAGAIN; return -1;
}
ssize_t sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *, socklen_t *) { return sim_recv(fd, buf, n, flags); }
ssize_t sim_readlink(const char *path, char *buf, size_t n) {
    yield_point("readlink"); int pid, fd; if (sscanf(path, "/proc/%d/fd/%d", &pid, &fd) != 2) { if (sscanf(path, "/proc/self/fd/%d", &fd) != 1) { errno = ENOENT; return -1; } }
    OFD *o = ofd_get(fd); if (!o) { errno = ENOENT; return -1; }
    std::string s = o->de ? o->de->name + (o->de->deleted ? " (deleted)" : "") : "anon:[" + o->mk + "]";
    size_t m = std::min(n, s.size()); memcpy(buf, s.data(), m); return (ssize_t)m;
}
ssize_t sim_readlinkat(int, const char *path, char *buf, size_t n) { return sim_readlink(path, buf, n); }
int sim_waitid(idtype_t t, id_t id, siginfo_t *info, int opts) {
    yield_point("waitid"); if (t == P_PIDFD) { OFD *o = ofd_get((int)id); if (!o) return -1; id = (id_t)o->pid; } int code = 0, st = 0; int r = k_wait_peek((int)id, &code, &st);
    if (r < 0) { trace("waitid(%d) ECHILD", (int)id); errno = ECHILD; return -1; }
    if (r == 0 && !(opts & WNOHANG)) { int pid = (int)id; block_until("waitid", [pid] { return procs[pid].exited; }, -1, true, true); r = k_wait_peek(pid, &code, &st); }
    memset(info, 0, sizeof *info); if (r > 0) { info->si_pid = (pid_t)id; info->si_signo = SIGCHLD; info->si_code = code; info->si_status = st; if (!(opts & WNOWAIT)) { proc_stolen = (int)id; k_reap((int)id); } }
    trace("waitid(%d) = %d", (int)id, r); return 0;
}
pid_t sim_waitpid(pid_t pid, int *st, int opts) { yield_point("waitpid"); int c = 0, s = 0; int r = k_wait_peek(pid, &c, &s); if (r < 0) return -1; if (r == 0) { if (opts & WNOHANG) return 0; block_until("waitpid", [pid] { return procs[pid].exited; }, -1, true, true); k_wait_peek(pid, &c, &s); } if (st) *st = c == CLD_EXITED ? s << 8 : (s & 0x7f) | (c == CLD_DUMPED ? 0x80 : 0); proc_stolen = pid; k_reap(pid); return pid; }
pid_t sim_wait4(pid_t pid, int *st, int opts, struct rusage *) { return sim_waitpid(pid, st, opts); }
pid_t sim_getppid(void) { return 1; }
pid_t sim_getpid(void) { return (pid_t)(in_child_world ? C.pid + 1 : C.pid); }
int sim_kill(pid_t, int sig) { if (sig) k_kill(sig); return 0; }
int sim_getrlimit(int, struct rlimit *r) { int top = (int)fdt.size() + 8; r->rlim_cur = (rlim_t)(C.low_soft && top < fd_soft ? top : fd_soft); // low_soft: the program raises its soft limit later
    r->rlim_max = (rlim_t)fd_limit_k; return 0; }
int sim_prlimit(pid_t, int res, const struct rlimit *, struct rlimit *o) { return o ? sim_getrlimit(res, o) : 0; }
int sim_prctl(int, ...) { yield_point("prctl"); return 0; }
void *sim_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) { yield_point("mmap"); return mmap(a, n, prot, fl, fd, off); }
long sim_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); long a = va_arg(ap, long); va_end(ap); yield_point("syscall");
    if (nr == SYS_gettid) return cur->tid + 100;
    if (nr == SYS_pidfd_open) {
        auto it = procs.find((int)a); if ((int)a <= 0) { errno = EINVAL; return -1; }
        if (it == procs.end() || it->second.reaped) { errno = ESRCH; return -1; }
        if (int e = create_fault()) { errno = e; return -1; }
        OFD *o; int fd = mkfd(K_PIDFD, "pidfd", true, &o); if (fd >= 0) o->pid = (int)a; trace("pidfd_open(%ld) = %d", a, fd); return fd; }
    errno = ENOSYS; return -1;
}
int sim_clock_gettime(clockid_t c, struct timespec *ts) { ns_t t = now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? rt_off : 0); ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { ns_t t = now + rt_off; tv->tv_sec = t / SEC; tv->tv_usec = (t % SEC) / 1000; return 0; }
time_t sim_time(time_t *p) { time_t t = (now + rt_off) / SEC; if (p) *p = t; return t; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { block_until("nanosleep", nullptr, now + t->tv_sec * SEC + t->tv_nsec, true, true); return 0; }
int sim_usleep(unsigned u) { block_until("usleep", nullptr, now + (ns_t)u * US, true, true); return 0; }
unsigned sim_sleep(unsigned s) { block_until("sleep", nullptr, now + (ns_t)s * SEC, true, true); return 0; }
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec *t, struct timespec *) { ns_t d = t->tv_sec * SEC + t->tv_nsec; block_until("clock_nanosleep", nullptr, fl & TIMER_ABSTIME ? d : now + d, true, true); return 0; }
long sim_sysconf(int n) { return n == _SC_OPEN_MAX ? (long)fd_soft : sysconf(n); }
int sim_pidfd_open(int pid, unsigned f) { return (int)sim_syscall(SYS_pidfd_open, (long)pid, (long)f); }
int sim_gettid(void) { return cur->tid + 100; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_sched_yield(void) { yield_point("sched_yield"); return 0; }
char *sim_getenv(const char *n) { static char yes[] = "yes"; return C.debug_env && !strcmp(n, "KQUEUE_DEBUG") ? yes : nullptr; }
// what the library prints goes nowhere, but its arguments are evaluated

int sim_vfprintf(FILE *, const char *fmt, va_list ap) { char b[2048]; int e = errno, n = vsnprintf(b, sizeof b, fmt, ap); errno = e; if (cap_msgs >= 0 && cur->tid == 0) { cap_msgs++; cap_text = b; } prints(b); yield_point("print"); return n; }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(nullptr, fmt, ap); va_end(ap); return n; }
int sim_fputs(const char *t, FILE *) { (void)strlen(t); prints(t); yield_point("print"); return 1; }
int sim_puts(const char *t) { return sim_fputs(t, nullptr); }
int sim_fputc(int c, FILE *) { prints("(a character)"); return c; }
int sim_putc(int c, FILE *) { prints("(a character)"); return c; }
int sim_putchar(int c) { prints("(a character)"); return c; }
size_t sim_fwrite(const void *, size_t, size_t n, FILE *) { prints("(a block)"); return n; }
int sim_dprintf(int, const char *fmt, ...) { prints(fmt); return 0; }
int sim_vdprintf(int, const char *fmt, va_list) { prints(fmt); return 0; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(nullptr, fmt, ap); }
int sim_fflush(FILE *) { return 0; }
void sim_perror(const char *t) { sim_fputs(t, nullptr); }
// ---------------------------------------------------------------- signals
static uint64_t toset(const sigset_t *s) { uint64_t m = 0; for (int i = 1; i <= 64; i++) if (sigismember(s, i) == 1) m |= SB(i); return m; }
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *old) {
    yield_point("sigmask");
    if (old) { sigemptyset(old); for (int i = 1; i <= 64; i++) if (cur->sigmask & SB(i)) sigaddset(old, i); }
    if (s) { uint64_t m = toset(s); if (how == SIG_BLOCK) cur->sigmask |= m; else if (how == SIG_UNBLOCK) cur->sigmask &= ~m; else cur->sigmask = m; k_unblocked(cur); }
    return 0;
}
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *old) { return sim_pthread_sigmask(how, s, old); }
int sim_sigwaitinfo(const sigset_t *s, siginfo_t *info) {
    uint64_t m = toset(s); Thread *me = cur;
    if (!k_has_pending(cur, m) && lfault(FK_EINTR_WAIT)) { test_cancel(); errno = EINTR; return -1; }
    int r = block_until("sigwaitinfo", [me, m] { return k_has_pending(me, m); }, -1, true, true);
    if (r == 3) { errno = EINTR; return -1; }
    PendSig p; if (!k_dequeue(m, &p)) { errno = EINTR; return -1; }
    if (info) { memset(info, 0, sizeof *info); info->si_signo = p.sig; info->si_fd = p.fd; }
    trace("sigwaitinfo sig %d fd %d", p.sig, p.fd); return p.sig;
}
int sim_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *ts) {
    if (!ts) return sim_sigwaitinfo(s, i); uint64_t m = toset(s); Thread *me = cur;
    int r = block_until("sigtimedwait", [me, m] { return k_has_pending(me, m); }, now + ts->tv_sec * SEC + ts->tv_nsec, true, true);
    if (r == 3) { errno = EINTR; return -1; } if (!k_has_pending(cur, m)) { errno = EAGAIN; return -1; }
    PendSig p; if (!k_dequeue(m, &p)) { errno = EAGAIN; return -1; }
    if (i) { memset(i, 0, sizeof *i); i->si_signo = p.sig; i->si_fd = p.fd; } return p.sig;
}
int sim_sigwait(const sigset_t *s, int *sig) { int r; do r = sim_sigwaitinfo(s, nullptr); while (r < 0 && errno == EINTR); if (r < 0) return errno; *sig = r; return 0; }
// ---------------------------------------------------------------- pthread
} // extern C
struct SMutex { int owner = -1; int depth = 0; }; static std::map<void*, SMutex> mtx;
struct SRw { int w = -1; std::multiset<int> r; }; static std::map<void*, SRw> rwl; static std::map<void*, int> sems; static std::map<std::pair<int, unsigned>, void*> tsd;
static std::map<void*, std::deque<Thread*>> conds; static std::map<void*, int> onces;
struct AtFork { void (*pre)(); void (*par)(); void (*chi)(); }; static std::vector<AtFork> atforks; static std::vector<void(*)()> atexits;
// does the thread wait for a lock whose holder, directly or through other locks, waits for events inside kevent()?
bool stuck_behind_wait(Thread *t) { for (int i = 0; i < 64 && t; i++) { if (t->st == T_BLOCK && t->waiting_ep) return i > 0; if (t->st != T_BLOCK || !t->wait_mtx) return false; auto it = mtx.find(t->wait_mtx); if (it == mtx.end() || it->second.owner < 0) return false; t = threads[it->second.owner]; } return false; }
int held_mutexes(int tid) { int n = 0; for (auto &m : mtx) if (m.second.owner == tid) n++; for (auto &l : rwl) if (l.second.w == tid || l.second.r.count(tid)) n++; return n; }
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); int t = 0; if (a && pthread_mutexattr_gettype(a, &t) == 0) m->__data.__kind = t; mtx[m] = SMutex(); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { yield_point("mutex_destroy"); if (mtx[m].owner >= 0) violation(target_prop, "destroys-locked-mutex", "a mutex held by %s was destroyed", threads[mtx[m].owner]->name.c_str()); for (auto t : threads) if (t->st == T_BLOCK && t->wait_mtx == m) violation(target_prop, "destroys-awaited-mutex", "a mutex %s is waiting for was destroyed", t->name.c_str()); mtx.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    volatile char *probe = (volatile char *)m; asan_touch((void *)probe, 1);
    int kind = m->__data.__kind & 3;
    if (mtx[m].owner == cur->tid && kind == PTHREAD_MUTEX_RECURSIVE) { mtx[m].depth++; return 0; }
    if (mtx[m].owner == cur->tid && kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (mtx[m].owner == cur->tid) violation(target_prop, "self-deadlock", "%s locks a mutex it already holds", cur->name.c_str());
    cur->wait_mtx = m; block_until("mutex", [m] { return mtx[m].owner < 0; }, -1, false, false); cur->wait_mtx = nullptr;
    mtx[m].owner = cur->tid; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { yield_point("trylock"); asan_touch(m, 1); if (mtx[m].owner == cur->tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { mtx[m].depth++; return 0; } if (mtx[m].owner >= 0) return EBUSY; mtx[m].owner = cur->tid; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    yield_point("unlock"); asan_touch(m, 1); SMutex &s = mtx[m];
    if (s.owner < 0) violation(target_prop, "unlock-of-unlocked-mutex", "%s unlocks a mutex nobody holds", cur->name.c_str());
    if (s.owner != cur->tid) violation(target_prop, "unlock-by-non-owner", "%s unlocks a mutex held by %s", cur->name.c_str(), threads[s.owner]->name.c_str());
    if (s.depth > 0) { s.depth--; return 0; }
    s.owner = -1; yield_point("unlocked"); return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return sim_pthread_mutex_lock(m); }
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { rwl[l] = SRw(); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { asan_touch(l, 1); SRw &s = rwl[l]; if (s.w >= 0 || !s.r.empty()) violation(target_prop, "destroys-locked-mutex", "a read-write lock that is held was destroyed"); rwl.erase(l); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { asan_touch(l, 1); if (rwl[l].w == cur->tid) violation(target_prop, "self-deadlock", "%s locks for reading what it holds for writing", cur->name.c_str()); block_until("rdlock", [l] { return rwl[l].w < 0; }, -1, false, false); rwl[l].r.insert(cur->tid); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { asan_touch(l, 1); if (rwl[l].w == cur->tid || rwl[l].r.count(cur->tid)) violation(target_prop, "self-deadlock", "%s locks for writing what it holds", cur->name.c_str()); block_until("wrlock", [l] { return rwl[l].w < 0 && rwl[l].r.empty(); }, -1, false, false); rwl[l].w = cur->tid; return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { yield_point("tryrdlock"); asan_touch(l, 1); if (rwl[l].w >= 0) return EBUSY; rwl[l].r.insert(cur->tid); return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { yield_point("trywrlock"); asan_touch(l, 1); if (rwl[l].w >= 0 || !rwl[l].r.empty()) return EBUSY; rwl[l].w = cur->tid; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { yield_point("unlock"); asan_touch(l, 1); SRw &s = rwl[l]; if (s.w == cur->tid) s.w = -1; else { auto i = s.r.find(cur->tid); if (i == s.r.end()) violation(target_prop, "unlock-by-non-owner", "%s unlocks a read-write lock it does not hold", cur->name.c_str()); s.r.erase(i); } yield_point("unlocked"); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { mtx[(void *)l] = SMutex(); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *l) { mtx.erase((void *)l); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { void *m = (void *)l; asan_touch(m, 1); if (mtx[m].owner == cur->tid) violation(target_prop, "self-deadlock", "%s locks a spin lock it already holds", cur->name.c_str()); block_until("spin", [m] { return mtx[m].owner < 0; }, -1, false, false); mtx[m].owner = cur->tid; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { yield_point("trylock"); SMutex &x = mtx[(void *)l]; if (x.owner >= 0) return EBUSY; x.owner = cur->tid; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { yield_point("unlock"); SMutex &x = mtx[(void *)l]; if (x.owner != cur->tid) violation(target_prop, "unlock-by-non-owner", "%s unlocks a spin lock it does not hold", cur->name.c_str()); x.owner = -1; yield_point("unlocked"); return 0; }
int sim_sem_init(sem_t *x, int, unsigned v) { sems[x] = (int)v; return 0; }
int sim_sem_destroy(sem_t *x) { sems.erase(x); return 0; }
int sim_sem_post(sem_t *x) { yield_point("sem_post"); asan_touch(x, 1); sems[x]++; yield_point("sem_posted"); return 0; }
int sim_sem_trywait(sem_t *x) { yield_point("sem_trywait"); asan_touch(x, 1); if (sems[x] <= 0) { errno = EAGAIN; return -1; } sems[x]--; return 0; }
int sim_sem_wait(sem_t *x) { asan_touch(x, 1); int r = block_until("sem_wait", [x] { return sems[x] > 0; }, -1, true, true); if (r == 3) { errno = EINTR; return -1; } sems[x]--; return 0; }
int sim_pthread_key_create(pthread_key_t *k, void (*)(void *)) { static unsigned n = 1; *k = n++; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { (void)k; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { auto i = tsd.find({cur->tid, k}); return i == tsd.end() ? nullptr : i->second; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { tsd[{cur->tid, k}] = (void *)v; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { conds[c].clear(); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { conds.erase(c); return 0; }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (mtx[m].owner != cur->tid) violation(target_prop, "cond-wait-without-mutex", "%s waits on a condition without holding its mutex", cur->name.c_str());
    Thread *me = cur; conds[c].push_back(me); mtx[m].owner = -1;
    bool spur = fault(FK_SPURIOUS_COND);
    bool canc = false;
    if (!spur) { int r = 0; cur->cond_wait = true;
        // not unwound inside block_until: the mutex must be re-acquired first
        bool en = cur->cancel_enabled; (void)en;
        r = block_until("cond_wait", [c, me] { auto &q = conds[c]; return std::find(q.begin(), q.end(), me) == q.end() || (me->cancel_enabled && me->cancel_pending); }, -1, false, false); (void)r; cur->cond_wait = false;
        canc = me->cancel_enabled && me->cancel_pending; }
    auto &q = conds[c]; auto it = std::find(q.begin(), q.end(), me); if (it != q.end()) q.erase(it);
    block_until("mutex", [m] { return mtx[m].owner < 0; }, -1, false, false); mtx[m].owner = cur->tid;
    if (canc) test_cancel();
    return 0;
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return sim_pthread_cond_wait(c, m); }
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return sim_pthread_cond_wait(c, m); }
int sim_pthread_cond_signal(pthread_cond_t *c) { yield_point("cond_signal"); auto &q = conds[c]; if (!q.empty()) q.pop_front(); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { yield_point("cond_broadcast"); conds[c].clear(); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
    yield_point("once"); int &st = onces[o];
    if (st == 2) return 0;
    if (st == 1) { block_until("once", [o] { return onces[o] == 2; }, -1, false, false); return 0; }
    st = 1; fn(); onces[o] = 2; return 0;
}
int sim_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { atforks.push_back({a, b, c}); return 0; }
int sim_atexit(void (*f)(void)) { atexits.push_back(f); return 0; }
int sim_pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    yield_point("pthread_create"); if (lfault(FK_PTHREAD_CREATE)) return EAGAIN;
    Thread *t = spawn("lib", [fn, arg] { return fn(arg); }, true); t->name = "lib-thread-" + std::to_string(t->tid); { int d; if (at && pthread_attr_getdetachstate(at, &d) == 0 && d == PTHREAD_CREATE_DETACHED) t->detached = true; } *out = t->tid; trace("pthread_create -> %d", t->tid); yield_point("created"); return 0;
}
pthread_t sim_pthread_self(void) { return cur->tid; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_detach(pthread_t t) { yield_point("detach"); if (t >= threads.size()) return ESRCH; if (threads[t]->detached || threads[t]->joined) return EINVAL; threads[t]->detached = true; return 0; }
int sim_pthread_join(pthread_t t, void **r) {
    if (t >= threads.size()) return ESRCH; Thread *x = threads[t];
    if (x == cur) return EDEADLK;
    if (x->ghost) violation(target_prop, "join-of-foreign-thread", "the forked child joins a thread that exists only in its parent");
    if (x->detached && x->st == T_DONE) violation(target_prop, "join-of-freed-thread", "pthread_join on a detached thread that has exited (its descriptor is gone)");
    if (x->detached) return EINVAL; if (x->joined) return EINVAL;
    block_until("join", [x] { return x->st == T_DONE; }, -1, true, false); x->joined = true; if (r) *r = x->ret; return 0;
}
int sim_pthread_cancel(pthread_t t) { yield_point("cancel"); if (t >= threads.size()) return ESRCH; Thread *x = threads[t]; if (x->ghost) violation(target_prop, "cancel-of-foreign-thread", "the forked child cancels a thread that exists only in its parent"); if (x->detached && x->st == T_DONE) violation(target_prop, "cancel-of-freed-thread", "pthread_cancel on a detached thread that has exited"); if (x->st == T_DONE) return 0; x->cancel_pending = true; if (x == cur && false) test_cancel(); return 0; }
int sim_pthread_setcancelstate(int s, int *old) { if (old) *old = cur->cancel_enabled ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; if (!cur->cancelling) cur->cancel_enabled = s == PTHREAD_CANCEL_ENABLE; return 0; }
int sim_pthread_setcanceltype(int t, int *old) { if (old) *old = PTHREAD_CANCEL_DEFERRED; if (t == PTHREAD_CANCEL_ASYNCHRONOUS) violation(target_prop, "async-cancel", "the library enables asynchronous cancellation"); return 0; }
void sim_pthread_testcancel(void) { yield_point("testcancel"); test_cancel(); }
int sim_pthread_kill(pthread_t t, int sig) { yield_point("pthread_kill"); if (t >= threads.size() || threads[t]->st == T_DONE) return ESRCH; if (sig) k_tkill(threads[t], PendSig{sig, 0, -1, 0, 0}); return 0; }
void sim_pthread_exit(void *r) { cur->ret = r; cur->cancelling = true; if (cur->cbufs.empty()) thread_exit_now(r); void *b = cur->cbufs.back(); cur->cbufs.pop_back(); longjmp((struct __jmp_buf_tag *)b, 1); }
void sim___pthread_register_cancel(void *b) { cur->cbufs.push_back(b); }
void sim___pthread_unregister_cancel(void *b) { if (!cur->cbufs.empty() && cur->cbufs.back() == b) cur->cbufs.pop_back(); }
void sim___pthread_unwind_next(void *) { if (cur->cbufs.empty()) thread_exit_now(cur->ret); void *b = cur->cbufs.back(); cur->cbufs.pop_back(); longjmp((struct __jmp_buf_tag *)b, 1); }
void sim_abort(void) { violation(target_prop, "abort", "the library called abort()"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *b = strrchr(f, '/'); (void)l; violation(target_prop, "assertion", "assertion \"%s\" failed in %s (%s)", e, fn, b ? b + 1 : f); }
void sim_exit(int) { violation(target_prop, "exit", "the library called exit()"); }
int *sim___errno_location(void) { return __errno_location(); }
} // extern C
std::map<int, int> sig_queued; int proc_stolen = 0;
void run_atexit() { R->fault[FK_EXIT]++; while (!atexits.empty()) { auto f = atexits.back(); atexits.pop_back(); f(); } }

// ---------------------------------------------------------------- fork
struct Ghost { OFD *o; bool closed_early; }; static std::vector<Ghost> ghosts;
static void ghost_drop(OFD *o) { if (--o->refs == 0) ofd_release(o); }
void child_closes_arrive() { std::vector<Ghost> keep; for (auto &g : ghosts) if (g.closed_early) { ghost_drop(g.o); } else keep.push_back(g); ghosts = keep; }
void child_exits() { auto g = ghosts; ghosts.clear(); for (auto &x : g) ghost_drop(x.o); }
int ghosts_open() { return (int)ghosts.size(); }
extern void child_state_export(int fd); extern void child_state_import(int fd);
bool fork_toggled = false; // another thread changes the clean-up switch while this one forks
int sim_fork_world(std::function<void()> child, bool slow) {
    R->fault[FK_FORK]++;
    for (size_t i = atforks.size(); i-- > 0;) if (atforks[i].pre) atforks[i].pre();
    for (int i = 0; i < (fork_toggled ? 8 : 1); i++) yield_point("fork");
    int pp[2]; if (::pipe(pp) < 0) abort();
    fflush(stdout); trace("fork");
    pid_t p = ::fork();
    if (p == 0) {
        ::close(pp[0]); in_child_world = true;
        for (auto t : threads) if (t != cur) { t->st = T_DONE; t->detached = false; t->ghost = true; }
        for (auto &f : fdt) if (f.o) { f.o->inherited = true; f.o->refs += 1; }
        shared_pend.clear(); cur->pend.clear();
        std::vector<OFD*> inh(fdt.size(), nullptr); for (size_t i = 0; i < fdt.size(); i++) inh[i] = fdt[i].o;
        cur->op += 100000; cur->local = 0;
        for (auto &a : atforks) if (a.chi) a.chi();
        std::vector<int> closed; for (size_t i = 0; i < inh.size(); i++) if (inh[i] && (i >= fdt.size() || fdt[i].o != inh[i])) closed.push_back((int)i);
        child_inherited_open.clear(); for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o && fdt[i].o->inherited && fdt[i].o->lib) child_inherited_open.push_back((int)i);
        child();
        FILE *f = fdopen(pp[1], "w"); fprintf(f, "%zu", closed.size()); for (int c : closed) fprintf(f, " %d", c); fprintf(f, "\n"); fflush(f);
        child_state_export(pp[1]); fflush(stdout); _exit(0);
    }
    ::close(pp[1]);
    std::string in; char b[4096]; ssize_t n; while ((n = ::read(pp[0], b, sizeof b)) > 0) in.append(b, n); 
    int st = 0; ::waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { _exit(7); }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { ::close(pp[0]); violation(target_prop, "child-crash", "the forked child crashed (status %x)", st); }
    ::close(pp[0]);
    // parse
    std::set<int> closed; size_t pos = in.find('\n'); { FILE *m = fmemopen((void *)in.data(), pos, "r"); size_t k; if (fscanf(m, "%zu", &k) == 1) for (size_t i = 0; i < k; i++) { int c; if (fscanf(m, "%d", &c) == 1) closed.insert(c); } fclose(m); }
    int mp[2]; if (::pipe(mp) < 0) abort(); // feed the rest to the importer through a temp file to avoid pipe limits
    ::close(mp[0]); ::close(mp[1]);
    FILE *tmp = tmpfile(); fwrite(in.data() + pos + 1, 1, in.size() - pos - 1, tmp); rewind(tmp); child_state_import(fileno(tmp)); fclose(tmp);
    for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o) { fdt[i].o->refs++; ghosts.push_back({fdt[i].o, closed.count((int)i) > 0}); }
    if (!slow) child_closes_arrive();
    for (auto &a : atforks) if (a.par) a.par();
    return 0;
}
std::vector<int> child_inherited_open;
