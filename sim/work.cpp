// Workloads: seeded application programs run against the library inside the simulator.
// One profile per property; the profile decides filters, flags, threads, faults and schedule policy ("swarm" configuration per seed).
#include <stdarg.h>
#include "oracle.h"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <algorithm>
#include <signal.h>
#include <sys/socket.h>
#include <sys/inotify.h>
#include <pthread.h>

enum FW { W_FD, W_FILE, W_VNODE, W_PROC, W_SIGNAL, W_TIMER, W_USER, W_LIBKQ, W_NF };
enum SK { SK_PIPE_R, SK_PIPE_W, SK_UNIX, SK_TCP, SK_DGRAM, SK_LISTEN, SK_EVENTFD, SK_FILE, SK_N };
struct Prof {
    int owners = 1, kqs = 1, actors = 1, ops = 30, aops = 25, nslots = 3, extra_kq = 0;
    int w[W_NF] = {0}; int sk[SK_N] = {3, 2, 3, 3, 2, 1, 2, 0};
    int p_oneshot = 15, p_clear = 15, p_dispatch = 15, p_disable = 8, p_receipt = 10, p_badts = 0;      // percent
    int p_exist = 55, p_bogus = 6, w_mod = 3, w_del = 2, w_en = 3, w_dis = 3;
    int w_kev = 50, w_poll = 25, w_mut = 25, w_newkq = 0, w_closekq = 0, w_recycle = 4, w_sleep = 4, w_sloppy = 0, w_bulk = 0, w_all = 2, w_rounds = 0;
    int nevw[7] = {3, 10, 10, 10, 30, 30, 4}; int p_nulllist = 1, p_alias = 8;
    int pulse = 12;
    int tow[8] = {50, 6, 8, 8, 12, 6, 2, 8};  // zero, NULL, sub-ms, ms+ns, ms, seconds, days/years, 0 with ns 1
    int drain = 40; bool faults = false, interrupts = false, shared_slots = false, links = false, reap_early = false, atexit_end = false;
    int maxch = 4, pidcap = 4;
};
static Prof PF; static Rng g0; static int linkmode = 0, allow_trunc = 0;
struct Slot { int kind; int a = -1, b = -1; int owner = 0; std::string path; int gen = 0; };
static std::vector<Slot> slots; static std::vector<int> pids;
struct Owner { int id; Thread *t; std::vector<KQ*> q; };
static std::vector<Owner*> owners; static int arrived = 0; static std::vector<Thread*> actors, otherapp;
static int sigpool[4] = {SIGUSR1, SIGUSR2, 40, 41};
static int P() { return atoi(target_prop + 1); }
extern void model_apply(KQ *q, std::map<KKey, KN> &m, const struct kevent &c);
extern int owned_allocs_all(int q);
static int base_allocs, base_fds;

static int pickw(Rng &g, const int *w, int n) { int s = 0; for (int i = 0; i < n; i++) s += w[i]; if (!s) return 0; int r = (int)g.below((uint32_t)s); for (int i = 0; i < n; i++) { if (r < w[i]) return i; r -= w[i]; } return 0; }
static bool pct(Rng &g, int p) { return (int)g.below(100) < p; }
static void only(std::initializer_list<std::pair<int,int>> l) { for (int i = 0; i < W_NF; i++) PF.w[i] = 0; for (auto &p : l) PF.w[p.first] = p.second; }

// ------------------------------------------------------------------ profiles
static void make_profile(uint64_t seed) {
    Rng g{mix(seed, 101)}; PF = Prof();
    if (uint64_t h = mix(seed, 4471); h % 3 == 0) {   // any signal can be watched, up to the last one
        static const int sd[] = {SIGHUP, SIGINT, SIGQUIT, SIGVTALRM, SIGTERM, SIGCHLD, SIGWINCH, SIGIO, SIGPIPE, SIGSYS, SIGUSR1, SIGTSTP}, rt[] = {36, 39, 50, 62, 63, 64, 64};
        sigpool[0] = sd[(h >> 8) % 12]; sigpool[1] = sd[((h >> 8) + 1 + (h >> 16) % 11) % 12]; sigpool[2] = rt[(h >> 24) % 7]; sigpool[3] = sigpool[2] == 41 ? 40 : 41; }
    only({{W_FD, 6}, {W_FILE, 1}, {W_VNODE, 2}, {W_PROC, 2}, {W_SIGNAL, 2}, {W_TIMER, 3}, {W_USER, 3}});
    PF.ops = 15 + (int)g.below(45); PF.aops = 10 + (int)g.below(40); PF.actors = (int)g.below(3); PF.nslots = 1 + (int)g.below(4); PF.kqs = 1 + (g.below(3) == 0);
    int p = P();
    bool swarm = g.chance(1, 2);
    switch (p) {
    case 1: PF.w_bulk = g.chance(1, 20) ? 3 : 0; PF.p_bogus = 15; PF.p_receipt = 30; PF.maxch = 6; PF.w_kev = 70; PF.w[W_LIBKQ] = 1; break;
    case 2: only({{W_FD, 1}}); PF.p_oneshot = 4; PF.p_clear = 4; PF.p_dispatch = 6; PF.actors = 1 + (int)g.below(3); PF.tow[1] = 12; break;
    case 3: PF.kqs = 1 + (int)g.below(2); PF.w_recycle = 8; PF.p_exist = 65; break;
    case 4: PF.p_dispatch = 40; PF.p_disable = 25; PF.w_en = 6; PF.w_dis = 6; PF.p_oneshot = 5; PF.p_exist = 70; PF.w[W_FILE] = 2; break;
    case 5: PF.p_oneshot = 75; PF.p_dispatch = 2; PF.p_exist = 45; break;
    case 6: only({{W_FD, 5}, {W_USER, 2}, {W_TIMER, 1}}); PF.p_clear = 75; PF.p_oneshot = 3; PF.p_dispatch = 10; PF.p_receipt = 25; PF.nevw[1] = 40; PF.w_rounds = 4; PF.actors = 1 + (int)g.below(3); break;
    case 7: only({{W_TIMER, 1}}); PF.w_sleep = 20; PF.w_mut = 2; PF.tow[4] = 20; PF.tow[5] = 12; PF.nslots = 0; PF.actors = (int)g.below(2); break;
    case 8: only({{W_USER, 1}}); PF.nslots = 0; PF.w_mut = 2; PF.p_exist = 75; PF.w_mod = 10; PF.p_bogus = 4; PF.kqs = 1 + (int)g.below(2); break;
    case 9: only({{W_SIGNAL, 8}, {W_USER, 1}, {W_TIMER, 1}}); PF.nslots = 0; PF.kqs = 1 + (int)g.below(2); PF.actors = 1 + (int)g.below(2); break;
    case 10: only({{W_PROC, 8}, {W_USER, 1}, {W_TIMER, 1}}); PF.nslots = 0; PF.kqs = 1 + (int)g.below(2); PF.actors = 1 + (int)g.below(2); PF.pidcap = 8; PF.reap_early = g.chance(1, 4); break;
    case 11: only({{W_VNODE, 8}, {W_USER, 1}}); PF.sk[SK_FILE] = 1; for (int i = 0; i < SK_FILE; i++) PF.sk[i] = 0; PF.actors = 1 + (int)g.below(2); PF.kqs = 1 + (int)g.below(2); break;
    case 12: PF.p_receipt = 50; PF.p_bogus = 20; PF.maxch = 8; PF.p_alias = 35; PF.nevw[0] = 10; PF.nevw[1] = 25; PF.nevw[2] = 25; PF.w_kev = 75; PF.p_nulllist = 4; PF.w_bulk = g.chance(1, 10) ? 6 : 0; PF.w_rounds = 2; break;
    case 13: PF.owners = 1 + (int)g.below(3); PF.w_newkq = 22; PF.w_closekq = 22; PF.w_recycle = 10; PF.ops = 12 + (int)g.below(30); PF.nslots = (int)g.below(3); PF.atexit_end = g.chance(1, 2); PF.w_mut = 12; PF.w_kev = 35; break;
    case 14: PF.faults = true; PF.w_newkq = 8; PF.w_closekq = 6; PF.actors = (int)g.below(2); break;
    case 15: PF.owners = 2 + (int)g.below(2); PF.w_newkq = 8; PF.w_closekq = 7; PF.ops = 12 + (int)g.below(25); PF.shared_slots = true; break;
    case 16: PF.ops = 6 + (int)g.below(14); PF.kqs = 1 + (int)g.below(2); PF.actors = 1; PF.aops = 8 + (int)g.below(16); break;
    case 17: PF.owners = 1 + (int)g.below(3); PF.ops = 8 + (int)g.below(14); PF.aops = 8; PF.w_newkq = 6; PF.w_closekq = 6; break;
    case 18: PF.p_badts = 6; PF.tow[0] = 20; PF.tow[1] = 14; PF.tow[2] = 16; PF.tow[3] = 16; PF.tow[4] = 16; PF.tow[5] = 10; PF.tow[6] = 10; PF.interrupts = true; PF.p_receipt = 20; PF.actors = 1 + (int)g.below(2);
        if (g.chance(1, 4)) { only({{W_FD, 8}, {W_USER, 1}}); PF.nslots = 1 + (int)g.below(2); PF.tow[0] = 10; PF.tow[1] = 4; PF.tow[2] = 40; PF.tow[3] = 20; PF.tow[6] = 2; PF.aops *= 2; PF.pulse = 90; PF.interrupts = g.chance(1, 4); swarm = false; } break;
    case 19: PF.w_newkq = 5; PF.w_closekq = 4; PF.faults = g.chance(1, 3); break;
    case 20: PF.kqs = 2 + (int)g.below(2); PF.owners = 1 + (int)g.below(2); PF.shared_slots = true; PF.nslots = 1 + (int)g.below(2); PF.w_closekq = 3; PF.w_newkq = 3; break;
    case 21: only({{W_FILE, 8}, {W_USER, 1}, {W_FD, 1}}); for (int i = 0; i < SK_FILE; i++) PF.sk[i] = 0; PF.sk[SK_FILE] = 8; PF.sk[SK_PIPE_R] = 1; PF.p_clear = (int[]){0, 0, 30}[g.below(3)]; PF.actors = 1; PF.p_oneshot = 20; PF.p_dispatch = 20; break;
    case 25: PF.actors = (int)g.below(3); PF.tow[3] = PF.tow[4] = PF.tow[5] = PF.tow[6] = 14; PF.interrupts = g.chance(1, 2); PF.ops = 6 + (int)g.below(14); break;
    case 24: PF.actors = 1 + (int)g.below(2); PF.w_newkq = 6; PF.w_closekq = 6; PF.w[W_FILE] = 3; PF.sk[SK_FILE] = 4; PF.owners = 1 + (int)g.below(2); PF.faults = g.chance(1, 4); PF.atexit_end = g.chance(1, 4); break;
    case 23: only({{W_FD, 8}, {W_FILE, 2}, {W_VNODE, 1}, {W_PROC, 1}, {W_SIGNAL, 1}, {W_TIMER, 2}, {W_USER, 4}}); PF.w_rounds = 30; PF.w_poll = 5; PF.nevw[1] = PF.nevw[2] = 40; PF.p_oneshot = PF.p_dispatch = 5; PF.p_clear = (int[]){0, 10, 50}[g.below(3)]; PF.drain = (int[]){0, 20, 60}[g.below(3)]; PF.nslots = 2 + (int)g.below(4); PF.ops = 12 + (int)g.below(20); break;
    case 22: PF.w[W_LIBKQ] = 10; PF.p_receipt = 30; break;
    case 26: PF.p_bogus = 40; PF.p_receipt = 20; PF.nslots = 1 + (int)g.below(4); PF.sk[SK_FILE] = 4; PF.w[W_FILE] = 3; PF.ops = 10 + (int)g.below(30); break;
    }
    if (swarm && p != 22 && p != 15) { for (int i = 0; i < W_NF; i++) if (g.chance(1, 2)) PF.w[i] = 0; bool any = false; for (int i = 0; i < W_NF; i++) any |= PF.w[i] > 0; if (!any) PF.w[W_USER] = 1, PF.w[W_FD] = 1; if (p == 21) PF.w[W_FILE] = 8; if (p == 11) PF.w[W_VNODE] = 8; if (p == 10) PF.w[W_PROC] = 8; if (p == 9) PF.w[W_SIGNAL] = 8; if (p == 7) PF.w[W_TIMER] = 8; if (p == 8) PF.w[W_USER] = 8; if (p == 2 || p == 6) PF.w[W_FD] = 6; }
    if (PF.w[W_FILE] || PF.w[W_VNODE]) PF.sk[SK_FILE] = std::max(PF.sk[SK_FILE], 4);
    linkmode = (int)g.below(3); allow_trunc = g.chance(1, 4); truncates_used = allow_trunc;
    PF.ops = std::min(PF.ops * deep, 690); PF.aops = std::min(PF.aops * deep, 690);
    // schedule policy
    C.mode = g.chance(1, 3) ? 2 : 1;
    static const uint32_t pc[] = {0, 2000, 10000, 30000, 60000}, pb[] = {0, 0, 500, 3000, 12000};
    C.p_call = C.mode == 2 ? (uint32_t[]){300, 1500, 6000}[g.below(3)] : pc[g.below(5)];
    C.p_bb = pb[g.below(5)];
    C.p_stall = g.chance(1, 2) ? (uint32_t[]){100, 600, 3000}[g.below(3)] : 0;
    C.fd_limit = 400; { Rng h{mix(seed, 909)}; C.pid = (int[]){4242, 4242, 17, 99998, 4194300}[h.below(5)]; C.low_soft = h.chance(1, 4); C.high_fds = !PF.faults && !PF.w_bulk && h.chance(1, p == 13 ? 4 : 16) ? 6 + (int)h.below(40) : 0; if (C.high_fds) C.fd_limit = 128; }
    if (PF.w_bulk) C.fd_limit = 1500;
    if (p == 25) { C.fd_limit = 4000; C.high_fds = 0; C.low_soft = false; }
    if (PF.faults) {
        static const uint32_t r[] = {0, 0, 300, 1500, 6000, 20000};
        C.fault_rate[FK_MALLOC] = r[g.below(6)]; C.fault_rate[FK_EMFILE] = r[g.below(6)]; C.fault_rate[FK_ENFILE] = r[g.below(5)]; C.fault_rate[FK_ENOMEM_SYS] = r[g.below(6)]; C.fault_rate[FK_ENOSPC] = r[g.below(6)]; C.fault_rate[FK_PTHREAD_CREATE] = r[g.below(6)] * 3;
        if (p == 14 && g.chance(1, 4)) C.fd_limit = 24 + (int)g.below(20);
    }
    if (p == 18 || p == 6 || p == 15 || p == 13) C.fault_rate[FK_EINTR_WAIT] = g.chance(1, 2) ? 4000 : 0;
    if (p == 13 || p == 15 || p == 14 || p == 17) C.fault_rate[FK_SPURIOUS_COND] = g.chance(1, 3) ? 20000 : 0;
    if (p >= 14 && p <= 16) PF.atexit_end = g.chance(1, 4);
    C.fault_rate[FK_STALL] = C.p_stall; C.debug_env = g.chance(1, 12); C.nostdio = g.chance(1, 5) ? (1 + (unsigned)g.below(7)) << (g.chance(3, 4) ? 3 : 0) : 0;
}
// ------------------------------------------------------------------ sources
static int sc(int fd) { if (fd < 0 || fd >= (int)fdt.size() || !fdt[fd].o) return 1; OFD *o = fdt[fd].o; return o->pipe ? std::max(1, o->pipe->cap / 16) : o->kind == K_SOCK && o->st != S_DGRAM ? std::max(1, o->rcap / 24) : 1; } // the unit of traffic on a descriptor
static std::string new_name(const char *kind, Slot &s);
static bool slot_open(Slot &s) {
    int f[2] = {-1, -1}; const int scale = (int[]){1, 1, 1, 4096, 70000}[mix(C.seed, 6160 + (uint64_t)(&s - &slots[0])) % 5]; const int64_t fsz = (int64_t[]){40, 40, 0, 5000000000LL, 0x7ffffff0, 0xfffffff0LL}[mix(C.seed, 6260 + (uint64_t)(&s - &slots[0])) % 6];
    switch (s.kind) {
    case SK_PIPE_R: if (k_pipe(f, 16 * scale) < 0) return false; s.a = f[0]; s.b = f[1]; break;
    case SK_PIPE_W: if (k_pipe(f, 16 * scale) < 0) return false; s.a = f[1]; s.b = f[0]; break;
    case SK_UNIX: case SK_TCP: case SK_DGRAM: if (k_sockpair(f, s.kind == SK_UNIX ? S_UNIX : s.kind == SK_TCP ? S_TCP : S_DGRAM, 24 * scale) < 0) return false; s.a = f[0]; s.b = f[1]; break;
    case SK_LISTEN: s.a = k_listen(); s.b = -1; if (s.a < 0) return false; break;
    case SK_EVENTFD: s.a = k_eventfd(0); s.b = -1; if (s.a < 0) return false; break;
    case SK_FILE: { if (s.path.empty() || !names.count(s.path)) { s.path = new_name("f", s); k_mkfile(s.path.c_str(), fsz); }
        if (!fd_room(2)) return false; s.a = k_open(s.path.c_str(), false); s.b = k_open(s.path.c_str(), true); break; }
    }
    // variants: terminals and other character devices, raw and packet-capture sockets
    uint64_t v = mix(C.seed, 5150 + (uint64_t)(&s - &slots[0])) % 8; OFD *oa = s.a >= 0 ? fdt[s.a].o : nullptr;
    if (s.kind == SK_PIPE_R || s.kind == SK_PIPE_W) oa->chr = fdt[s.b].o->chr = v == 0;
    if (s.kind == SK_UNIX && v == 1) oa->sotype = SOCK_SEQPACKET;
    if (s.kind == SK_DGRAM && v < 4) { oa->sotype = v == 0 ? SOCK_RDM : SOCK_RAW; oa->bpf = v >= 2; }
    return true;
}
static std::string new_name(const char *kind, Slot &s) {
    static const int lens[] = {200, 254, 255, 256, 300, 1023, 1024, 1025, 4000};
    uint64_t v = mix(C.seed, 8080); std::string n = std::string("/") + kind + std::to_string(&s - &slots[0]) + "." + std::to_string(s.gen++);
    if (v % 5 == 0) { size_t want = (size_t)lens[v / 5 % 9], k = 0; std::string d; while (d.size() + n.size() < want) d += k++ % 100 ? 'd' : '/'; n = d + n; }
    else if (v % 5 == 1) n = "/a dir/%s%n" + n + " (deleted)";
    return n;
}
static void mut_slot(Rng &g, Slot &s) {
    uint32_t a = g.below(100); int n = 1 + (int)g.below(7); if (g.chance(1, 5)) a = a < 50 ? 99 - a : a;
    if (s.a < 0) return;
    switch (s.kind) {
    case SK_PIPE_R: if (a < 55) { if (s.b >= 0) k_write(s.b, n * sc(s.b)); } else if (a < 92) k_read(s.a, n * 2 * sc(s.a)); else if (s.b >= 0) { k_close(s.b); s.b = -1; R->fault[FK_PEER_CLOSE]++; } break;
    case SK_PIPE_W: if (a < 50) k_write(s.a, n * 3 * sc(s.a)); else if (a < 92) { if (s.b >= 0) k_read(s.b, n * 3 * sc(s.b)); } else if (s.b >= 0) { k_close(s.b); s.b = -1; R->fault[FK_PEER_CLOSE]++; } break;
    case SK_UNIX: case SK_TCP: if (a < 40) { if (s.b >= 0) k_write(s.b, n * sc(s.b)); } else if (a < 70) k_read(s.a, n * 2 * sc(s.a)); else if (a < 82) k_write(s.a, n * 3 * sc(s.a)); else if (a < 89) { if (s.b >= 0) k_read(s.b, n * 3 * sc(s.b)); }
        else if (a < 93) { if (s.b >= 0) k_shutdown_wr(s.b); } else if (a < 95) k_shutdown_wr(s.a); else if (a < 98) { if (s.b >= 0) { k_close(s.b); s.b = -1; } } else if (s.kind == SK_TCP && k_reset(s.a) == 0 && s.b >= 0) { k_close(s.b); s.b = -1; } break;
    case SK_DGRAM: if (a < 50) { if (s.b >= 0) k_write(s.b, n); } else if (a < 80) k_read(s.a, 1); else if (a < 94) { if (s.b >= 0) k_write(s.a, n * sc(s.a)); } else k_soerr(s.a, g.chance(1, 2) ? ECONNREFUSED : EHOSTUNREACH); break;
    case SK_LISTEN: if (a < 55) k_connect_to(s.a); else k_accept(s.a); break;
    case SK_EVENTFD: if (a < 60) k_write(s.a, n); else k_read(s.a, 8); break;
    case SK_FILE:
        if (a < 25) { if (s.b >= 0) k_write(s.b, n * 4); }                           // overwrites, then extends
        else if (a < 35) { if (s.b >= 0) { k_lseek(s.b, 0, 2); k_write(s.b, n); } }  // append
        else if (a < 52) k_read(s.a, n * 6);
        else if (a < 58) { int64_t z = fdt[s.a].o->ino->size, r = (int64_t)g.below(60); k_lseek(s.a, g.chance(1, 2) || z < 30 ? r : g.chance(1, 3) ? z / 2 + r : z - 30 + r, 0); }
        else if (a < 70) k_chmod(s.a);
        else if (a < 78) { int fd = k_open(s.path.c_str(), g.chance(1, 2)); if (fd >= 0) k_close(fd); }
        else if (a < 83 && allow_trunc && s.b >= 0) { k_truncate(s.b, g.chance(1, 3) ? 0 : (int64_t)g.below(60)); }
        else if (a < 90) { std::string np = new_name("r", s); if (!s.path.empty() && names.count(s.path) && k_rename(s.path.c_str(), np.c_str()) == 0) s.path = np; }
        else if (a < 96 && linkmode == 1 && names.count(s.path)) { std::string np = new_name("l", s); k_link(s.path.c_str(), np.c_str()); }
        else if (linkmode == 2 && a >= 97 && names.count(s.path)) k_unlink(s.path.c_str());
        break;
    }
}
// readiness that comes and goes again while somebody may be waiting for it
static void pulse(Rng &g, Slot &s) {
    if (s.a < 0) return; int n = 1 + (int)g.below(5), y = (int)g.below(4);
    auto rest = [&] { for (int i = 0; i < y; i++) yield_point("pulse"); };
    switch (s.kind) {
    case SK_PIPE_R: case SK_UNIX: case SK_TCP: case SK_DGRAM: if (s.b >= 0) { k_write(s.b, n); rest(); if (s.a >= 0) k_read(s.a, 1 << 28); } break;
    case SK_EVENTFD: k_write(s.a, n); rest(); if (s.a >= 0) k_read(s.a, 8); break;
    case SK_LISTEN: k_connect_to(s.a); rest(); if (s.a >= 0) k_accept(s.a); break;
    case SK_PIPE_W: if (s.b >= 0) { k_read(s.b, 1 << 28); rest(); if (s.a >= 0) k_write(s.a, 1 << 28); } break;
    default: break;
    }
}
static void mutate(Rng &g) {
    yield_point("app mutate");
    int w[5] = {(int)slots.size() * 6, PF.w[W_SIGNAL] ? 6 : 0, PF.w[W_PROC] ? 6 : 0, PF.interrupts ? 8 : 0, PF.w[W_TIMER] || P() == 18 ? 2 : 1};
    switch (pickw(g, w, 5)) {
    case 0: if (!slots.empty()) { Slot &s = slots[g.below((uint32_t)slots.size())]; if (pct(g, PF.pulse)) pulse(g, s); else mut_slot(g, s); } break;
    case 1: k_kill(sigpool[g.below(4)]); break;
    case 2: {
        uint32_t a = g.below(10);
        if (a < 3) { if ((int)pids.size() < PF.pidcap) pids.push_back(k_fork_child()); }
        else if (a < 8) { if (!pids.empty()) { int pid = pids[g.below((uint32_t)pids.size())]; int c = (int[]){CLD_EXITED, CLD_KILLED, CLD_DUMPED}[g.below(3)]; k_child_exit(pid, c, c == CLD_EXITED ? (int)g.below(256) : (int)(1 + g.below(64))); } }
        else if (!pids.empty()) { int pid = pids[g.below((uint32_t)pids.size())]; bool held = false; for (auto q : kqs) if (q->open && q->m.count({EVFILT_PROC, (uintptr_t)pid})) held = true; for (auto c : active) for (auto &x : *c->chg) if (x.filter == EVFILT_PROC && x.ident == (uintptr_t)pid) goto keep; if (!held || PF.reap_early) k_reap(pid); keep:; }
        break; }
    case 3: R->fault[FK_SIGNAL]++; k_tkill(threads[0], PendSig{SIGALRM, 0, -1, 0, 0}); break;
    case 4: { ns_t d = (1 + (ns_t)g.below(100)) * (ns_t[]){MS, SEC, 60 * SEC, 36000 * SEC}[g.below(4)]; k_clock_jump(g.chance(1, 2) ? d : -d); break; }
    }
}
static ns_t sleep_len(Rng &g) { static const ns_t d[] = {0, 10 * US, 300 * US, MS, 7 * MS, 60 * MS, 900 * MS, 4 * SEC}; return d[g.below(8)] * (1 + (ns_t)g.below(3)); }
// ------------------------------------------------------------------ change generation
static const uintptr_t H = (uintptr_t)1 << 32; static const uintptr_t uids[] = {1, 2, 3, 0, (H << 8) + 5, UINTPTR_MAX, H + 1, 2, H + 2, H / 2 + 1, (H << 31) + 3, H}; static const int NU = 12; static const uintptr_t tids[] = {1, 2, 0, H * 2 + 7, 7, H + 1}; static const int NT = 6;
static bool can_use(Owner *o, Slot &s) { return s.a >= 0 && (s.owner == o->id || s.owner < 0); }
static void timer_params(Rng &g, struct kevent &c) {
    uint32_t u = g.below(5); int64_t d;
    switch (u) { case 0: c.fflags = 0; d = (int64_t[]){1, 5, 10, 100, 1000, 3}[g.below(6)]; break; case 1: c.fflags = NOTE_SECONDS; d = (int64_t[]){1, 2, 60, 1000000}[g.below(4)]; break;
        case 2: c.fflags = NOTE_USECONDS; d = (int64_t[]){1, 500, 1500, 1000000, 2500000}[g.below(5)]; break; case 3: c.fflags = NOTE_NSECONDS; d = (int64_t[]){1, 999, 1500000, 1000000001}[g.below(4)]; break; default: c.fflags = 0; d = (int64_t[]){1, 20, 999, 1001, 60000}[g.below(5)]; }
    if (g.chance(1, 3)) { static const int64_t ed[] = {999, 1000, 1001, 59999, 999999, 1000000, 1000001, 1999999, 999999999, 1000000000, 2147483647, 2147483648LL, 4294967296LL, 4294967301LL}; d = g.chance(1, 2) ? 1 + (int64_t)g.below(1u << (1 + g.below(24))) : ed[g.below(u == 1 ? 8 : u == 3 ? 14 : 10)]; }
    if (g.chance(1, 7)) { int64_t un = u == 1 ? SEC : u == 2 ? US : u == 3 ? 1 : MS; c.fflags |= NOTE_ABSOLUTE; d = (now + (ns_t)g.below(5000) * MS - SEC / 2) / un + 1; }
    c.data = g.chance(1, 14) ? -d : d;
}
static struct kevent gen_change(Rng &g, Owner *o, KQ *q, std::map<KKey, KN> &m) {
    struct kevent c; memset(&c, 0, sizeof c); c.udata = g.chance(1, 10) ? nullptr : g.chance(1, 10) ? (void *)(UINTPTR_MAX - g.below(9)) : (void *)(uintptr_t)(1 + g.below(1000));
    unsigned fl = 0; if (pct(g, PF.p_oneshot)) fl |= EV_ONESHOT; if (pct(g, PF.p_clear)) fl |= EV_CLEAR; if (pct(g, PF.p_dispatch) && !(fl & EV_ONESHOT)) fl |= EV_DISPATCH; bool dis = pct(g, PF.p_disable);
    if (pct(g, PF.p_bogus)) {
        static const short fs[] = {EVFILT_READ, EVFILT_WRITE, EVFILT_USER, EVFILT_TIMER, EVFILT_SIGNAL, EVFILT_VNODE, EVFILT_PROC};
        switch (g.below(7)) {
        case 0: c.filter = fs[g.below(7)]; c.ident = 50 + g.below(5); c.flags = (unsigned short[]){EV_DELETE, EV_ENABLE, EV_DISABLE, 0}[g.below(4)]; if (c.filter == EVFILT_USER && !c.flags) c.fflags = NOTE_TRIGGER; return c;
        case 1: c.filter = (short[]){0, 1, 77, -(EVFILT_SYSCOUNT + 1), -200, 32767}[g.below(6)]; c.flags = EV_ADD; c.ident = 1; return c;
        case 2: c.filter = fs[g.below(7)]; c.ident = 1 + g.below(3); c.flags = (unsigned short)((unsigned[]){EV_ADD, EV_ADD, EV_ADD, 0, EV_DELETE, EV_ENABLE, EV_DISABLE}[g.below(7)] | EV_DISPATCH | EV_ONESHOT); if (c.filter == EVFILT_TIMER) c.data = 1; return c;
        case 3: c.filter = (short[]){EVFILT_AIO, EVFILT_NETDEV, EVFILT_FS, EVFILT_LIO}[g.below(4)]; c.flags = EV_ADD; c.ident = 1; return c;
        case 4: c.filter = (short[]){EVFILT_READ, EVFILT_WRITE, EVFILT_VNODE}[g.below(3)]; c.ident = 390 + g.below(3); c.flags = EV_ADD; c.fflags = c.filter == EVFILT_VNODE ? NOTE_WRITE : 0; return c;
        case 5: c.filter = EVFILT_PROC; c.ident = 4900 + g.below(3); c.flags = EV_ADD; c.fflags = NOTE_EXIT; return c;
        case 6: if (!m.empty()) { auto it = m.begin(); std::advance(it, g.below((uint32_t)m.size())); c.filter = it->first.first; c.ident = it->first.second; c.flags = (unsigned short)((unsigned[]){EV_ADD, EV_ADD, EV_ADD, 0, EV_DELETE, EV_ENABLE, EV_DISABLE}[g.below(7)] | EV_DISPATCH | EV_ONESHOT); if (c.filter == EVFILT_USER && g.chance(1, 2)) c.fflags = NOTE_TRIGGER; } else { c.filter = EVFILT_USER; c.ident = 99; c.flags = EV_DELETE; } return c;
        }
    }
    if (!m.empty() && pct(g, PF.p_exist)) {
        auto it = m.begin(); std::advance(it, g.below((uint32_t)m.size())); KN &k = it->second; c.filter = k.filter; c.ident = k.ident;
        int w[4] = {PF.w_mod, PF.w_del, PF.w_en, PF.w_dis}; if (k.filter == EVFILT_USER || k.filter == EVFILT_TIMER) w[0] *= 3; if (k.en) w[2] = std::max(1, w[2] / 3); else w[3] = std::max(1, w[3] / 3);
        switch (pickw(g, w, 4)) {
        case 1: c.flags = EV_DELETE; return c;
        case 2: c.flags = EV_ENABLE; return c;
        case 3: c.flags = EV_DISABLE; return c;
        }
        switch (k.filter) {
        case EVFILT_USER: { c.flags = g.chance(1, 3) ? EV_ADD : 0; if (c.flags) c.flags |= (unsigned short)(k.fl & (EV_CLEAR | EV_DISPATCH | EV_ONESHOT)); else c.flags |= k.fl & EV_DISPATCH;
            static const unsigned ct[] = {NOTE_FFNOP, NOTE_FFAND, NOTE_FFOR, NOTE_FFCOPY}; c.fflags = ct[g.below(4)] | (g.below(4) ? (unsigned)(g.next() & 0xffffff) : 0); if (g.below(4)) c.fflags |= NOTE_TRIGGER; if (!k.en && g.below(3)) c.fflags &= ~(unsigned)NOTE_TRIGGER; return c; }
        case EVFILT_TIMER: c.flags = (unsigned short)(EV_ADD | fl); timer_params(g, c); return c;
        case EVFILT_READ: case EVFILT_WRITE: c.flags = EV_ADD | EV_CLEAR | (fl & EV_DISPATCH); return c;
        case EVFILT_SIGNAL: c.flags = (unsigned short)(EV_ADD | (k.fl & (EV_ONESHOT | EV_CLEAR)) | (fl & EV_DISPATCH)); return c;
        case EVFILT_PROC: c.flags = EV_ADD; c.fflags = (unsigned[]){NOTE_EXIT, NOTE_EXIT, NOTE_EXIT | NOTE_FORK, NOTE_EXEC}[g.below(4)]; return c;
        default: c.flags = EV_DELETE; return c;
        }
    }
    c.flags = (unsigned short)(EV_ADD | fl | (dis ? EV_DISABLE : g.chance(1, 10) ? EV_ENABLE : 0));
    int w[W_NF]; memcpy(w, PF.w, sizeof w);
    switch (pickw(g, w, W_NF)) {
    case W_FD: { std::vector<Slot*> v; for (auto &s : slots) if (can_use(o, s) && s.kind != SK_FILE) v.push_back(&s); uint32_t r = g.below(64), wr = g.below(2); if (v.empty()) { c.filter = EVFILT_USER; c.ident = uids[r % NU]; return c; }
        Slot *s = v[r % v.size()]; c.ident = (uintptr_t)s->a; c.filter = s->kind == SK_PIPE_W ? EVFILT_WRITE : (s->kind == SK_PIPE_R || s->kind == SK_LISTEN) ? EVFILT_READ : wr ? EVFILT_WRITE : EVFILT_READ; return c; }
    case W_FILE: { std::vector<Slot*> v; for (auto &s : slots) if (can_use(o, s) && s.kind == SK_FILE) v.push_back(&s); uint32_t r = g.below(64); c.filter = g.chance(1, 4) ? EVFILT_WRITE : EVFILT_READ; if (g.below(P() == 21 ? 2 : 5)) c.flags &= (unsigned short)~EV_CLEAR; if (v.empty()) { c.filter = EVFILT_USER; c.ident = 1; return c; } c.ident = (uintptr_t)(c.filter == EVFILT_WRITE ? v[r % v.size()]->b : v[r % v.size()]->a); return c; }
    case W_VNODE: { std::vector<Slot*> v; for (auto &s : slots) if (can_use(o, s) && s.kind == SK_FILE) v.push_back(&s); uint32_t r = g.below(64); unsigned ff = 1 + g.below(63); if (g.chance(1, 3)) ff = 1u << g.below(6); if (v.empty()) { c.filter = EVFILT_USER; c.ident = 2; return c; } c.filter = EVFILT_VNODE; c.ident = (uintptr_t)v[r % v.size()]->a; c.fflags = ff; if (g.below(4)) c.flags |= EV_CLEAR; return c; }
    case W_PROC: c.filter = EVFILT_PROC; c.ident = pids.empty() ? 4999 : (uintptr_t)pids[g.below((uint32_t)pids.size())]; c.fflags = g.chance(1, P() == 10 ? 4 : 12) ? NOTE_FORK : NOTE_EXIT | (g.chance(1, 6) ? NOTE_FORK | NOTE_EXEC : 0); return c;
    case W_SIGNAL: c.filter = EVFILT_SIGNAL; c.ident = (uintptr_t)sigpool[g.below(4)]; return c;
    case W_TIMER: c.filter = EVFILT_TIMER; c.ident = tids[g.below(NT)]; timer_params(g, c); return c;
    case W_LIBKQ: { c.filter = EVFILT_LIBKQUEUE; c.ident = g.below(3); c.flags = EV_ADD; uint32_t k = g.below(10); c.fflags = k < 3 ? NOTE_VERSION : k < 6 ? NOTE_VERSION_STR : k < 8 ? (k == 7 && g.chance(1, 2) ? NOTE_DEBUG : NOTE_FORK_CLEANUP) : k < 9 ? NOTE_THREAD_SAFE : g.chance(1, 2) ? 77 : lib_dbg ? (g.chance(1, 2) ? 0 : 8) : NOTE_DEBUG + g.below(3); if (c.fflags == NOTE_VERSION || c.fflags == NOTE_VERSION_STR) c.data = g.chance(1, 2) ? 0 : (intptr_t)g.next() >> 8; if (c.fflags == NOTE_FORK_CLEANUP || c.fflags == NOTE_DEBUG) c.data = g.below(2); if (c.fflags == NOTE_THREAD_SAFE) c.data = PF.owners == 1 && P() == 22 ? g.below(2) : 1; return c; }
    default: c.filter = EVFILT_USER; c.ident = uids[g.below(NU)]; c.fflags = g.chance(1, 2) ? NOTE_FFNOP : NOTE_FFCOPY; c.fflags |= (unsigned)(g.next() & 0xffffff); if (g.chance(1, 12)) c.fflags |= NOTE_TRIGGER; return c;
    }
}
static bool is_fd_pair_conflict(const struct kevent &) { return false; }
// EVFILT_LIBKQUEUE answers: judged here, against values tracked here
static int sw_thread_safe = 1, sw_fork_cleanup = 1, sw_debug = -2; extern const char *expect_version_str; extern uint32_t expect_version;
static void judge_libkq(const std::vector<struct kevent> &ch, const KevRes &r, bool overflow) {
    if (r.n < 0 || overflow) { for (auto &c : ch) if (c.filter == EVFILT_LIBKQUEUE) { if (c.fflags == NOTE_THREAD_SAFE) sw_thread_safe = -1; if (c.fflags == NOTE_FORK_CLEANUP) sw_fork_cleanup = -1; if (c.fflags == NOTE_DEBUG) sw_debug = -1; } return; }
    size_t idx = 0;
    for (auto &c : ch) {
        bool isq = c.filter == EVFILT_LIBKQUEUE && (c.flags & EV_ADD) && !((c.flags & EV_DISPATCH) && (c.flags & EV_ONESHOT));
        int prev = -1;
        if (isq && c.fflags == NOTE_THREAD_SAFE) { prev = sw_thread_safe; sw_thread_safe = c.data > 0; }
        if (isq && c.fflags == NOTE_FORK_CLEANUP) { prev = sw_fork_cleanup; sw_fork_cleanup = c.data > 0; }
        if (isq && c.fflags == NOTE_DEBUG && lib_dbg) { prev = sw_debug != -2 ? sw_debug : C.debug_env; sw_debug = c.data > 0; }
        // find this change's entry, if any
        if (idx < r.ev.size() && (int)idx < r.receipts && r.ev[idx].filter == c.filter && r.ev[idx].ident == c.ident) {
            const struct kevent &x = r.ev[idx];
            bool mine = isq ? ((c.flags & EV_RECEIPT) || c.fflags == NOTE_VERSION || c.fflags == NOTE_VERSION_STR || c.fflags < NOTE_VERSION || c.fflags > (lib_dbg ? NOTE_DEBUG : NOTE_FORK_CLEANUP)) : (x.flags | EV_ERROR) == (c.flags | EV_ERROR) && x.fflags == c.fflags && x.udata == c.udata;
            if (!mine) continue;
            idx++;
            if (!isq || (x.flags & EV_ERROR)) continue;
            R->nontrivial++;
            if (c.fflags == NOTE_VERSION && (uint32_t)(x.data & ~0xffL) != expect_version) fail(C_DATA, nullptr, c.filter, "the version query answers %lx instead of %x", (long)x.data, expect_version);
            if (c.fflags == NOTE_VERSION_STR) { const char *s = (const char *)x.udata; if (!s || strncmp(s, expect_version_str, strlen(expect_version_str))) fail(C_DATA, nullptr, c.filter, "the version string query does not answer \"%s...\"", expect_version_str); }
            if (prev >= 0 && x.data != prev) fail(C_DATA, nullptr, c.filter, "switch %u reports previous value %ld instead of %d", c.fflags, (long)x.data, prev);
        }
    }
}
static void drain_event(Rng &g, const struct kevent &e) {
    if (e.flags & EV_ERROR) return;
    if (e.filter == EVFILT_READ && e.ident < fdt.size() && fdt[e.ident].o && !fdt[e.ident].o->lib) k_read((int)e.ident, (1 + (int)g.below(30)) * sc((int)e.ident));
    if (e.filter == EVFILT_WRITE && e.ident < fdt.size() && fdt[e.ident].o && !fdt[e.ident].o->lib && fdt[e.ident].o->kind != K_FILE) k_write((int)e.ident, (1 + (int)g.below(30)) * sc((int)e.ident));
}
static const int nevs[7] = {0, 1, 2, 3, 8, 64, 600};
static void pick_wait(Rng &g, KevOpts &o) {
    switch (pickw(g, PF.tow, 8)) {
    case 0: break; case 1: o.null_ts = true; break;
    case 2: o.ts_nsec = 1 + (int64_t)g.below(999999); break;
    case 3: o.ts_nsec = MS * (1 + g.below(50)) + 1 + g.below(999999); o.ts_sec = g.below(2); break;
    case 4: o.ts_nsec = MS * (1 + g.below(200)); break;
    case 5: o.ts_sec = 1 + g.below(4); break;
    case 6: o.ts_sec = (int64_t[]){86400, 2147483, 2147484, 3000000, 40000000}[g.below(5)]; o.ts_nsec = g.below(2) ? 648 * MS : 0; break;
    case 7: o.ts_nsec = 1; break;
    }
}
static void do_kev(Rng &g, Owner *o, bool changes) {
    if (o->q.empty()) return;
    KQ *q = o->q[g.below((uint32_t)o->q.size())];
    KevOpts op; op.nev = nevs[pickw(g, PF.nevw, 7)]; op.null_list = pct(g, PF.p_nulllist); pick_wait(g, op); op.alias = pct(g, PF.p_alias); bool drn = pct(g, PF.drain);
    std::vector<struct kevent> ch;
    if (changes) {
        int n = 1 + (int)g.below(g.below(2) ? 2 : (uint32_t)PF.maxch); std::map<KKey, KN> m = q->m;
        for (int i = 0; i < n; i++) { Rng gc{g.next()}; bool rc = pct(gc, PF.p_receipt); for (int t = 0; t < 5; t++) { struct kevent c = gen_change(gc, o, q, m); if (c.filter != EVFILT_TIMER && c.filter != EVFILT_LIBKQUEUE && !c.data && gc.chance(1, 4)) c.data = (int64_t)gc.below(5) - 1 + (gc.chance(1, 4) ? ((int64_t)1 << 40) : 0); if (rc || PF.faults) c.flags |= EV_RECEIPT; if (PF.faults && c.filter == EVFILT_TIMER && c.data < 0 && m.count({c.filter, c.ident})) c.data = -c.data; if (!legal(q, c, m)) continue; model_apply(q, m, c); ch.push_back(c); break; } }
        int nrc = 0; for (auto &c : ch) if (c.flags & EV_RECEIPT) nrc++;
        if (nrc && g.chance(1, 3)) op.nev = nrc + (int)g.below(4);
        if (PF.faults && C.faults_on) { op.nev = 64; op.null_list = false; op.null_ts = false; op.ts_sec = op.ts_nsec = 0; }
    }
    if (PF.p_badts && pct(g, PF.p_badts)) { static const int64_t bad[][2] = {{-1, 0}, {-1, 500 * MS}, {0, -1}, {1, -MS}, {0, SEC}, {1, SEC}, {0, SEC + 1}, {-3000000, 0}, {INT64_MIN, 0}, {INT64_MAX, SEC}, {0, INT64_MAX}, {INT64_MIN, INT64_MIN}};
        uint32_t b = g.below(12); o_bad_time(q, ch, 1 + (int)g.below(8), bad[b][0], bad[b][1]); return; }
    KevRes r = o_kevent(q, ch, op);
    judge_libkq(ch, r, false);
    if (drn) for (auto &e : r.ev) drain_event(g, e);
}
static void new_kq(Owner *o) { if (o->q.size() >= 4) return; KQ *q = o_kqueue(C.faults_on); if (q) o->q.push_back(q); }
static void check_released(int serial, const char *when) {
    R->checks++; R->nontrivial++;
    if (int n = owned_fds(serial, true)) fail(C_CLOSE, nullptr, 0, "a closed kqueue still holds %d descriptor(s) %s: %s", n, when, owned_dump(serial, true).c_str());
    if (int n = owned_allocs_all(serial)) fail(C_CLOSE, nullptr, 0, "a closed kqueue still holds %d allocation(s) %s", n, when);
}
static std::vector<int> closed_serials;
static void close_kq(Rng &g, Owner *o) {
    if (o->q.size() < 2 && g.below(2)) return;
    if (o->q.empty()) return;
    size_t i = g.below((uint32_t)o->q.size()); KQ *q = o->q[i]; o->q.erase(o->q.begin() + (long)i); int fd = q->fd;
    o_close(q); closed_serials.push_back(q->serial);
    if (g.chance(1, 3)) { // an application descriptor takes the number at once
        for (auto &s : slots) if (s.owner == o->id && s.a < 0) { if (slot_open(s) && s.a == fd) R->fault[FK_FD_REUSE]++; break; }
    }
}
static void del_slot_regs(Owner *o, OFD *f, bool all_kqs) {
    for (auto q : o->q) { std::vector<struct kevent> ch; for (auto &p : q->m) if (p.second.o == f) { struct kevent c; memset(&c, 0, sizeof c); c.filter = (short)p.first.first; c.ident = p.first.second; c.flags = EV_DELETE | EV_RECEIPT; ch.push_back(c); }
        if (!ch.empty()) { KevOpts op; op.nev = 64; o_kevent(q, ch, op); } }
    (void)all_kqs;
}
static void recycle(Rng &g, Owner *o, bool sloppy) {
    std::vector<Slot*> v; for (auto &s : slots) if (s.owner == o->id) v.push_back(&s);
    if (v.empty()) return;
    Slot &s = *v[g.below((uint32_t)v.size())]; uint32_t mode = g.below(3);
    if (s.a >= 0) {
        OFD *f = fdt[s.a].o, *f2 = s.kind == SK_FILE && s.b >= 0 ? fdt[s.b].o : nullptr; int old = s.a, olda = s.a;
        if (!sloppy) { del_slot_regs(o, f, true); if (f2) del_slot_regs(o, f2, true); if (s.a != old || fdt[s.a].o != f) return; }
        else { for (auto q : o->q) for (auto &p : q->m) if (p.second.o == f || (f2 && p.second.o == f2)) { p.second.tainted = true; tainted_fds.insert(p.first.second); } }
        yield_point("app close fd"); if (s.a != olda || fdt[s.a].o != f) return;
        k_close(s.a); s.a = -1; if (s.b >= 0) { k_close(s.b); s.b = -1; }
        if (mode == 0) return;
        if (s.kind != SK_FILE) s.kind = pickw(g, PF.sk, SK_FILE);
        if (slot_open(s) && s.a == old) R->fault[FK_FD_REUSE]++;
    } else slot_open(s);
}
static void bulk_changes(Rng &g, Owner *o) { // a change list of any length is applied to its end
    if (o->q.empty()) return;
    KQ *q = o->q[0]; int n = (int[]){70, 140, 300, 520, 700}[g.below(5)] + (int)g.below(20); std::vector<struct kevent> ch; KevOpts op; op.nev = (int[]){64, 64, 1, 512}[g.below(4)];
    auto all = [&](unsigned short fl, int from, int to) { ch.clear(); for (int i = from; i < to; i++) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 100000 + (uintptr_t)i; c.flags = fl; c.udata = (void *)(uintptr_t)(i + 1); bool have = q->m.count({EVFILT_USER, c.ident}); if (have != !!(fl & EV_ADD)) ch.push_back(c); } if (!ch.empty()) o_kevent(q, ch, op); };
    all(EV_ADD | EV_CLEAR, 0, n); op.nev = 64;
    if (g.chance(1, 2)) { all(EV_DELETE, 0, n); for (int i = 0; i < n; i += 50) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 100000 + (uintptr_t)i; c.flags = EV_DELETE; o_kevent(q, {c}, op); } struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 100000 + (uintptr_t)(n - 1); c.flags = EV_DELETE; o_kevent(q, {c}, op); }
    else for (int i = 0; i < n; i += 50) all(EV_DELETE | EV_RECEIPT, i, std::min(n, i + 50));
}
static void bulk(Rng &g, Owner *o) { // more ready registrations than one call may return
    if (o->q.empty()) return;
    KQ *q = o->q[0]; int n = 505 + (int)g.below(60); std::vector<struct kevent> ch; KevOpts op; op.nev = 600;
    for (int i = 0; i < n; i++) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 100000 + (uintptr_t)i; c.flags = EV_ADD | EV_CLEAR; c.udata = (void *)(uintptr_t)(i + 1); if (!q->m.count({EVFILT_USER, c.ident})) ch.push_back(c); }
    o_kevent(q, ch, op); ch.clear();
    for (int i = 0; i < n; i++) if (q->m.count({EVFILT_USER, 100000 + (uintptr_t)i})) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 100000 + (uintptr_t)i; c.fflags = NOTE_TRIGGER; c.udata = (void *)(uintptr_t)(i + 1); ch.push_back(c); }
    KevRes r = o_kevent(q, ch, op); (void)r;
    for (int k = 0; k < 3; k++) { o_kevent(q, {}, op); }
    ch.clear(); for (int i = 0; i < n; i++) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 100000 + (uintptr_t)i; c.flags = EV_DELETE; if (q->m.count({EVFILT_USER, c.ident})) ch.push_back(c); }
    o_kevent(q, ch, op);
}
static void rounds(Rng &g, Owner *o) { // many calls with a small list and nothing else done in between
    if (o->q.empty()) return;
    KQ *q = o->q[g.below((uint32_t)o->q.size())]; KevOpts op; op.nev = 1 + (int)g.below(3); op.alias = g.chance(1, 8); int n = (4 * (int)q->m.size() + 8) / op.nev + 4, idle = 0;
    for (int i = 0; i < n && idle < 2; i++) { KevRes r = o_kevent(q, {}, op); if (!r.events) idle++; }
}
static void rand_op(Rng &g, Owner *o) {
    int w[10] = {PF.w_kev, PF.w_poll, PF.w_mut, PF.w_newkq, PF.w_closekq, PF.w_recycle, PF.w_sleep, PF.w_sloppy, PF.w_bulk, PF.w_rounds};
    switch (pickw(g, w, 10)) {
    case 0: do_kev(g, o, true); break;
    case 1: do_kev(g, o, false); break;
    case 2: { int n = 1 + (int)g.below(4); for (int i = 0; i < n; i++) mutate(g); break; }
    case 3: new_kq(o); break;
    case 4: close_kq(g, o); break;
    case 5: recycle(g, o, false); break;
    case 6: app_sleep(sleep_len(g)); break;
    case 7: recycle(g, o, true); break;
    case 8: if (P() == 1) bulk_changes(g, o); else bulk(g, o); break;
    case 9: rounds(g, o); break;
    }
    R->ops++;
}
static bool skipped(int serial) { return D.skip.count(serial) > 0; }
static void run_ops(Owner *o, int from, int n) {
    for (int i = 0; i < n; i++) {
        int serial = o->id * 1000 + from + i;
        if (serial + 1 > R->nops) R->nops = serial + 1;
        if (skipped(serial)) continue;
        set_op(serial); yield_point("op"); Rng g{mix(C.seed, (uint64_t)serial + 7000)}; rand_op(g, o);
    }
}
// ------------------------------------------------------------------ end of a run: faults over, everything must still work and be given back
static void retire(Owner *o, KQ *q, Rng &g) {
    KevOpts op; op.nev = 64;
    for (int i = 0; i < 3; i++) o_kevent(q, {}, op);
    std::vector<struct kevent> ch;
    auto del = [&](const KKey &k) { struct kevent c; memset(&c, 0, sizeof c); c.filter = (short)k.first; c.ident = k.second; c.flags = EV_DELETE | EV_RECEIPT; return c; };
    for (auto &p : q->m) if (p.first.first != EVFILT_VNODE && (int)ch.size() < 60) ch.push_back(del(p.first));
    if (!ch.empty()) o_kevent(q, ch, op);
    for (int i = 0; i < 60; i++) { KevRes r = o_kevent(q, {}, op); if (!r.events) break; }
    ch.clear(); for (auto &p : q->m) ch.push_back(del(p.first));
    if (ch.size() < 500) { op.nev = 600; if (!ch.empty()) o_kevent(q, ch, op); op.nev = 64; }
    struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 424242; c.flags = EV_DELETE; o_kevent(q, {c}, op);
    // a fresh registration works
    c.flags = EV_ADD | EV_CLEAR; c.udata = (void *)77; struct kevent t = c; t.flags = 0; t.fflags = NOTE_TRIGGER; o_kevent(q, {c, t}, op); 
    c.flags = EV_DELETE; c.udata = nullptr; o_kevent(q, {c}, op);
}
static void final_phase(Owner *o) {
    fd_soft = fd_limit_k; set_op(o->id * 1000 + 900); Rng g{mix(C.seed, 555)};
    for (auto q : o->q) retire(o, q, g);
    set_op(o->id * 1000 + 910);
    if (o->q.empty()) { KQ *q = o_kqueue(false); if (q) { o->q.push_back(q); retire(o, q, g); } else fail(C_CREATE, nullptr, 0, "kqueue() fails although the shortage is over"); }
    for (auto q : o->q) { o_close(q); closed_serials.push_back(q->serial); }
    o->q.clear();
}
static void block_all_signals() { cur->sigmask = ~0ULL; }
static void *actor_main(int id) {
    block_all_signals();
    for (int i = 0; i < PF.aops; i++) {
        int serial = id * 1000 + i; if (serial + 1 > R->nops) R->nops = serial + 1;
        if (skipped(serial)) continue;
        set_op(serial); Rng g{mix(C.seed, (uint64_t)serial + 7000)};
        ns_t d = sleep_len(g); bool z = g.chance(1, 2); if (!z) app_sleep(d); else yield_point("actor");
        mutate(g); R->ops++;
    }
    return nullptr;
}
static void make_slots() {
    Rng g{mix(C.seed, 202)}; slots.reserve(64); // addresses stay put
    for (int i = 0; i < PF.nslots * PF.owners; i++) { slots.push_back(Slot()); Slot &s = slots.back(); s.kind = pickw(g, PF.sk, SK_N); s.owner = PF.shared_slots && g.chance(1, 2) ? -1 : i % PF.owners; slot_open(s); }
    if (PF.w[W_PROC]) for (int i = 0; i < 2; i++) pids.push_back(k_fork_child());
}
static int fn_msgs; static std::string fn_ident;
static void dbg_capture(char const *fmt, ...) { va_list ap; va_start(ap, fmt); const char *id = va_arg(ap, const char *); va_end(ap); if (cur->tid == 0) { fn_msgs++; fn_ident = id ? id : ""; } }
static void debug_switches() {
    dbg_maybe = true;
    Rng g{mix(C.seed, 888)}; KQ *q = o_kqueue(false); if (!q) return;
    std::string prefix; bool known = false, func = false, on = false; struct timespec z{0, 0};
    for (int i = 0; i < 10; i++) {
        struct kevent c, r; memset(&c, 0, sizeof c); memset(&r, 0, sizeof r); c.filter = EVFILT_LIBKQUEUE; c.ident = g.below(2); c.flags = EV_ADD | (g.chance(1, 2) ? EV_RECEIPT : 0); char *buf = nullptr;
        int k = i ? (int)g.below(4) : 1;
        if (k < 2) { c.fflags = NOTE_DEBUG; c.data = on = g.chance(2, 3); }
        else if (k == 2) { c.fflags = NOTE_DEBUG_PREFIX; prefix = "p" + std::to_string(g.below(1000)); if (g.chance(1, 4)) prefix = std::string(1 + g.below(300), 'P'); buf = strdup(prefix.c_str()); c.data = (intptr_t)buf; known = true; }
        else { c.fflags = NOTE_DEBUG_FUNC; func = g.chance(2, 3); c.data = func ? (intptr_t)(void *)dbg_capture : 0; }
        int n = kevent(q->fd, &c, 1, &r, 1, &z);
        if (n != ((c.flags & EV_RECEIPT) ? 1 : 0)) fail(C_RESULT, nullptr, EVFILT_LIBKQUEUE, "debug request %u returned %d", c.fflags, n);
        if (buf) { memset(buf, '#', strlen(buf)); free(buf); }
        cap_msgs = fn_msgs = 0; cap_text.clear(); fn_ident.clear();
        memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 8; c.flags = EV_ADD | EV_CLEAR; kevent(q->fd, &c, 1, nullptr, 0, &z);
        c.flags = 0; c.fflags = NOTE_TRIGGER; n = kevent(q->fd, &c, 1, &r, 1, &z); R->nontrivial++;
        if (n != 1 || r.ident != 8 || (r.flags & EV_ERROR)) fail(C_RESULT, nullptr, EVFILT_USER, "a user event is not reported while debugging is %s", on ? "on" : "off");
        if (!on && (cap_msgs || fn_msgs)) fail(C_DATA, nullptr, EVFILT_LIBKQUEUE, "debugging is off but %d message(s) were produced", cap_msgs + fn_msgs);
        if (on && func && (!fn_msgs || cap_msgs)) fail(C_DATA, nullptr, EVFILT_LIBKQUEUE, "%d message(s) went to the debug function, %d elsewhere", fn_msgs, cap_msgs);
        if (on && !func && (fn_msgs || !cap_msgs)) fail(C_DATA, nullptr, EVFILT_LIBKQUEUE, "%d message(s) went to a debug function that was taken back, %d to the default output", fn_msgs, cap_msgs);
        if (on && known && (func ? fn_ident != prefix : cap_text.compare(0, prefix.size(), prefix) != 0)) fail(C_DATA, nullptr, EVFILT_LIBKQUEUE, "debug messages do not carry the prefix that was set");
    }
    struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_LIBKQUEUE; c.flags = EV_ADD; c.fflags = NOTE_DEBUG_FUNC; kevent(q->fd, &c, 1, nullptr, 0, &z); 
    cap_msgs = -1; o_close(q); settle(60000);
}
static void final_checks() {
    set_op(990);
    C.faults_on = false; C.p_stall = 0;
    bool ok = settle(60000);
    if (!ok) violation(target_prop, "no-progress", "the library's threads do not come to rest after every kqueue was closed");
    for (int s : closed_serials) check_released(s, "after it was closed");
    for (auto t : threads) if (t->lib && t->st == T_DONE && !t->joined && !t->detached && !t->ghost) fail(C_LEAK, nullptr, 0, "%s ended but was never joined or detached (its stack is lost)", t->name.c_str());
    if (k_open_fds(true) > base_fds) fail(C_LEAK, nullptr, 0, "%d library descriptor(s) are open after every kqueue was closed, %d before: %s", k_open_fds(true), base_fds, k_fd_dump(true).c_str());
    if (nlib_allocs() > base_allocs) fail(C_LEAK, nullptr, 0, "%d allocation(s) are held after every kqueue was closed, %d before: sizes %s", nlib_allocs(), base_allocs, lib_alloc_dump().c_str());
    for (auto t : threads) if (held_mutexes(t->tid)) fail(C_LOCK, nullptr, 0, "%s still holds a lock at the end", t->name.c_str());
    // a closed kqueue is unusable
    struct timespec z{0, 0}; struct kevent e; bool used = fdt.size() > 395 && fdt[395].o; 
    if (!used) { int n = kevent(395, nullptr, 0, &e, 1, &z); if (n != -1 || errno != ENOENT) fail(C_RESULT, nullptr, 0, "kevent() on an unknown descriptor returned %d", n); }
    { static const int odd[] = {-1, -2, INT_MIN, INT_MAX, 65536, 1 << 20, 65535, 2}; for (int x : odd) { errno = 0; int n = kevent(x, nullptr, 0, &e, 1, &z); if (n != -1 || errno != ENOENT) fail(C_RESULT, nullptr, 0, "kevent() on descriptor %d returned %d, errno %d", x, n, errno); } }
    for (auto q : kqs) if (!q->open && (q->fd >= (int)fdt.size() || !fdt[q->fd].o)) { int n = kevent(q->fd, nullptr, 0, &e, 1, &z); if (n != -1) fail(C_CLOSE, nullptr, 0, "kevent() on a closed kqueue returned %d", n); break; }
    if (lib_dbg && P() == 22) debug_switches();
    if (PF.atexit_end) { Rng g{mix(C.seed, 777)}; std::vector<KQ*> v; int n = (int)g.below(3); for (int i = 0; i < n; i++) { KQ *q = o_kqueue(false); if (q) v.push_back(q); }
        for (auto q : v) { struct kevent c; memset(&c, 0, sizeof c); c.filter = (short)(g.below(2) ? EVFILT_USER : EVFILT_TIMER); c.ident = 5; c.data = 10; c.flags = EV_ADD; KevOpts op; o_kevent(q, {c}, op); }
        for (auto q : v) if (g.below(2)) o_close(q);
        set_op(995); trace("exit"); run_atexit(); trace("exited"); }
}
static void warm_up() {
    uint64_t v = mix(C.seed, 9191) % 24; bool conc = P() == 15 || P() == 13 ? v < 4 : P() != 16 && P() != 17 && v == 0;
    if (conc) { // several threads use the library for the first time at once
        static int done; int n = 2 + (int)(v & 1); done = 0;
        for (int i = 0; i < n; i++) spawn(("first" + std::to_string(i)).c_str(), [i]() -> void * {
            block_all_signals(); set_op(990 + i); KQ *q = o_kqueue(false); if (!q) violation(target_prop, "create", "the first kqueue() failed");
            struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 3; c.flags = EV_ADD | EV_CLEAR; struct kevent t = c; t.flags = 0; t.fflags = NOTE_TRIGGER; KevOpts op; op.nev = 4; o_kevent(q, {c, t}, op);
            o_close(q); done++; return nullptr; }, false);
        block_until("first use", [n] { return done == n; }, -1, false, false);
        settle(60000); base_allocs = nlib_allocs(); base_fds = k_open_fds(true); return;
    }
    set_op(999000 / 1000); KQ *q = o_kqueue(false); if (!q) violation(target_prop, "create", "the first kqueue() failed");
    o_close(q); settle(60000); base_allocs = nlib_allocs(); base_fds = k_open_fds(true);
    // which kqueue is first to exist during the run differs: keep one alive or not
}
static Owner *mk_owner(int id) { Owner *o = new Owner; o->id = id; o->t = cur; return o; }
static void owner_body(Owner *o) {
    o->t = cur; set_op(o->id * 1000 + 800);
    for (int i = 0; i < PF.kqs; i++) { KQ *q = o_kqueue(C.faults_on); if (q) o->q.push_back(q); }
    run_ops(o, 0, PF.ops);
    set_op(o->id * 1000 + 850); arrived++;
    if (o->id == 0) {
        block_until("barrier", [] { if (arrived < PF.owners) return false; for (auto a : actors) if (a->st != T_DONE) return false; return true; }, -1, false, false);
        C.faults_on = false; C.p_stall = 0; arrived = 1000;
    } else block_until("barrier", [] { return arrived >= 1000; }, -1, false, false);
    if (PF.faults) run_ops(o, 700, 6);   // everything works again
    final_phase(o);
}
static void general() {
    make_slots();
    if (PF.owners > 1) block_all_signals();
    for (int i = 0; i < PF.owners; i++) owners.push_back(mk_owner(i));
    C.faults_on = true;
    for (int i = 1; i < PF.owners; i++) { Owner *o = owners[i]; otherapp.push_back(spawn(("owner" + std::to_string(i)).c_str(), [o]() -> void * { block_all_signals(); owner_body(o); return nullptr; }, false)); }
    for (int i = 0; i < PF.actors; i++) { int id = 10 + i; actors.push_back(spawn(("actor" + std::to_string(i)).c_str(), [id] { return actor_main(id); }, false)); }
    owner_body(owners[0]);
    block_until("join", [] { for (auto t : otherapp) if (t->st != T_DONE) return false; return true; }, -1, false, false);
    final_checks();
}
#include "custom.h"
int run_profile() {
    target_prop = strdup(C.profile.c_str());
    make_profile(C.seed); kernel_init(C.fd_limit); oracle_init();
    bool f = C.faults_on; (void)f; C.faults_on = false;
    warm_up();
    for (int i = 0; i < 3; i++) if (C.nostdio >> i & 8) k_close(i);      // the application daemonises
    Rng g{mix(C.seed, 303)};
    if (P() == 16) cancel_world();
    else if (P() == 17) fork_world();
    else if (P() == 15 && g.below(2)) shared_world();
    else if (P() == 25 && g.below(3)) cost_world();
    else if (P() == 26 && g.below(4)) wild_world();
    else general();
    finish_run();
}
