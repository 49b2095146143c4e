// Driver: runs seeds in forked children, replays decision files, minimises failures.
#include "sim.h"
#include <cstdlib>
#include <cerrno>
#include <algorithm>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unordered_set>

extern void boot(std::function<void*(void)> fn); extern "C" uint8_t *cov_map; extern "C" uint32_t cov_n; extern "C" const uintptr_t *cov_pcs; extern "C" size_t cov_npcs;
extern Rng rs, rf; extern long lowprio; extern int64_t bb_left; extern uint64_t H, HS;
const char *expect_version_str = "2.6.1"; uint32_t expect_version = (2u << 24) | (6u << 16) | (1u << 8);
int deep = 1; uint64_t known_mask = ~0ULL; static int dump_fd = -1; bool lib_dbg; int cap_msgs; std::string cap_text;
static std::string decisions_text() {
    std::string s; char b[160];
    for (int x : D.skip) { snprintf(b, sizeof b, "skip %d\n", x); s += b; }
    for (auto &p : D.F) { snprintf(b, sizeof b, "fault %d %d %s %d %ld\n", std::get<0>(p.first), std::get<1>(p.first), fault_names[std::get<2>(p.first)], std::get<3>(p.first), (long)p.second); s += b; }
    for (auto &p : D.S) { snprintf(b, sizeof b, "switch %d %d %d -> %d\n", std::get<0>(p.first), std::get<1>(p.first), std::get<2>(p.first), p.second); s += b; }
    return s;
}
void dump_decisions() { if (dump_fd < 0) return; std::string s = decisions_text(); if (ftruncate(dump_fd, 0) < 0) {} ssize_t r = pwrite(dump_fd, s.data(), s.size(), 0); (void)r; }
static bool parse_line(const char *l, Decisions &d) {
    int a, b, c, e; long v; char k[64];
    if (sscanf(l, "skip %d", &a) == 1) { d.skip.insert(a); return true; }
    if (sscanf(l, "fault %d %d %63s %d %ld", &a, &b, k, &c, &v) == 5) { for (int i = 0; i < FK_N; i++) if (!strcmp(k, fault_names[i])) d.F[std::make_tuple(a, b, i, c)] = v; return true; }
    if (sscanf(l, "switch %d %d %d -> %d", &a, &b, &c, &e) == 4) { d.S[Key{a, b, c}] = e; return true; }
    return false;
}
// the forked child world shares Result; decisions, hashes and random streams travel back
void child_state_export(int fd) { std::string s; char b[200]; snprintf(b, sizeof b, "st %lu %lu %lu %lu %ld %ld %ld\n", (unsigned long)rs.s, (unsigned long)rf.s, (unsigned long)H, (unsigned long)HS, lowprio, (long)bb_left, (long)now); s = b; s += decisions_text(); size_t o = 0; while (o < s.size()) { ssize_t r = ::write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += (size_t)r; } }
void child_state_import(int fd) { FILE *f = fdopen(dup(fd), "r"); char l[256]; rewind(f); while (fgets(l, sizeof l, f)) { unsigned long a, b, c, d; long e, g, h; if (sscanf(l, "st %lu %lu %lu %lu %ld %ld %ld", &a, &b, &c, &d, &e, &g, &h) == 7) { rs.s = a; rf.s = b; H = c; HS = d; lowprio = e; bb_left = g; } else parse_line(l, D); } fclose(f); }

static Result *res_new() { return (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static double now_s() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec / 1e6; }
static void on_alarm(int) { if (R && !R->violated) { R->violated = 2; } _exit(9); }
// one run in a forked child
static void run_child(const std::string &prof, uint64_t seed, const Decisions *d, bool verbose, int dfd, Result *r) {
    memset(r, 0, sizeof *r); R = r; fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        signal(SIGALRM, on_alarm); alarm(60);
        C = Config(); C.profile = prof; C.seed = seed; C.verbose = verbose; dump_fd = dfd;
        if (d) { D = *d; D.replay = true; }
        boot([]() -> void * { run_profile(); return nullptr; });
        _exit(8);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!r->done && !r->violated) {
        r->violated = 1; snprintf(r->prop, sizeof r->prop, "%s", prof.c_str()); snprintf(r->kind, sizeof r->kind, "crash");
        snprintf(r->msg, sizeof r->msg, "the run ended abnormally (status %x)", st);
    }
    if (r->violated == 2) { r->violated = 1; snprintf(r->prop, sizeof r->prop, "%s", prof.c_str()); snprintf(r->kind, sizeof r->kind, "no-answer"); snprintf(r->msg, sizeof r->msg, "the simulated run did not end within its time limit"); }
}
static Decisions get_dump(int fd) { Decisions d; off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); ssize_t r = pread(fd, &s[0], (size_t)n, 0); (void)r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) break; parse_line(s.substr(p, e - p).c_str(), d); p = e + 1; } return d; }
static std::string js(const char *s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((unsigned char)*s < 32) o += ' '; else o += *s; } return o; }
static void print_res(const std::string &prof, uint64_t seed, Result *r) {
    printf("{\"prop\":\"%s\",\"seed\":%lu,\"violated\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016lx\",\"sched\":\"%016lx\",\"steps\":%lu,\"switches\":%lu,\"ops\":%lu,\"kevents\":%lu,\"events\":%lu,\"sim_ns\":%ld,\"inconclusive\":%d,\"other\":\"%s\",\"known\":%lu}\n", prof.c_str(), (unsigned long)seed, r->violated, js(r->kind).c_str(), js(r->msg).c_str(), (unsigned long)r->hash, (unsigned long)r->sched_hash, (unsigned long)r->steps, (unsigned long)r->switches, (unsigned long)r->ops, (unsigned long)r->kevents, (unsigned long)r->events, (long)r->sim_ns, r->inconclusive, js(r->other).c_str(), (unsigned long)r->known);
}
static void save(const char *out, const std::string &prof, uint64_t seed, const char *flavour, const Decisions &d, Result *r) {
    FILE *f = fopen(out, "w"); if (!f) return;
    fprintf(f, "# libkqueue simulation replay: run with  sim-%s replay <this file> [-v]\nprofile %s\nseed %lu\nflavour %s\ndeep %d\nkind %s\nmsg %s\nhash %016lx\n", flavour, prof.c_str(), (unsigned long)seed, flavour, deep, r->kind, r->msg, (unsigned long)r->hash);
    D = d; std::string s = decisions_text(); fputs(s.c_str(), f); fclose(f);
}
static bool load(const char *fn, std::string &prof, uint64_t &seed, Decisions &d, std::string &kind, std::string &hash) {
    FILE *f = fopen(fn, "r"); if (!f) return false; char l[1024], b[600];
    while (fgets(l, sizeof l, f)) { unsigned long s; if (sscanf(l, "profile %63s", b) == 1) prof = b; else if (sscanf(l, "seed %lu", &s) == 1) seed = s; else if (sscanf(l, "deep %lu", &s) == 1) deep = (int)s; else if (sscanf(l, "kind %599[^\n]", b) == 1) kind = b; else if (sscanf(l, "hash %63s", b) == 1) hash = b; else parse_line(l, d); }
    fclose(f); return true;
}
struct Shared { volatile uint64_t next; volatile int stop; volatile int fails; };
int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) { int p = personality(0xffffffff); setenv("SIM_NOASLR", "1", 1); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    cov_map = (uint8_t *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (const char *v = getenv("SIM_VERSION")) { int a, b, c; if (sscanf(v, "%d.%d.%d", &a, &b, &c) == 3) { expect_version = ((uint32_t)a << 24) | ((uint32_t)b << 16) | ((uint32_t)c << 8); expect_version_str = v; } }
    if (const char *v = getenv("SIM_DEEP")) deep = std::max(1, atoi(v));
    if (const char *v = getenv("SIM_KNOWN")) known_mask = strtoull(v, 0, 0);
    {   // let the allocator map its regions now, so that not every forked run has to
        std::vector<void*> v; for (size_t z = 1; z <= 65536; z += z < 512 ? 16 : z / 8) { v.push_back(malloc(z)); v.push_back(malloc(z)); } for (auto p : v) free(p); }
    std::string cmd = argc > 1 ? argv[1] : "";
    const char *fl = strstr(argv[0], "sim-rel") ? "rel" : "dbg"; lib_dbg = fl[0] == 'd';
    if (cmd == "one" && argc >= 4) { // one PROP SEED [-v]
        Result *r = res_new(); bool v = argc > 4 && !strcmp(argv[4], "-v"); run_child(argv[2], strtoull(argv[3], 0, 0), nullptr, v, -1, r); print_res(argv[2], strtoull(argv[3], 0, 0), r); return r->violated ? 1 : 0;
    }
    if (cmd == "replay" && argc >= 3) {
        std::string prof, kind, hash; uint64_t seed = 0; Decisions d; if (!load(argv[2], prof, seed, d, kind, hash)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
        Result *r = res_new(); bool v = argc > 3 && !strcmp(argv[3], "-v"); run_child(prof, seed, &d, v, -1, r); print_res(prof, seed, r);
        char h[32]; snprintf(h, sizeof h, "%016lx", (unsigned long)r->hash); bool same = r->violated && kind == r->kind && hash == h;
        printf("%s\n", same ? "REPRODUCED" : r->violated ? "DIFFERENT-FAILURE" : "NOT-REPRODUCED"); return same ? 1 : r->violated ? 3 : 0;
    }
    if (cmd == "run" && argc >= 6) { // run PROP SEED0 COUNT JOBS [MAXSEC] [OUTFILE for failing seeds]
        std::string prof = argv[2]; uint64_t s0 = strtoull(argv[3], 0, 0), n = strtoull(argv[4], 0, 0); int jobs = atoi(argv[5]); double maxs = argc > 6 ? atof(argv[6]) : 1e9;
        struct Agg { uint64_t runs, steps, switches, bb, ops, kevents, events, checks, nontrivial, fault[FK_N], inconcl, fails, known; int64_t sim_ns; struct { uint64_t seed; char kind[64]; char msg[256]; } f[16]; char other[4][256]; uint64_t otherseed[4]; int nother; uint64_t sched[1 << 18]; uint64_t nsched; uint64_t tr[1 << 18]; uint64_t ntr; uint64_t state[1 << 17]; uint64_t nstate, sumhash; };
        Agg *A = (Agg *)mmap(nullptr, sizeof(Agg) * (size_t)jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); double t0 = now_s();
        std::vector<pid_t> ps; fflush(stdout);
        for (int j = 0; j < jobs; j++) { pid_t p = fork(); if (p == 0) {
                Agg &a = A[j]; Result *r = res_new();
                while (true) { uint64_t i = __sync_fetch_and_add(&sh->next, 1); if (i >= n || sh->stop) break; if (now_s() - t0 > maxs) { sh->stop = 1; break; }
                    run_child(prof, s0 + i, nullptr, false, -1, r);
                    a.runs++; a.steps += r->steps; a.switches += r->switches; a.bb += r->bb; a.ops += r->ops; a.kevents += r->kevents; a.events += r->events; a.checks += r->checks; a.nontrivial += r->nontrivial; a.sim_ns += r->sim_ns; a.known |= r->known; for (int k = 0; k < FK_N; k++) a.fault[k] += r->fault[k];
                    a.sumhash += r->hash * (2 * i + 1);
                    if (a.nsched < (1 << 18)) a.sched[a.nsched++] = r->sched_hash; if (r->nontrivial && a.ntr < (1 << 18)) a.tr[a.ntr++] = r->hash; for (int k = 0; k < r->nstate && a.nstate < (1 << 17); k++) a.state[a.nstate++] = r->state_hash[k];
                    if (r->inconclusive) { a.inconcl++; if (a.nother < 4) { snprintf(a.other[a.nother], 256, "%s", r->other); a.otherseed[a.nother++] = s0 + i; } }
                    if (r->violated) { if (a.fails < 16) { a.f[a.fails].seed = s0 + i; snprintf(a.f[a.fails].kind, 64, "%s", r->kind); snprintf(a.f[a.fails].msg, 256, "%s", r->msg); } a.fails++; if (__sync_add_and_fetch(&sh->fails, 1) >= 40 && getenv("SIM_EARLY")) sh->stop = 1; }
                } _exit(0); } ps.push_back(p); }
        for (pid_t p : ps) { int st; waitpid(p, &st, 0); }
        uint64_t runs = 0, steps = 0, sw = 0, bb = 0, ops = 0, kev = 0, ev = 0, chk = 0, nt = 0, inc = 0, fails = 0, known = 0, sumh = 0; int64_t sim = 0; uint64_t fk[FK_N] = {0}; std::unordered_set<uint64_t> sc, stt, trs;
        for (int j = 0; j < jobs; j++) { Agg &a = A[j]; runs += a.runs; steps += a.steps; sw += a.switches; bb += a.bb; ops += a.ops; kev += a.kevents; ev += a.events; chk += a.checks; nt += a.nontrivial; inc += a.inconcl; fails += a.fails; sim += a.sim_ns / 1000; known |= a.known; sumh += a.sumhash; for (int k = 0; k < FK_N; k++) fk[k] += a.fault[k]; for (uint64_t k = 0; k < a.nsched; k++) sc.insert(a.sched[k]); for (uint64_t k = 0; k < a.ntr; k++) trs.insert(a.tr[k]); for (uint64_t k = 0; k < a.nstate; k++) stt.insert(a.state[k]); }
        if (const char *cf = getenv("SIM_COVDUMP")) { FILE *f = fopen(cf, "a"); for (size_t i = 0; f && i < cov_npcs && i + 1 < 65536; i++) fprintf(f, "%d 0x%lx\n", cov_map[i + 1], (unsigned long)cov_pcs[2 * i]); if (f) fclose(f); }
        uint32_t cov = 0; for (uint32_t i = 1; i <= cov_n && i < 65536; i++) cov += cov_map[i];
        printf("{\"prop\":\"%s\",\"runs\":%lu,\"wall\":%.3f,\"steps\":%lu,\"switches\":%lu,\"bb\":%lu,\"ops\":%lu,\"kevents\":%lu,\"events\":%lu,\"checks\":%lu,\"nontrivial\":%lu,\"inconclusive\":%lu,\"fails\":%lu,\"sim_us\":%ld,\"interleavings\":%zu,\"states\":%zu,\"distinct\":%zu,\"cov\":%u,\"cov_total\":%u,\"known\":%lu,\"sumhash\":\"%016lx\",\"faults\":{", prof.c_str(), (unsigned long)runs, now_s() - t0, (unsigned long)steps, (unsigned long)sw, (unsigned long)bb, (unsigned long)ops, (unsigned long)kev, (unsigned long)ev, (unsigned long)chk, (unsigned long)nt, (unsigned long)inc, (unsigned long)fails, (long)sim, sc.size(), stt.size(), trs.size(), cov, cov_n, (unsigned long)known, (unsigned long)sumh);
        for (int k = 0; k < FK_N; k++) printf("%s\"%s\":%lu", k ? "," : "", fault_names[k], (unsigned long)fk[k]);
        printf("},\"failing\":["); struct FS { uint64_t s; std::string k, m; }; std::vector<FS> fs; for (int j = 0; j < jobs; j++) for (uint64_t k = 0; k < A[j].fails && k < 16; k++) fs.push_back({A[j].f[k].seed, A[j].f[k].kind, A[j].f[k].msg}); std::sort(fs.begin(), fs.end(), [](const FS &x, const FS &y) { return x.s < y.s; });
        for (size_t i = 0; i < fs.size(); i++) printf("%s{\"seed\":%lu,\"kind\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", (unsigned long)fs[i].s, js(fs[i].k.c_str()).c_str(), js(fs[i].m.c_str()).c_str());
        printf("],\"others\":["); bool first = true; for (int j = 0; j < jobs; j++) for (int k = 0; k < A[j].nother; k++) { printf("%s{\"seed\":%lu,\"what\":\"%s\"}", first ? "" : ",", (unsigned long)A[j].otherseed[k], js(A[j].other[k]).c_str()); first = false; }
        printf("]}\n"); return fails ? 1 : 0;
    }
    if (cmd == "min" && argc >= 5) { // min PROP SEED OUT [SECONDS]
        std::string prof = argv[2]; uint64_t seed = strtoull(argv[3], 0, 0); double lim = now_s() + (argc > 5 ? atof(argv[5]) : 30); Result *r = res_new(); int mfd = memfd_create("d", 0);
        run_child(prof, seed, nullptr, false, mfd, r); if (!r->violated) { printf("{\"error\":\"seed does not fail\"}\n"); return 4; }
        std::string kind = r->kind; uint64_t h0 = r->hash; int nops = r->nops; Decisions best = get_dump(mfd);
        // same seed again, and as a replay of its decisions: must be identical
        run_child(prof, seed, nullptr, false, -1, r); if (!r->violated || r->hash != h0 || kind != r->kind) { printf("{\"error\":\"not deterministic: same seed differs\"}\n"); return 5; }
        run_child(prof, seed, &best, false, -1, r); if (!r->violated || kind != r->kind) { printf("{\"error\":\"replay of the recorded decisions differs: %s %s\"}\n", r->kind, js(r->msg).c_str()); return 5; }
        bool same_hash = r->hash == h0; int tries = 0; size_t s0 = best.S.size(), f0 = best.F.size();
        auto test = [&](Decisions &d) { if (now_s() > lim) return false; tries++; Result *q = r; run_child(prof, seed, &d, false, mfd, q); return q->violated && kind == q->kind; };
        // operations
        std::vector<int> ops; { std::set<int> live; for (int s = 0; s < 12; s++) for (int i = 0; i < 750; i++) { int x = s * 1000 + i; if (x < nops) live.insert(x); } ops.assign(live.begin(), live.end()); }
        for (size_t chunk = ops.size(); chunk >= 1 && now_s() < lim; chunk /= 2) { for (size_t i = 0; i < ops.size() && now_s() < lim;) { Decisions d = best; size_t e = std::min(ops.size(), i + chunk); bool any = false; for (size_t k = i; k < e; k++) if (d.skip.insert(ops[k]).second) any = true; if (!any) { i = e; continue; } if (test(d)) { best = d; ops.erase(ops.begin() + (long)i, ops.begin() + (long)e); } else i = e; } if (chunk == 1) break; }
        // drop decisions that belong to skipped operations, then the rest
        auto reduce = [&](auto member) { std::vector<typename std::decay<decltype((best.*member).begin()->first)>::type> v; for (auto &x : best.*member) v.push_back(x.first);
            for (size_t chunk = std::max<size_t>(v.size(), 1); chunk >= 1 && now_s() < lim; chunk /= 2) { for (size_t i = 0; i < v.size() && now_s() < lim;) { size_t e = std::min(v.size(), i + chunk); Decisions d = best; for (size_t k = i; k < e; k++) (d.*member).erase(v[k]); if (test(d)) { best = d; v.erase(v.begin() + (long)i, v.begin() + (long)e); } else i = e; } if (chunk == 1) break; } };
        reduce(&Decisions::F); reduce(&Decisions::S);
        // skip list: keep only what matters for reading
        run_child(prof, seed, &best, false, -1, r); if (!r->violated || kind != r->kind) { printf("{\"error\":\"minimised replay lost the failure\"}\n"); return 5; }
        save(argv[4], prof, seed, fl, best, r);
        printf("{\"ok\":1,\"kind\":\"%s\",\"msg\":\"%s\",\"tries\":%d,\"switches_before\":%zu,\"switches\":%zu,\"faults_before\":%zu,\"faults\":%zu,\"ops\":%zu,\"same_hash\":%s}\n", js(r->kind).c_str(), js(r->msg).c_str(), tries, s0, best.S.size(), f0, best.F.size(), ops.size(), same_hash ? "true" : "false");
        return 0;
    }
    fprintf(stderr, "usage: sim one|run|min|replay ...\n"); return 2;
}
