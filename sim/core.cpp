// Coroutines, seeded scheduler, simulated time, decisions, trace hash.
#include "sim.h"
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <csetjmp>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

const char *fault_names[FK_N] = {"malloc_fail","fd_table_full","system_fd_table_full","kernel_no_memory","watch_limit","thread_create_fail",
  "wait_interrupted","spurious_cond_wakeup","time_stall","preempt_at_call","preempt_at_basic_block","thread_cancelled","fork","signal_delivered",
  "peer_closed","peer_reset","descriptor_reused","clock_jump","child_exit","process_exit","close_race"};
Result *R; Decisions D; Config C;
std::vector<Thread*> threads; Thread *cur; ns_t now = 1000 * SEC; bool sim_active = false;
const char *target_prop = "P00";
std::function<void()> on_quiesce, on_change, on_idle; std::function<void(Thread*,int)> on_handler;
Rng rs, rf; long lowprio = 0; int64_t bb_left = 0;
static const uint64_t STEP_LIMIT = 6000000;
static void *boot_sp;

// ---------------------------------------------------------------- trace
uint64_t H = 1469598103934665603ULL, HS = 1469598103934665603ULL;
static inline void hmix(uint64_t &h, const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; while (n--) { h ^= *c++; h *= 1099511628211ULL; } }
void trace(const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    hmix(H, b, strlen(b));
    if (C.verbose) { fprintf(stdout, "%s[%10.6f] t%d.%d %s\n", in_child_world ? "  child| " : "", (now - 1000 * SEC) / 1e9, cur ? cur->tid : -1, cur ? cur->op : -1, b); fflush(stdout); }
}
void note_state(uint64_t h) { if (R->nstate < 64) R->state_hash[R->nstate++] = h; }
static void finalize() { R->hash = H; R->sched_hash = HS; R->sim_ns = now - 1000 * SEC; R->nS = D.S.size(); R->nF = D.F.size(); }
extern void dump_decisions();
void violation(const char *prop, const char *kind, const char *fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!R->violated) {
        snprintf(R->prop, sizeof R->prop, "%s", prop); snprintf(R->kind, sizeof R->kind, "%s", kind);
        snprintf(R->msg, sizeof R->msg, "%s%s", in_child_world ? "(in forked child) " : "", b);
        trace("VIOLATION %s %s %s", prop, kind, b);
        finalize(); R->violated = 1;
    }
    dump_decisions();
    fflush(stdout); _exit(7);
}
void finish_run() { finalize(); R->done = 1; dump_decisions(); fflush(stdout); _exit(0); }

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch_(void **save, void *to);
asm(".text\n.globl sim_switch_\n.type sim_switch_,@function\nsim_switch_:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size sim_switch_,.-sim_switch_\n");
struct Ctx { void *sp; };
static std::map<Thread*, void*> sps;  // saved stack pointers
static std::vector<char*> stackpool;
static const size_t STK = 256 * 1024;
static void finish_switch() { const void *b; size_t s; __sanitizer_finish_switch_fiber(cur->fake, &b, &s); cur->fake = nullptr; errno = cur->saved_errno; }
static void switch_to(Thread *t) {
    Thread *f = cur;
    if (t == f) return;
    R->switches++;
    int k[4] = {f->tid, f->op, f->local, t->tid}; hmix(HS, k, sizeof k); hmix(H, k, sizeof k);
    f->saved_errno = errno;
    __sanitizer_start_switch_fiber(f->st == T_DONE ? nullptr : &f->fake, t->stack, t->stacksz);
    cur = t;
    sim_switch_(&sps[f], sps[t]);
    finish_switch();
}
static Thread *reschedule(bool mustblock, const char *kind);
static void thread_main() {
    finish_switch();
    cur->ret = cur->fn();
    thread_exit_now(cur->ret);
}
void thread_exit_now(void *ret) {
    cur->ret = ret; cur->st = T_DONE; cur->cur_call = nullptr;
    for (auto &p : cur->tls) free(p.second);
    cur->tls.clear();
    trace("thread %s exits", cur->name.c_str());
    reschedule(true, "exit");
    abort();
}
Thread *spawn(const char *name, std::function<void*(void)> fn, bool lib) {
    Thread *t = new Thread; t->tid = (int)threads.size(); t->name = name; t->fn = fn; t->lib = lib;
    char *m = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m, 4096, PROT_NONE);
    t->stack = m + 4096; t->stacksz = STK;
    void **sp = (void **)(t->stack + STK - 64);
    sp = (void **)((uintptr_t)sp & ~15UL);
    *--sp = nullptr;            // alignment / fake return
    *--sp = (void *)thread_main;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    sps[t] = sp;
    if (cur) t->sigmask = cur->sigmask;
    if (!D.replay) t->prio = (long)(rs.next() >> 20) + 1000; 
    threads.push_back(t);
    return t;
}
bool runnable(Thread *t) {
    if (t->st == T_RUN) return true;
    if (t->st != T_BLOCK) return false;
    if (t->interrupted && t->intr_ok) return true;
    if (t->cancelpt && t->cancel_enabled && t->cancel_pending) return true;
    if (t->deadline >= 0 && now >= t->deadline) return true;
    return t->pred && t->pred();
}
extern ns_t timers_next(); extern void timers_fire();
ns_t next_event_time() {
    ns_t best = -1;
    for (auto t : threads) if (t->st == T_BLOCK && t->deadline >= 0 && t->deadline > now && (best < 0 || t->deadline < best)) best = t->deadline;
    ns_t k = timers_next(); if (k >= 0 && (best < 0 || k < best)) best = k;
    return best;
}
void advance_time(ns_t to) {
    while (true) {
        ns_t k = timers_next();
        if (k < 0 || k > to) break;
        if (k > now) now = k;
        timers_fire();
        if (on_change) on_change();
    }
    if (to > now) { now = to; if (on_change) on_change(); }
}
static std::string thread_dump() {
    std::string s;
    for (auto t : threads) if (t->st != T_DONE) { s += t->name; s += "("; s += t->st == T_RUN ? "run" : t->why; s += ") "; }
    return s;
}
static void step_check() { if (++R->steps > STEP_LIMIT) violation(target_prop, "livelock", "no progress after %lu steps: %s", (unsigned long)R->steps, thread_dump().c_str()); }

static Thread *reschedule(bool mustblock, const char *kind) {
    int quiet = 0;
    while (true) {
        step_check();
        std::vector<Thread*> cand;
        for (auto t : threads) if (runnable(t)) cand.push_back(t);
        if (cand.empty()) {
            if (on_idle) on_idle();
            ns_t t = next_event_time();
            if (t >= 0) { advance_time(t); continue; }
            if (quiet++ > 3 || !on_quiesce) violation(target_prop, "hang", "nothing can run: %s", thread_dump().c_str());
            on_quiesce();
            continue;
        }
        Thread *def = nullptr;
        for (auto t : cand) if (t == cur) def = cur;
        if (!def) def = cand[0];
        Thread *pick = def;
        Key key{cur->tid, cur->op, cur->local};
        if (D.replay) {
            auto it = D.S.find(key);
            if (it != D.S.end()) for (auto t : cand) if (t->tid == it->second) pick = t;
        } else if (cand.size() > 1) {
            if (C.mode == 2) {
                for (auto t : cand) if (t->prio > pick->prio) pick = t;
            } else {
                pick = cand[rs.below((uint32_t)cand.size())];
            }
        }
        if (pick != def) { if (!D.replay) D.S[key] = pick->tid; }
        if (pick->st == T_BLOCK) { pick->timed_out = false; pick->st = T_RUN; }
        if (pick == cur) return cur;
        switch_to(pick);
        return cur;
    }
}
static void maybe_preempt(FaultKind fk, uint32_t p) {
    bool go = false;
    if (D.replay) { go = D.S.count(Key{cur->tid, cur->op, cur->local}); }
    else if (C.mode == 2) { if (rs.below(100000) < p) { cur->prio = --lowprio; go = true; } else {
            for (auto t : threads) if (t != cur && t->prio > cur->prio && runnable(t)) { go = true; break; } } }
    else go = p && rs.below(100000) < p;
    if (go) { Thread *me = cur; uint64_t sw = R->switches; reschedule(false, "preempt"); (void)me; if (R->switches != sw) R->fault[fk]++; }
}
void yield_point(const char *what) {
    if (!sim_active || !cur || cur->st != T_RUN) return;
    int e = errno;
    cur->local++; step_check();
    if (++cur->seams > cur->seam_lim && cur->seam_lim) violation(target_prop, "cost:spinning", "kevent() has made 100000 system and library calls without coming to rest");
    if (C.p_stall || D.replay) {
        int64_t d = fault_val(FK_STALL, C.p_stall, [](Rng &r) -> int64_t { static const int64_t u[] = {1, 1000, 50000, 1000000, 7000000, 40000000, 900000000}; return (int64_t)(u[r.below(7)] * (1 + r.below(9))); });
        if (d > 0) { cur->stalled_in_call += d; trace("stall %ld", (long)d); for (auto t : threads) if (t != cur) t->stalled_in_call += d; advance_time(now + d); }
    }
    maybe_preempt(FK_PREEMPT_CALL, C.p_call);
    errno = e;
}
extern "C" void sim_bb(void) {
    if (!sim_active || !cur || cur->st != T_RUN) return;
    cur->local++; cur->bbs++; R->bb++;
    if (++R->steps > STEP_LIMIT) step_check();
    if (D.replay) { if (D.S.empty() || !D.S.count(Key{cur->tid, cur->op, cur->local})) return; int e = errno; maybe_preempt(FK_PREEMPT_BB, 0); errno = e; return; }
    if (!C.p_bb) return;
    if (bb_left-- > 0) return;
    bb_left = 1 + rs.below(2 * (100000 / C.p_bb));
    int e = errno;
    if (C.mode == 2) { if (rs.chance(1, 3)) { cur->prio = --lowprio; uint64_t sw = R->switches; reschedule(false, "bb"); if (R->switches != sw) R->fault[FK_PREEMPT_BB]++; } }
    else { uint64_t sw = R->switches; reschedule(false, "bb"); if (R->switches != sw) R->fault[FK_PREEMPT_BB]++; }
    errno = e;
}
int block_until(const char *why, std::function<bool()> pred, ns_t deadline, bool cancelpt, bool intr_ok) {
    if (cancelpt) test_cancel();
    yield_point(why);
    while (true) {
        if (cancelpt) test_cancel();
        if (intr_ok && cur->interrupted) { cur->interrupted = false; return 3; }
        if (pred && pred()) return 0;
        if (deadline >= 0 && now >= deadline) return 1;
        cur->pred = pred; cur->deadline = deadline; cur->cancelpt = cancelpt; cur->intr_ok = intr_ok; cur->why = why; cur->st = T_BLOCK;
        cur->local++;
        reschedule(true, why);
        cur->pred = nullptr; cur->deadline = -1; cur->cancelpt = cur->intr_ok = false; cur->why = "";
    }
}
// ---------------------------------------------------------------- cancellation
void test_cancel() { if (cur->cancel_enabled && cur->cancel_pending && !cur->cancelling) act_on_cancel(); }
void act_on_cancel() {
    cur->cancelling = true; cur->cancel_enabled = false; cur->ret = (void *)-1L;
    trace("cancellation acts on %s", cur->name.c_str());
    R->fault[FK_CANCEL]++;
    if (cur->cbufs.empty()) thread_exit_now((void *)-1L);
    void *b = cur->cbufs.back(); cur->cbufs.pop_back();
    longjmp((struct __jmp_buf_tag *)b, 1);
}
// ---------------------------------------------------------------- faults
void set_op(int op) { cur->op = op; cur->local = 0; memset(cur->fcnt, 0, sizeof cur->fcnt); trace("op %d", op); }
int64_t fault_val(FaultKind k, uint32_t rate, std::function<int64_t(Rng&)> gen) {
    if (!sim_active) return 0;
    auto key = std::make_tuple(cur->tid, cur->op, (int)k, cur->fcnt[k]++);
    int64_t v = 0;
    if (D.replay) { auto it = D.F.find(key); if (it != D.F.end()) v = it->second; }
    else if (rate && rf.below(100000) < rate) { v = gen(rf); if (v) D.F[key] = v; }
    if (v) { R->fault[k]++; }
    return v;
}
bool fault(FaultKind k) {
    if (!C.faults_on) return false;
    bool b = fault_val(k, C.fault_rate[k], [](Rng &) -> int64_t { return 1; }) != 0;
    if (b) trace("FAULT %s", fault_names[k]);
    return b;
}
bool settle(int maxms) {
    // let every other thread run until nothing but the caller can proceed without new input
    ns_t lim = now + (ns_t)maxms * MS;
    for (int i = 0; i < 400; i++) {
        bool other = false;
        for (auto t : threads) if (t != cur && runnable(t)) other = true;
        if (!other) return true;
        Thread *me = cur;
        block_until("settle", [me] { for (auto t : threads) if (t != me && runnable(t) && strcmp(t->why, "settle")) return false; return true; }, -1, false, false);
        if (now > lim) return false;
    }
    return false;
}
void app_sleep(ns_t d) { block_until("sleep", nullptr, now + d, false, false); }

// ---------------------------------------------------------------- sanitizer glue
static std::string asan_report;
static void on_report(const char *t) {
    // summarise: first library frame
    const char *d = __asan_get_report_description();
    std::string rep = t, fr;
    size_t p = 0; int n = 0;
    while (n < 4 && (p = rep.find(" in ", p)) != std::string::npos) {
        size_t e = rep.find_first_of(" \n(", p + 4); std::string f = rep.substr(p + 4, e - p - 4); p = e;
        if (f.compare(0, 2, "__") == 0 || f.compare(0, 4, "sim_") == 0) continue;
        fr += (n ? "<" : "") + f; n++;
    }
    R->violated = 1;
    snprintf(R->prop, sizeof R->prop, "%s", target_prop);
    snprintf(R->kind, sizeof R->kind, "memory:%s", d ? d : "error");
    snprintf(R->msg, sizeof R->msg, "%s%s in %s", in_child_world ? "(in forked child) " : "", d ? d : "memory error", fr.c_str());
    finalize(); dump_decisions();
    if (C.verbose) { fwrite(t, 1, strlen(t), stdout); fflush(stdout); }
    _exit(7);
}
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=7:max_malloc_fill_size=65536:malloc_fill_byte=190:"
           "max_free_fill_size=65536:free_fill_byte=221:malloc_context_size=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=1024:allocator_may_return_null=1:handle_segv=1:symbolize=1:log_path=/dev/null:"
           "use_sigaltstack=1:detect_odr_violation=0:intercept_tls_get_addr=0";
}
void boot(std::function<void*(void)> mainfn) {
    __asan_set_error_report_callback(on_report);
    rs.s = mix(C.seed, 11); rf.s = mix(C.seed, 13);
    bb_left = C.p_bb ? 1 + rs.below(2 * (100000 / C.p_bb)) : 0;
    Thread *m = spawn("main", mainfn, false);
    sim_active = true; cur = m;
    Thread dummy; void *fake = nullptr; const void *b; size_t s;
    __sanitizer_start_switch_fiber(&fake, m->stack, m->stacksz);
    sim_switch_(&boot_sp, sps[m]);
    __sanitizer_finish_switch_fiber(fake, &b, &s);
    abort();
}
bool in_child_world = false;

void Thread_wait_eintr(Thread *t) { if (t->eintr_at < 0) { t->eintr_at = now; t->eintr_stall = t->stalled_in_call; } }
