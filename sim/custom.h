// ------------------------------------------------------------------ P16: cancellation
static int probe_extra(KQ *q, int n) { // removes what a cancelled call may have added; -1 = some but not all
    std::vector<struct kevent> ch((size_t)n), out((size_t)n); struct timespec z{0, 0};
    for (int i = 0; i < n; i++) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 9000 + (uintptr_t)i; c.flags = EV_DELETE | EV_RECEIPT; ch[(size_t)i] = c; }
    int r = kevent(q->fd, ch.data(), n, out.data(), n, &z); trace("probe = %d", r);
    if (r != n) fail(C_RESULT, nullptr, 0, "after a cancelled call, a delete list of %d returned %d (errno %d)", n, r, r < 0 ? errno : 0);
    int ok = 0; for (int i = 0; i < n; i++) { if (out[(size_t)i].data == 0) ok++; else if (out[(size_t)i].data != ENOENT) fail(C_RESULT, nullptr, EVFILT_USER, "after a cancelled call, deleting a registration fails with %ld", (long)out[(size_t)i].data); }
    q->extra = false; return ok == n ? 1 : ok == 0 ? 0 : -1;
}
static void cancel_world() {
    make_slots(); Owner *o = mk_owner(0); owners.push_back(o); C.faults_on = true;
    for (int i = 0; i < PF.actors; i++) { int id = 10 + i; actors.push_back(spawn(("actor" + std::to_string(i)).c_str(), [id] { return actor_main(id); }, false)); }
    if (mix(C.seed, 911) % 3 == 0) { // the thread that uses the library first is cancelled while it does
        KQ *k = nullptr; Rng g{mix(C.seed, 912)}; set_op(790);
        Thread *w = spawn("first", [&k]() -> void * { block_all_signals(); set_op(20900); k = o_kqueue(false); sim_pthread_testcancel(); return nullptr; }, false);
        for (int n = (int)g.below(g.below(2) ? 12 : 60); n > 0; n--) yield_point("before cancel");
        trace("cancel first"); sim_pthread_cancel((unsigned long)w->tid); void *ret = nullptr; sim_pthread_join((unsigned long)w->tid, &ret); R->checks++; R->nontrivial++;
        if (held_mutexes(w->tid)) fail(C_LOCK, nullptr, 0, "a thread cancelled in kqueue() left a lock held");
        if (k) o->q.push_back(k);
    }
    for (int i = 0; i < PF.kqs; i++) { KQ *q = o_kqueue(false); if (q) o->q.push_back(q); }
    int rounds = 1 + (int)(mix(C.seed, 909) % 4);
    for (int r = 0; r < rounds; r++) {
        run_ops(o, r * 100, PF.ops);
        int serial = r * 100 + 90; if (serial + 1 > R->nops) R->nops = serial + 1;
        if (skipped(serial) || o->q.empty()) continue;
        set_op(serial); Rng g{mix(C.seed, 31337 + (uint64_t)r)};
        size_t qi = g.below((uint32_t)o->q.size()); KQ *q = o->q[qi];
        int nx = (int)g.below(4), calls = 1 + (int)g.below(3); bool start_disabled = g.chance(1, 6), own_kq = g.chance(1, 4); uint64_t ws = g.next(); bool done_kev = false, called = false;
        Thread *w = spawn("worker", [=, &done_kev, &called]() -> void * {
            block_all_signals(); set_op(20000 + r); Rng h{ws}; int old;
            for (int i = 0; i < calls; i++) {
                if (start_disabled) sim_pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old);
                KevOpts op; op.nev = nevs[1 + h.below(5)]; switch (h.below(4)) { case 0: op.null_ts = true; break; case 1: op.ts_nsec = 1 + h.below(900000); break; case 2: op.ts_sec = h.below(3); op.ts_nsec = h.below(500) * MS; break; default: break; }
                for (int x = 0; x < nx; x++) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = 9000 + (uintptr_t)x; c.flags = EV_ADD; op.extra.push_back(c); }
                if (h.chance(1, 5)) { bool ce = cur->cancel_enabled; struct kevent e; struct timespec z{0, h.below(2) ? 0 : MS}; int n = kevent((int[]){390, -1, INT_MAX}[h.below(3)], nullptr, 0, &e, 1, &z); if (n != -1 || errno != ENOENT) fail(C_RESULT, nullptr, 0, "kevent() on an unknown descriptor returned %d", n); if (cur->cancel_enabled != ce) fail(C_RESULT, nullptr, 0, "a failing kevent() changed the caller's cancellation state"); if (held_mutexes(cur->tid)) fail(C_LOCK, nullptr, 0, "a failing kevent() returned with a lock held"); }
                if (h.chance(1, 5)) { fd_soft = 0; R->fault[FK_EMFILE]++; if (o_kqueue(true)) fail(C_CREATE, nullptr, 0, "kqueue() succeeds although no descriptor is left"); fd_soft = C.fd_limit; }
                called = true; o_kevent(q, {}, op); done_kev = true;
                if (own_kq) { sim_pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); KQ *k = o_kqueue(false); if (k) { o_close(k); closed_serials.push_back(k->serial); } sim_pthread_setcancelstate(old, nullptr); }
                if (start_disabled) { sim_pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old); if (old != PTHREAD_CANCEL_DISABLE) fail(C_RESULT, nullptr, 0, "kevent() left cancellation enabled"); }
                sim_pthread_testcancel();
            }
            return nullptr; }, false);
        switch (g.below(4)) { case 0: break; case 1: app_sleep(sleep_len(g)); break; case 2: { int n = (int)g.below(12); for (int i = 0; i < n; i++) yield_point("before cancel"); break; } case 3: app_sleep(sleep_len(g)); mutate(g); break; }
        bool docancel = g.below(8) != 0;
        if (docancel) { trace("cancel worker"); sim_pthread_cancel((unsigned long)w->tid); }
        if (o->q.size() > 1 && g.below(2)) { KQ *other = o->q[(qi + 1) % o->q.size()]; KevOpts op; op.nev = 8; o_kevent(other, {}, op); mutate(g); }
        void *ret = nullptr; sim_pthread_join((unsigned long)w->tid, &ret);
        fd_soft = C.fd_limit; bool cancelled = ret == (void *)-1L; trace("worker ended %s", cancelled ? "by cancellation" : "normally");
        for (auto it = active.begin(); it != active.end();) if ((*it)->t == w) it = active.erase(it); else ++it;
        if (held_mutexes(w->tid)) fail(C_LOCK, nullptr, 0, "a cancelled thread left a lock held");
        R->checks++; R->nontrivial++;
        if (nx && called) { int pr = probe_extra(q, nx); if (pr < 0) fail(C_RESULT, nullptr, EVFILT_USER, "a cancelled call applied only part of its change list"); if (pr == 0 && done_kev) fail(C_RESULT, nullptr, EVFILT_USER, "changes of a completed call are missing after the thread was cancelled"); }
        q->extra = false;
        KevOpts op; op.nev = 64; o_kevent(q, {}, op);
        if (g.chance(1, 4)) { o->q.erase(o->q.begin() + (long)qi); o_close(q); closed_serials.push_back(q->serial); settle(1000); check_released(q->serial, "after a cancelled wait"); }
    }
    set_op(850); block_until("barrier", [] { for (auto a : actors) if (a->st != T_DONE) return false; return true; }, -1, false, false);
    C.faults_on = false; C.p_stall = 0;
    final_phase(o); final_checks();
}
// ------------------------------------------------------------------ P17: fork
extern bool fork_toggled;
static void *switcher() {
    block_all_signals(); set_op(30000); Rng g{mix(C.seed, 515)}; KQ *q = o_kqueue(false); if (!q) return nullptr;
    struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_LIBKQUEUE; c.flags = EV_ADD; c.fflags = NOTE_FORK_CLEANUP; KevOpts op;
    for (int i = 0, n = 6 + (int)g.below(40); i < n; i++) { for (int j = (int)g.below(12); j > 0; j--) yield_point("switcher"); c.data = g.below(2); o_kevent(q, {c}, op); }
    c.data = 1; o_kevent(q, {c}, op); o_close(q); return nullptr;
}
static void child_body(uint64_t cs, bool cleanup) {
    Rng g{cs}; active.clear(); cur->cur_q = 0; cur->creating = false; C.p_stall = 0;
    std::vector<KQ*> old; for (auto q : kqs) if (q->open) { old.push_back(q); q->open = false; q->m.clear(); }
    C.faults_on = false; R->checks++;
    if (fork_toggled && !old.empty()) { int fd = old[0]->fd; cleanup = fd >= (int)fdt.size() || !fdt[fd].o || !fdt[fd].o->inherited; } // whichever value was in force: all or nothing
    if (!cleanup) { // nothing may have happened
        for (auto q : old) if (q->fd >= (int)fdt.size() || !fdt[q->fd].o || !fdt[q->fd].o->inherited) fail(C_CLOSE, nullptr, 0, "fork cleanup is off, yet the child's copy of kqueue descriptor %d was closed", q->fd);
        R->nontrivial++; if (g.below(2)) { trace("child exit, no cleanup"); run_atexit(); } return;
    }
    for (auto q : old) {
        if (q->fd < (int)fdt.size() && fdt[q->fd].o && fdt[q->fd].o->lib) fail(C_CLOSE, nullptr, 0, "the child's copy of kqueue descriptor %d is still open", q->fd);
        R->nontrivial++;
    }
    for (size_t i = 0; i < fdt.size(); i++) if (fdt[i].o && fdt[i].o->lib && fdt[i].o->inherited && fdt[i].o->kind == K_EPOLL) fail(C_CLOSE, nullptr, 0, "the child still holds an epoll instance of its parent's kqueues (descriptor %zu)", i);
    if (!old.empty() && g.below(2)) { KQ *q = old[g.below((uint32_t)old.size())]; if (q->fd >= (int)fdt.size() || !fdt[q->fd].o) { struct timespec z{0, 0}; struct kevent e; int n = kevent(q->fd, nullptr, 0, &e, 1, &z); trace("child kevent on old kq = %d", n); if (n != -1) fail(C_CLOSE, nullptr, 0, "in the child kevent() on an inherited kqueue returned %d", n); } }
    int mode = (int)g.below(4);
    if (mode == 0) { if (g.below(2)) run_atexit(); return; }
    // the child's own life
    slots.clear(); pids.clear(); Owner *o = mk_owner(0); o->t = cur; PF.shared_slots = false; PF.owners = 1; PF.reap_early = false; int n = 1 + (int)g.below(3);
    PF.w[W_PROC] = 0;
    for (int i = 0; i < 2; i++) { slots.push_back(Slot()); Slot &s = slots.back(); s.kind = pickw(g, PF.sk, SK_N); s.owner = 0; s.gen = 1000 + i * 100; slot_open(s); }
    for (int i = 0; i < n; i++) { KQ *q = o_kqueue(false); if (!q) fail(C_CREATE, nullptr, 0, "the child cannot create a kqueue"); o->q.push_back(q); }
    for (int i = 0; i < 6; i++) { set_op(100000 + cur->op % 1000 + 1); Rng h{mix(cs, (uint64_t)i)}; rand_op(h, o); }
    for (auto q : o->q) { Rng h{cs}; retire(o, q, h); }
    int cl = (int)g.below(3);
    for (auto q : o->q) if (cl) o_close(q);
    if (cl) { if (!settle(60000)) violation(target_prop, "no-progress", "the child's library threads do not come to rest"); for (auto q : o->q) check_released(q->serial, "in the child after it was closed"); }
    if (g.below(2)) { trace("child exit"); run_atexit(); }
}
static void fork_world() {
    make_slots(); for (int i = 0; i < PF.owners; i++) owners.push_back(mk_owner(i)); C.faults_on = true;
    if (PF.owners > 1) block_all_signals();
    for (int i = 1; i < PF.owners; i++) { Owner *o = owners[(size_t)i]; otherapp.push_back(spawn(("owner" + std::to_string(i)).c_str(), [o]() -> void * { block_all_signals(); owner_body(o); return nullptr; }, false)); }
    for (int i = 0; i < PF.actors; i++) { int id = 10 + i; actors.push_back(spawn(("actor" + std::to_string(i)).c_str(), [id] { return actor_main(id); }, false)); }
    Owner *o = owners[0]; set_op(800); for (int i = 0; i < PF.kqs; i++) { KQ *q = o_kqueue(false); if (q) o->q.push_back(q); }
    int rounds = 1 + (int)(mix(C.seed, 909) % 3);
    fork_toggled = mix(C.seed, 910) % 5 == 0; if (fork_toggled) actors.push_back(spawn("switcher", switcher, false));
    for (int r = 0; r < rounds; r++) {
        run_ops(o, r * 100, PF.ops);
        int serial = r * 100 + 90; if (serial + 1 > R->nops) R->nops = serial + 1;
        if (skipped(serial)) continue;
        set_op(serial); Rng g{mix(C.seed, 4711 + (uint64_t)r)}; bool slow = g.chance(1, 3), off = g.chance(1, 6) && !o->q.empty(); uint64_t cs = g.next();
        if (off) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_LIBKQUEUE; c.flags = EV_ADD; c.fflags = NOTE_FORK_CLEANUP; c.data = 0; KevOpts op; o_kevent(o->q[0], {c}, op); }
        if (g.chance(1, 3) && o->q.size() > 1) { Rng h{cs}; close_kq(h, o); }   // fork while a close is being handled
        sim_fork_world([cs, off] { child_body(cs, !off); }, slow);
        if (held_mutexes(cur->tid)) fail(C_LOCK, nullptr, 0, "fork left a lock held in the parent");
        if (off) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_LIBKQUEUE; c.flags = EV_ADD; c.fflags = NOTE_FORK_CLEANUP; c.data = 1; KevOpts op; o_kevent(o->q[0], {c}, op); c.flags = EV_DELETE; o_kevent(o->q[0], {c}, op); }
        R->nontrivial++;
        if (!o->q.empty()) { KevOpts op; op.nev = 64; o_kevent(o->q[0], {}, op); }
        if (slow && g.below(2)) { run_ops(o, r * 100 + 50, 4); set_op(serial + 1); child_closes_arrive(); }
        if (g.below(2) || off) child_exits();
    }
    run_ops(o, 600, 8);
    set_op(850); arrived++;
    block_until("barrier", [] { if (arrived < PF.owners) return false; for (auto a : actors) if (a->st != T_DONE) return false; return true; }, -1, false, false);
    child_closes_arrive(); C.faults_on = false; C.p_stall = 0; arrived = 1000;
    final_phase(o);
    block_until("join", [] { for (auto t : otherapp) if (t->st != T_DONE) return false; return true; }, -1, false, false);
    child_exits();
    final_checks();
}
// ------------------------------------------------------------------ P15: one kqueue shared by several threads
struct SId { uintptr_t id; int mode; /* 0 clear, 1 oneshot (re-added), 2 dispatch */ bool present = false; uint64_t trig_started = 0, trig_done = 0, got = 0, enables = 1; uint64_t last_trig = 0, last_get_end = 0; Thread *owner = nullptr; };
static std::vector<SId> sids; static uint64_t sclock = 1; static KQ *sq; static bool sq_closing = false; static int sq_close_at = -1;
static int raw(KQ *q, std::vector<struct kevent> ch, int nev, int64_t tns, std::vector<struct kevent> &out) {
    struct kevent zero; memset(&zero, 0, sizeof zero); out.assign((size_t)nev, zero); struct timespec ts{tns / SEC, tns % SEC}; cur->cur_q = q->serial; bool ce = cur->cancel_enabled;
    std::string cs; for (auto &k : ch) { char b[100]; snprintf(b, sizeof b, " [%lu fl=%x ff=%x]", (unsigned long)k.ident, k.flags, k.fflags); cs += b; }
    trace("shared kevent(%s nev=%d to=%ld)", cs.c_str(), nev, (long)tns);
    int n = kevent(q->fd, ch.data(), (int)ch.size(), nev ? out.data() : nullptr, nev, &ts); int e = errno; cur->cur_q = 0; R->kevents++; R->checks++;
    trace("shared kevent = %d", n); if (n > nev) fail(C_COUNT, nullptr, 0, "kevent() returned %d entries for a list of %d", n, nev);
    if (held_mutexes(cur->tid)) fail(C_LOCK, nullptr, 0, "kevent() returned with a lock held"); if (cur->cancel_enabled != ce) fail(C_RESULT, nullptr, 0, "kevent() changed the caller's cancellation state");
    if (n < 0 && e != EINTR && !(sq_closing && q == sq && e == ENOENT)) fail(C_RESULT, nullptr, 0, "kevent() failed with %d", e);
    out.resize(n > 0 ? (size_t)n : 0); for (auto &x : out) trace("  got %ld fl=%x ff=%x d=%ld", (long)x.ident, x.flags, x.fflags, (long)x.data);
    return n;
}
static void shared_got(const std::vector<struct kevent> &out, size_t from, uint64_t start) {
    std::set<uintptr_t> once;
    for (size_t i = from; i < out.size(); i++) { const struct kevent &e = out[i];
        if (e.flags & EV_ERROR) fail(C_RESULT, nullptr, e.filter, "shared kqueue: a change on %lu fails with %ld", (unsigned long)e.ident, (long)e.data);
        if (e.filter != EVFILT_USER || e.ident >= sids.size()) fail(C_SPURIOUS, nullptr, e.filter, "shared kqueue: unknown event %d %lu", e.filter, (unsigned long)e.ident);
        SId &s = sids[e.ident]; if (!once.insert(e.ident).second) fail(C_DUP, nullptr, e.filter, "shared kqueue: %lu twice in one call", (unsigned long)e.ident);
        if (e.udata != (void *)(e.ident + 500)) fail(C_UDATA, nullptr, e.filter, "shared kqueue: wrong udata for %lu", (unsigned long)e.ident);
        s.got++; s.last_get_end = ++sclock; R->events++; R->nontrivial++;
        if (s.got > s.trig_started) fail(C_DUP, nullptr, e.filter, "shared kqueue: %lu was triggered %lu times but reported %lu times", (unsigned long)e.ident, (unsigned long)s.trig_started, (unsigned long)s.got);
        if (s.mode == 1) { s.present = false; }
        if (s.mode == 2 && s.got > s.enables) fail(C_DISABLED, nullptr, e.filter, "shared kqueue: dispatch registration %lu was enabled %lu times but reported %lu times", (unsigned long)e.ident, (unsigned long)s.enables, (unsigned long)s.got);
    }
    (void)start;
}
static struct kevent uch(uintptr_t id, int flags, unsigned ff) { struct kevent c; memset(&c, 0, sizeof c); c.filter = EVFILT_USER; c.ident = id; c.flags = (unsigned short)flags; c.fflags = ff; c.udata = (void *)(id + 500); return c; }
static void shared_thread(int tn, int nops, KQ *other) {
    // ident i belongs to the thread that changes it; every thread retrieves
    for (int i = 0; i < nops; i++) {
        int serial = (tn + 1) * 1000 + i; if (serial + 1 > R->nops) R->nops = serial + 1; if (skipped(serial)) continue;
        set_op(serial); yield_point("op"); if (sq_closing) return; Rng g{mix(C.seed, (uint64_t)serial + 7000)}; R->ops++;
        if (tn == 0 && i == sq_close_at) { R->fault[FK_CLOSE_RACE]++; sq_closing = true; o_close(sq); return; }
        std::vector<struct kevent> ch, out; std::vector<uintptr_t> mine; for (auto &s : sids) if (s.owner == cur) mine.push_back(s.id);
        uint32_t a = g.below(100); int nev = (int[]){1, 2, 8, 32}[g.below(4)]; int64_t to = g.below(3) ? 0 : (int64_t)(1 + g.below(20)) * MS / (g.below(2) ? 1 : 7);
        if (a < 50 && !mine.empty()) {
            SId &s = sids[mine[g.below((uint32_t)mine.size())]];
            if (s.mode == 1 && !s.present) { s.present = true; ch.push_back(uch(s.id, EV_ADD | EV_ONESHOT, 0)); ch.push_back(uch(s.id, 0, NOTE_TRIGGER)); s.trig_started++; s.last_trig = ++sclock; }
            else if (s.mode == 0) { int k = 1 + (int)g.below(2); for (int j = 0; j < k; j++) { ch.push_back(uch(s.id, 0, NOTE_TRIGGER)); s.trig_started++; } s.last_trig = ++sclock; }
            else if (s.mode == 2) { // only trigger while it must be enabled: enables == got + 1 as far as this thread knows
                if (s.enables > s.got + (s.trig_started > s.got ? 1 : 0) && s.trig_started == s.got) { ch.push_back(uch(s.id, EV_ADD | EV_DISPATCH, NOTE_TRIGGER)); s.trig_started++; s.last_trig = ++sclock; }
                else if (s.trig_started == s.got && s.enables == s.got) { ch.push_back(uch(s.id, EV_ENABLE, 0)); s.enables++; } }
            if (!ch.empty() && g.below(2)) { ns_t t0 = now; (void)t0; int n = raw(sq, ch, 0, 0, out); (void)n; for (auto &c : ch) if (c.fflags & NOTE_TRIGGER) sids[c.ident].trig_done++; continue; }
        }
        if (a >= 90 && other) { Rng h{g.next()}; KevOpts op; op.nev = 8; struct kevent c = uch(7, EV_ADD | EV_CLEAR, 0); struct kevent t = uch(7, 0, NOTE_TRIGGER); o_kevent(other, {c, t}, op); c.flags = EV_DELETE; o_kevent(other, {c}, op); continue; }
        uint64_t st = ++sclock; int n = raw(sq, ch, nev, to, out); (void)n;
        for (auto &c : ch) if (c.fflags & NOTE_TRIGGER) sids[c.ident].trig_done++;
        shared_got(out, 0, st);
        if (g.chance(1, 6)) app_sleep(sleep_len(g) % (20 * MS));
    }
}
static void shared_world() {
    C.faults_on = true; block_all_signals(); set_op(800);
    sq = o_kqueue(false); if (!sq) violation(target_prop, "create", "kqueue() failed"); sq->shared = true; Rng g{mix(C.seed, 606)};
    int nt = 2 + (int)g.below(2), per = 1 + (int)g.below(3); int nops = 8 + (int)g.below(20); std::vector<Thread*> ts; bool oth = g.chance(1, 2); if (g.chance(1, 3)) { sq_close_at = 1 + (int)g.below((uint32_t)nops); if (sq_close_at >= nops) sq_close_at = nops - 1; oth = false; }
    for (int i = 0; i < nt * per; i++) { SId s; s.id = (uintptr_t)i; s.mode = (int)g.below(3); sids.push_back(s); }
    std::vector<struct kevent> ch, out; for (auto &s : sids) { if (s.mode == 0) ch.push_back(uch(s.id, EV_ADD | EV_CLEAR, 0)); if (s.mode == 2) ch.push_back(uch(s.id, EV_ADD | EV_DISPATCH, 0)); }
    raw(sq, ch, 0, 0, out); static bool go = false;
    for (int t = 0; t < nt; t++) { Thread *x = spawn(("sharer" + std::to_string(t)).c_str(), [=]() -> void * { block_all_signals(); block_until("start", [] { return go; }, -1, false, false); KQ *other = nullptr; if (oth) { set_op((t + 1) * 1000 + 800); other = o_kqueue(false); } shared_thread(t, nops, other); if (other) { set_op((t + 1) * 1000 + 810); o_close(other); closed_serials.push_back(other->serial); } return nullptr; }, false); ts.push_back(x); for (int i = 0; i < per; i++) sids[(size_t)(t * per + i)].owner = x; }
    go = true;
    block_until("join", [&ts] { for (auto t : ts) if (t->st != T_DONE) return false; return true; }, -1, false, false);
    set_op(900); C.faults_on = false; C.p_stall = 0;
    if (sq_closing) { closed_serials.push_back(sq->serial); final_checks(); return; }
    for (int i = 0; i < 8; i++) { uint64_t st = ++sclock; raw(sq, {}, 64, 0, out); shared_got(out, 0, st); if (out.empty()) break; }
    for (auto &s : sids) {
        R->checks++;
        if (s.trig_started && s.last_get_end < s.last_trig) fail(C_MISSED, nullptr, EVFILT_USER, "shared kqueue: %lu was triggered after it was last reported, and never reported again", (unsigned long)s.id);
        if (s.mode == 1 && s.got != s.trig_started) fail(C_MISSED, nullptr, EVFILT_USER, "shared kqueue: one-shot %lu was armed and triggered %lu times, reported %lu times", (unsigned long)s.id, (unsigned long)s.trig_started, (unsigned long)s.got);
        if (s.mode == 2 && s.got != s.trig_started) fail(C_MISSED, nullptr, EVFILT_USER, "shared kqueue: dispatch %lu was triggered %lu times, reported %lu times", (unsigned long)s.id, (unsigned long)s.trig_started, (unsigned long)s.got);
    }
    ch.clear(); for (auto &s : sids) if (s.mode != 1) ch.push_back(uch(s.id, EV_DELETE | EV_RECEIPT, 0)); else ch.push_back(uch(s.id, EV_DISABLE | EV_RECEIPT, 0));
    int n = raw(sq, ch, (int)ch.size(), 0, out); if (n != (int)ch.size()) fail(C_ORDER, nullptr, 0, "shared kqueue: %zu receipts asked for, %d returned", ch.size(), n);
    for (int i = 0; i < n; i++) { bool one = sids[(size_t)i].mode == 1; if (out[(size_t)i].data != (one ? ENOENT : 0)) fail(C_RESULT, nullptr, EVFILT_USER, "shared kqueue: %s %d at the end reports %ld", one ? "disabling fired one-shot" : "deleting", i, (long)out[(size_t)i].data); }
    o_zero_check(sq); o_close(sq); closed_serials.push_back(sq->serial);
    final_checks();
}

// ------------------------------------------------------------------ P25: what a call costs, with few and with many registrations
static void cost_world() {
    Owner *o = mk_owner(0); owners.push_back(o); Rng g{mix(C.seed, 2525)}; set_op(0);
    KQ *q[2] = {o_kqueue(false), o_kqueue(false)}; if (!q[0] || !q[1]) return;
    o->q.push_back(q[0]); o->q.push_back(q[1]);
    static const char *const how[] = {"", ", after many others came and went", ", with many kqueues open"}; int mode = (int)g.below(3);
    int nk[2] = {(int)g.below(4), mode ? (int)g.below(4) : 500 + (int)g.below(700)}, mix_ = 1 + (int)g.below(31), ready = g.chance(1, 2) ? 1 + (int)g.below(g.chance(1, 2) ? 4 : 300) : 0; KevOpts op; op.nev = 64;
    std::vector<int> usr[2]; uintptr_t next = 1000;
    auto one = [&](int f, uintptr_t id, unsigned short fl, unsigned ff = 0, int64_t d = 0) { struct kevent c; memset(&c, 0, sizeof c); c.filter = (short)f; c.ident = id; c.flags = fl; c.fflags = ff; c.data = d; return c; };
    for (int w = 0; w < 2; w++) {
        std::vector<struct kevent> ch;
        for (int i = 0; i < nk[w]; i++) {
            int f; do f = (int)g.below(5); while (!(mix_ >> f & 1));
            int fd; unsigned short dis = g.chance(1, 6) ? EV_DISABLE : 0;
            switch (f) {
            case 0: usr[w].push_back((int)next); ch.push_back(one(EVFILT_USER, next++, EV_ADD)); break;
            case 1: ch.push_back(one(EVFILT_TIMER, next++, (unsigned short)(EV_ADD | dis), 0, 86400000 + (int64_t)g.below(1000))); break;
            case 2: fd = k_eventfd(0); ch.push_back(one(EVFILT_READ, (uintptr_t)fd, (unsigned short)(EV_ADD | dis))); break;
            case 3: fd = k_listen(); ch.push_back(one(EVFILT_READ, (uintptr_t)fd, (unsigned short)(EV_ADD | (g.chance(1, 2) ? EV_CLEAR : 0)))); break;
            case 4: ch.push_back(one(EVFILT_PROC, (uintptr_t)k_fork_child(), (unsigned short)(EV_ADD | dis), NOTE_EXIT)); break;
            }
            if (ch.size() == 100) { o_kevent(q[w], ch, op); ch.clear(); }
        }
        o_kevent(q[w], ch, op);
        ch.clear(); int r = w ? std::min(ready, (int)usr[w].size()) : std::min(std::min(ready, 2), (int)usr[w].size());
        for (int i = 0; i < r; i++) ch.push_back(one(EVFILT_USER, (uintptr_t)usr[w][(size_t)i], 0, NOTE_TRIGGER));
        KevOpts o1 = op; o1.nev = 1; o_kevent(q[w], ch, o1);
    }
    struct Cost { uint64_t bb = 0, se = 0; int ev = 0; }; std::vector<Cost> c0((size_t)PF.ops);
    for (int w = 0; w < 2; w++) {
        if (w) { // what the program did in the meantime must not matter either
            if (mode == 1) for (int r = 0; r < 4; r++) { std::vector<struct kevent> ch; int f = (int[]){EVFILT_USER, EVFILT_TIMER, EVFILT_READ}[g.below(3)]; std::vector<int> fds; for (int i = 0; i < 150; i++) { uintptr_t id = 700 + (uintptr_t)i; if (f == EVFILT_READ) { fds.push_back(k_eventfd(1)); id = (uintptr_t)fds.back(); } ch.push_back(one(f, id, EV_ADD, 0, 86400000)); } o_kevent(q[1], ch, op); for (auto &c : ch) { c.flags = EV_DELETE; c.fflags = 0; } o_kevent(q[1], ch, op); for (int fd : fds) k_close(fd); }
            if (mode == 2) { KQ *k = o_kqueue(false); uint64_t b0 = cost_bb, s0 = cost_se; if (k) o->q.push_back(k); for (int i = 0; i < 150; i++) if ((k = o_kqueue(false))) o->q.push_back(k);
                R->checks++; if (!C.debug_env && (cost_bb > 2 * b0 + 250 || cost_se > 2 * s0 + 12)) fail(C_COST, nullptr, 0, "kqueue() executed %lu basic blocks and made %lu system and library calls with 150 others open, and %lu and %lu before", (unsigned long)cost_bb, (unsigned long)cost_se, (unsigned long)b0, (unsigned long)s0);
                for (int i = 0; i < 20; i++) { size_t x = 2 + g.below((uint32_t)o->q.size() - 2); o_close(o->q[x]); closed_serials.push_back(o->q[x]->serial); o->q.erase(o->q.begin() + (long)x); } }
        }
        for (int i = 0; i < PF.ops; i++) {
            set_op(1 + i); if (2 + i > R->nops) R->nops = 2 + i; if (skipped(1 + i)) continue;
            Rng h{mix(C.seed, 25250 + (uint64_t)i)}; int k = (int)h.below(8), nev = nevs[1 + h.below(5)], which = (int)h.below(3); Cost c; ns_t to = h.chance(1, 2) ? 0 : h.below(50 * MS); bool cl = h.chance(1, 2);
            KevOpts p; p.nev = nev; auto call = [&](std::vector<struct kevent> ch, ns_t t) { p.ts_nsec = (int64_t)t; KevRes r = o_kevent(q[w], ch, p); c.bb += cost_bb; c.se += cost_se; c.ev += r.n; };
            uintptr_t id = 500; unsigned short f = cl ? EV_CLEAR : 0;
            switch (k) {
            case 0: case 1: call({}, to); break;
            case 2: call({one(EVFILT_USER, id, (unsigned short)(EV_ADD | f))}, 0); call({one(EVFILT_USER, id, 0, NOTE_TRIGGER)}, 0); call({one(EVFILT_USER, id, EV_DELETE)}, 0); break;
            case 3: call({one(EVFILT_TIMER, id, EV_ADD, 0, 1)}, 3 * MS); call({one(EVFILT_TIMER, id, EV_DELETE)}, to); break;
            case 4: { int fd = k_eventfd(1); call({one(EVFILT_READ, (uintptr_t)fd, (unsigned short)(EV_ADD | f))}, to); call({one(EVFILT_READ, (uintptr_t)fd, EV_DISABLE)}, 0); call({one(EVFILT_READ, (uintptr_t)fd, EV_ENABLE)}, 0); call({one(EVFILT_READ, (uintptr_t)fd, EV_DELETE)}, 0); k_close(fd); break; }
            case 5: { int pid = k_fork_child(); call({one(EVFILT_PROC, (uintptr_t)pid, EV_ADD, NOTE_EXIT)}, 0); call({one(EVFILT_PROC, (uintptr_t)pid, EV_DELETE)}, 0); break; }
            case 6: call({one(EVFILT_SIGNAL, SIGUSR1, EV_ADD)}, to); call({one(EVFILT_SIGNAL, SIGUSR1, EV_DELETE)}, 0); break;
            case 7: call({one(EVFILT_USER, id, (unsigned short)(EV_ADD | EV_RECEIPT | (which ? EV_DISABLE : 0)))}, 0); call({one(EVFILT_USER, id, EV_DELETE | EV_RECEIPT)}, 0); break;
            }
            if (!w) { c0[(size_t)i] = c; continue; }
            R->checks++; R->nontrivial++; Cost &a = c0[(size_t)i];
            if (dbg_maybe || C.debug_env) continue;
            uint64_t de = (uint64_t)std::max(0, c.ev - a.ev);
            if (c.bb > 2 * a.bb + 250 + 250 * de) fail(C_COST, nullptr, 0, "the same calls executed %lu basic blocks with %zu registrations and %lu with %zu (%d and %d events)%s", (unsigned long)c.bb, q[1]->m.size(), (unsigned long)a.bb, q[0]->m.size(), c.ev, a.ev, how[mode]);
            if (c.se > 2 * a.se + 12 + 10 * de) fail(C_COST, nullptr, 0, "the same calls made %lu system and library calls with %zu registrations and %lu with %zu (%d and %d events)%s", (unsigned long)c.se, q[1]->m.size(), (unsigned long)a.se, q[0]->m.size(), c.ev, a.ev, how[mode]);
        }
    }
    set_op(PF.ops + 1); for (auto k : o->q) o_close(k);
    o->q.clear(); final_checks();
}

// ------------------------------------------------------------------ P26: change lists of every kind; nothing is known about their meaning but that they do no harm
static void wild_world() {
    make_slots(); Owner *o = mk_owner(0); owners.push_back(o); Rng g{mix(C.seed, 2626)}; set_op(0); block_all_signals();
    for (int i = 0; i < 3; i++) pids.push_back(k_fork_child());
    KQ *q = o_kqueue(false), *tame = o_kqueue(false); if (!q || !tame) return;
    o->q.push_back(q); o->q.push_back(tame); q->extra = true; C.faults_on = true; std::set<KKey> tried;
    auto ident = [&](Rng &h, int f) -> uintptr_t {
        static const uintptr_t odd[] = {0, 1, 2, 40, 390, UINTPTR_MAX, UINTPTR_MAX - 1, (uintptr_t)INTPTR_MAX, (uintptr_t)INTPTR_MAX + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000003, 65536};
        if (h.chance(1, 6) && f != EVFILT_SIGNAL) return odd[h.below(15)];
        switch (f) {
        case EVFILT_READ: case EVFILT_WRITE: case EVFILT_VNODE: for (int t = 0; t < 4 && !slots.empty(); t++) { Slot &s = slots[h.below((uint32_t)slots.size())]; if (s.a >= 0) return (uintptr_t)s.a; } return h.chance(1, 3) ? (uintptr_t)q->fd : 391;
        case EVFILT_SIGNAL: return h.chance(1, 4) ? (uintptr_t[]){0, 65, 70, UINTPTR_MAX, 0x100000000ul + 10, 1000000}[h.below(6)] : (uintptr_t)sigpool[h.below(4)];
        case EVFILT_PROC: return (uintptr_t)pids[h.below((uint32_t)pids.size())];
        default: return h.below(5);
        }
    };
    auto wild = [&](Rng &h) { struct kevent c; memset(&c, 0, sizeof c);
        static const short fs[] = {EVFILT_READ, EVFILT_WRITE, EVFILT_USER, EVFILT_TIMER, EVFILT_SIGNAL, EVFILT_VNODE, EVFILT_PROC};
        static const unsigned short fls[] = {EV_ADD, EV_ADD, EV_ADD, EV_DELETE, EV_ENABLE, EV_DISABLE, 0};
        c.filter = fs[h.below(7)]; if (h.chance(1, 20)) c.filter = h.chance(1, 3) ? EVFILT_LIBKQUEUE : (short)(h.chance(1, 2) ? (int)h.below(40) - 30 : (int)h.below(65536) - 32768);
        c.flags = fls[h.below(7)]; for (int i = 0; i < 16; i++) if (h.chance(1, 8)) c.flags |= (unsigned short)(1u << i); if (h.chance(1, 12)) c.flags = (unsigned short)h.next();
        c.ident = ident(h, c.filter);
        switch (h.below(4)) { case 0: c.fflags = 1u << h.below(32); break; case 1: c.fflags = (unsigned)h.next(); break; case 2: c.fflags = (unsigned)h.below(64); break; default: c.fflags = c.filter == EVFILT_PROC ? NOTE_EXIT : c.filter == EVFILT_USER ? (h.chance(1, 2) ? NOTE_TRIGGER : 0) : c.filter == EVFILT_VNODE ? 0x3f : 0; }
        if (c.filter == EVFILT_LIBKQUEUE) { c.flags = (unsigned short)(EV_ADD | (h.chance(1, 2) ? EV_RECEIPT : 0)); c.fflags = (unsigned[]){1, 2, 0, 8, 0x7fffffff, 0xffffffffu}[h.below(6)]; }
        static const int64_t ds[] = {0, 1, -1, 5, 1000, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (int64_t)1 << 31, (int64_t)1 << 32, -1000, 9223372036854775LL, 9223372036854776LL, 9223372036LL, 9223372037LL};
        c.data = h.chance(1, 6) ? (int64_t)h.next() : ds[h.below(h.chance(1, 2) ? 5 : 16)]; c.udata = (void *)(uintptr_t)h.next();
        return c; };
    std::vector<struct kevent> out; uintptr_t ut = 0;
    for (int i = 0; i < PF.ops * 2; i++) {
        set_op(1 + i); if (2 + i > R->nops) R->nops = 2 + i; if (skipped(1 + i)) continue;
        Rng h{mix(C.seed, 26260 + (uint64_t)i)}; uint32_t a = h.below(100);
        if (a < 65) {
            std::vector<struct kevent> ch; int n = (int)h.below(6), nev = (int)h.below(h.chance(1, 2) ? 3 : 20); if (h.chance(1, 15)) nev = 600;
            for (int k = 0; k < n; k++) { ch.push_back(wild(h)); tried.insert({ch.back().filter, ch.back().ident}); }
            std::vector<struct kevent> c2 = ch; struct kevent pat; memset(&pat, 0xA5, sizeof pat); out.assign((size_t)nev, pat); ns_t to = h.chance(2, 3) ? 0 : (ns_t)h.below(20 * MS); struct timespec ts{(time_t)0, (long)to};
            std::string cs; for (auto &k : ch) { char b[160]; snprintf(b, sizeof b, " [%d %lu fl=%x ff=%x d=%ld]", k.filter, (unsigned long)k.ident, k.flags, k.fflags, (long)k.data); cs += b; } trace("wild kevent(%s nev=%d to=%ld)", cs.c_str(), nev, (long)to);
            cur->cur_q = q->serial; cur->stalled_in_call = 0; ns_t t0 = now; bool ce = cur->cancel_enabled; errno = 0; int r = kevent(q->fd, ch.data(), (int)ch.size(), nev ? out.data() : nullptr, nev, &ts), e = errno; cur->cur_q = 0; R->kevents++; R->checks++; R->nontrivial += r > 0;
            trace("wild kevent = %d errno %d", r, r < 0 ? e : 0);
            if (r < -1 || r > std::min(nev, 512)) fail(C_COUNT, nullptr, 0, "kevent() returned %d for a list of %d", r, nev);
            if (r < 0 && e == 0) fail(C_COUNT, nullptr, 0, "kevent() failed without an error number");
            if ((ns_t)(now - t0) > to + cur->stalled_in_call + MS) fail(C_TIMEOUT, nullptr, 0, "kevent() returned after %ld ns, its timeout is %ld ns", (long)(now - t0), (long)to);
            if (n && memcmp(ch.data(), c2.data(), (size_t)n * sizeof(struct kevent))) fail(C_COUNT, nullptr, 0, "kevent() modified the change list");
            if (held_mutexes(cur->tid)) fail(C_LOCK, nullptr, 0, "kevent() returned with a lock held");
            if (cur->cancel_enabled != ce) fail(C_RESULT, nullptr, 0, "kevent() changed the caller's cancellation state");
            for (int k = 0; k < r; k++) { const struct kevent &x = out[(size_t)k]; trace("  got %d %lu fl=%x ff=%x d=%ld", x.filter, (unsigned long)x.ident, x.flags, x.fflags, (long)x.data);
                if (x.filter != EVFILT_LIBKQUEUE && !tried.count({x.filter, x.ident})) fail(C_SPURIOUS, nullptr, x.filter, "an entry for %d %lu, which was never asked for", x.filter, (unsigned long)x.ident); }
            size_t at = 0; bool evs = false; std::set<KKey> seen;
            for (int k = 0; k < r; k++) { const struct kevent &x = out[(size_t)k];
                if (x.filter == EVFILT_LIBKQUEUE && !(x.flags & EV_ERROR)) continue;
                if (x.flags & EV_ERROR) { while (at < ch.size() && !(ch[at].filter == x.filter && ch[at].ident == x.ident && (ch[at].flags | EV_ERROR) == x.flags)) at++; // an answer to a change, in the order of the changes
                    if (evs || at++ >= ch.size()) fail(C_ORDER, nullptr, x.filter, "entry %d (%s flags %x) looks like an error but answers no change", k, kn_str(x.filter, x.ident).c_str(), x.flags); }
                else { evs = true; if (!seen.insert({x.filter, x.ident}).second) fail(C_DUP, nullptr, x.filter, "%s is reported twice by one call", kn_str(x.filter, x.ident).c_str()); } }
            for (int k = std::max(r, 0); k < nev && r >= 0; k++) if (memcmp(&out[(size_t)k], &pat, sizeof pat) && k >= 512) fail(C_COUNT, nullptr, 0, "kevent() wrote beyond the entries it may use");
            o_check_fds();
        } else if (a < 78) { Slot *s = slots.empty() ? nullptr : &slots[h.below((uint32_t)slots.size())]; if (s) mut_slot(h, *s); }
        else if (a < 84) k_kill(sigpool[h.below(4)]);
        else if (a < 87) k_child_exit(pids[h.below((uint32_t)pids.size())], 1 + (int)h.below(3), (int)h.below(256));
        else if (a < 93) app_sleep(sleep_len(h) % (50 * MS));
        else { // the other kqueue never notices
            KevOpts p; p.nev = 8; if (tame->m.empty()) o_kevent(tame, {uch(++ut, (unsigned short)(EV_ADD | (h.chance(1, 2) ? EV_CLEAR : 0)), 0)}, p); else if (h.chance(1, 4)) o_kevent(tame, {uch(ut, EV_DELETE, 0)}, p); else o_kevent(tame, {uch(ut, 0, NOTE_TRIGGER)}, p); }
    }
    // everything that may be registered can be deleted, and then nothing is left of it
    set_op(900); C.p_stall = 0; R->checks++;
    for (int round = 0; round < 2; round++) { std::vector<struct kevent> ch; for (auto &k : tried) { struct kevent c; memset(&c, 0, sizeof c); c.filter = (short)k.first; c.ident = k.second; c.flags = EV_DELETE | EV_RECEIPT; ch.push_back(c); }
        for (size_t b = 0; b < ch.size(); b += 50) { std::vector<struct kevent> part(ch.begin() + (long)b, ch.begin() + (long)std::min(ch.size(), b + 50)); int n = raw(q, part, (int)part.size(), 0, out);
            if (n != (int)part.size()) fail(C_ORDER, nullptr, 0, "%zu receipts asked for, %d returned", part.size(), n);
            for (auto &x : out) { if (!(x.flags & EV_ERROR)) fail(C_ORDER, nullptr, x.filter, "an event among the receipts"); if (!round && x.data == 0 && x.ident > INT_MAX && (x.filter == EVFILT_READ || x.filter == EVFILT_WRITE || x.filter == EVFILT_VNODE || x.filter == EVFILT_SIGNAL)) fail(C_RESULT, nullptr, x.filter, "%s was registered, there is no such thing", kn_str(x.filter, x.ident).c_str());
                if (round && x.data == 0) fail(C_RESULT, nullptr, x.filter, "%s is deleted twice", kn_str(x.filter, x.ident).c_str()); } } }
    raw(q, {}, 64, 0, out); for (auto &x : out) fail(C_SPURIOUS, nullptr, x.filter, "%s is reported after everything was deleted", kn_str(x.filter, x.ident).c_str());
    q->extra = false; o_zero_check(q);
    for (auto k : o->q) { o_close(k); closed_serials.push_back(k->serial); }
    o->q.clear(); final_checks();
}
