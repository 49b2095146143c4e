#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
S="schedules"; C="crash_points"; I="inputs"; H="histories"; F="fault_sequences"; G="configurations"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("P01","Registrations follow the add/modify/delete/enable/disable rules",
  "A kqueue behaves as a map from (filter, ident) to one registration: each change-list entry is applied in order with the documented result - EV_ADD creates or updates, EV_DELETE removes, EV_ENABLE/EV_DISABLE switch delivery, anything but EV_ADD on an absent registration fails with ENOENT, an unknown filter or EV_DISPATCH together with EV_ONESHOT fails with EINVAL (ENOSYS for an unimplemented filter), and an unknown kqueue descriptor fails the whole call with ENOENT. Every entry of the change list is applied exactly once, whatever its neighbours do, and a failing entry changes nothing.",
  [H,I],"all histories of kevent() changes over all filters, idents (including idents above INT_MAX) and flag combinations",
  "The tests issue one add, one delete, one enable per filter on one ident; a map is only refuted by long mixed histories over several idents and filters compared with a model.",
  ["src/common/kevent.c","src/common/knote.c","src/common/filter.c","src/linux/read.c","src/linux/write.c","src/linux/timer.c","src/linux/user.c","src/linux/signal.c","src/linux/proc.c","src/linux/vnode.c"],
  [("kevent_copyin_one","src/common/kevent.c"),("knote_lookup/knote_insert/knote_delete","src/common/knote.c"),("filter_lookup","src/common/filter.c")],
  [("kf_index","tree of registrations of one filter in one kqueue","src/common/private.h")],"return value and event list of kevent()")

p("P02","Descriptor readiness is never lost and always reported with true data",
  "While an enabled level-triggered EVFILT_READ or EVFILT_WRITE registration exists on a pipe, socket, listening socket or eventfd and the descriptor is readable, writable, hung up or in error, kevent() with enough room reports it on every call, and a blocked kevent() wakes up for it. The event's data is the number of bytes queued at some moment of the call (1 for a listening or packet-capture socket), and end-of-file is flagged on a stream whose peer has closed or shut down once its data is drained, and never on a descriptor whose peer is alive. A pending socket error is reported in fflags and never swallowed.",
  [S,H],"all interleavings of readers, writers, peers closing and kevent() calls, with read and write registrations on the same or different descriptors in any order",
  "Tests register one filter on one socket pair and check once; sharing one descriptor between read and write registrations, partial drains, peers closing at arbitrary times and several ready descriptors with small event lists need a search.",
  ["src/linux/platform.c","src/linux/read.c","src/linux/write.c","src/common/kevent.c"],
  [("epoll_update","src/linux/platform.c"),("linux_kevent_copyout","src/linux/platform.c"),("evfilt_read_copyout","src/linux/read.c"),("evfilt_write_copyout","src/linux/write.c")],
  [("fd_state","read and write registrations sharing one descriptor","src/linux/platform.h")],"events returned by kevent(), and whether it returns")

p("P03","Every event belongs to a live registration whose condition held",
  "kevent() never reports an event for a (filter, ident) that is not registered in that kqueue at that moment, nor one whose condition was false throughout the call. Each event carries the ident, filter and udata most recently given for that registration, and one call reports each registration at most once.",
  [H,S],"all histories of registration, deletion, descriptor close and reuse, and activity, over several kqueues",
  "Stale events appear only after particular delete/close/reuse sequences or when several events are harvested together, which fixed tests do not build.",
  ["src/linux/platform.c","src/common/knote.c","src/common/kevent.c"],
  [("linux_kevent_copyout","src/linux/platform.c"),("knote_delete","src/common/knote.c"),("epoll_fd_state_del","src/linux/platform.c")],
  [("epoll_udata","what an epoll entry points back to","src/linux/platform.h")],"events returned by kevent()")

p("P04","Disabled and dispatched registrations stay silent until re-enabled",
  "Between EV_DISABLE (or EV_ADD with EV_DISABLE) and the next EV_ENABLE a registration delivers nothing, whatever happens to its source or to another registration on the same descriptor; an EV_DISPATCH registration behaves so after each delivery. After EV_ENABLE a condition that still holds is reported, and disabling or enabling twice is harmless.",
  [H,S],"all histories of disable/enable/dispatch on every filter, alone and with a second filter on the same descriptor, interleaved with activity",
  "Tests disable and enable once with nothing else on the descriptor; the failing cases need hang-ups, errors or activity while disabled and combinations with a sibling registration.",
  ["src/common/knote.c","src/common/private.h","src/linux/platform.c","src/common/kevent.c"],
  [("knote_disable/knote_enable","src/common/knote.c"),("knote_copyout_flag_actions","src/common/private.h"),("epoll_fd_state","src/linux/platform.c")],
  [("EV_DISABLE bit","registration switched off","src/common/private.h")],"events returned by kevent()")

p("P05","One-shot registrations fire exactly once and then are gone",
  "A registration added with EV_ONESHOT is reported at most once, is reported if its condition occurs, and once reported no longer exists: a later EV_DELETE, EV_ENABLE or EV_DISABLE fails with ENOENT, a later EV_ADD starts afresh, and everything held for it has been released.",
  [H,S],"all filters, all event-list sizes and all interleavings of the firing with other changes and activity",
  "Tests fire one one-shot per filter with a large event list; loss needs more ready events than room, and leaks or double delivery need repeated use.",
  ["src/common/private.h","src/common/knote.c","src/linux/read.c","src/linux/write.c","src/linux/user.c","src/linux/timer.c"],
  [("knote_copyout_flag_actions","src/common/private.h"),("knote_delete","src/common/knote.c")],None,"events returned by kevent(), results of later changes, open descriptors")

p("P06","EV_CLEAR reports each new activity once and never loses one",
  "With EV_CLEAR a registration is reported again only after new activity on its source since it was last reported, and new activity is always reported by a later kevent() call, however small the event list and however many calls it takes. (A read and a write registration on one descriptor may be reported together again when either sees activity.)",
  [H,S],"all histories of activity and kevent() calls with any event-list size, one filter per descriptor",
  "An edge lost because it was harvested but not copied out, or reported twice, depends on the event-list size and timing of the activity.",
  ["src/linux/platform.c","src/common/kevent.c","src/linux/read.c","src/linux/write.c","src/linux/user.c"],
  [("linux_kevent_wait/linux_kevent_copyout","src/linux/platform.c"),("kevent","src/common/kevent.c")],None,"events returned by kevent()")

p("P07","Timers never fire early and conserve expirations",
  "A timer set to a period in seconds, milliseconds, microseconds or nanoseconds first fires no earlier than one period after it was set (NOTE_ABSOLUTE: no earlier than the given monotonic time) and wakes a waiting kevent(); the counts reported by a periodic timer add up to exactly the whole periods elapsed, and a one-shot timer counts one. Setting it again, or disabling and enabling it, restarts the period under the new parameters only.",
  [H,S,I],"all periods, units, delays before retrieval, stalls, and histories of re-setting, disabling, enabling and deleting",
  "Real-time tests can wait for a few milliseconds of one period; late retrieval, long stalls, unit overflow and re-setting at arbitrary phases need a controlled clock.",
  ["src/linux/timer.c"],
  [("convert_timedata_to_itimerspec","src/linux/timer.c"),("evfilt_timer_copyout","src/linux/timer.c"),("evfilt_timer_knote_modify","src/linux/timer.c")],None,"time and data of events returned by kevent()")

p("P08","User events deliver every trigger and obey the flag algebra",
  "A NOTE_TRIGGER on an enabled EVFILT_USER registration is reported by the kqueue that holds it, triggers before retrieval merge into one event, and without EV_CLEAR, EV_DISPATCH or EV_ONESHOT the event stays reported. The reported fflags are the low 24 bits after applying every NOTE_FFNOP/FFAND/FFOR/FFCOPY in order, without control bits.",
  [H,I],"all histories of triggers, flag operations, disables, enables and retrievals over many idents and kqueues",
  "Tests trigger once and never exercise the flag operations (a TODO in the test file says so).",
  ["src/linux/user.c"],
  [("linux_evfilt_user_knote_modify","src/linux/user.c"),("linux_evfilt_user_copyout","src/linux/user.c")],None,"events returned by kevent()")

p("P09","Watched signals become events, once each, and nothing else",
  "Once a signal is registered, each pending instance of it (standard signals merge while pending, real-time signals queue) is reported by exactly one event with its number as ident, no handler or default action runs for it in the registering thread or in the library's own threads, and no other signal is consumed. Disabling keeps the signal pending for a later enable.",
  [S,H],"all interleavings of signal arrival with registration, disabling, retrieval and the library's background thread",
  "Which thread a signal reaches and what is pending at each moment is decided by the scheduler; tests send one signal to a quiet process.",
  ["src/linux/signal.c","src/linux/platform.c"],
  [("signalfd_create","src/linux/signal.c"),("evfilt_signal_copyout","src/linux/signal.c"),("monitoring_thread_loop signal mask","src/linux/platform.c")],None,"events returned by kevent(), signals left pending or handled")

p("P10","Process exits are reported once, with the true status, unreaped",
  "For every child registered with NOTE_EXIT - before or after it exits - each kqueue holding the registration reports exactly one event whose data is the wait status (exit code, or signal and core flag) with NOTE_EXIT (and no note that cannot be monitored) and end-of-file set, and the child can still be waited for afterwards. A modification that drops NOTE_EXIT ends the watch. Registering a process that does not exist fails.",
  [S,H],"all interleavings of several children exiting, registrations in several kqueues, modifications and retrievals",
  "Needs many children, kqueues and exit times; tests fork one or two children in fixed order.",
  ["src/linux/proc.c"],
  [("evfilt_proc_copyout","src/linux/proc.c"),("evfilt_proc_knote_create","src/linux/proc.c")],None,"events returned by kevent(), waitid() afterwards")

p("P11","File changes asked for are reported, and only those",
  "For a file watched with EVFILT_VNODE, a write, extension, attribute change, link-count change, rename or deletion that was asked for is reported with the corresponding note by a later kevent(), and no note that was not asked for (but NOTE_EXTEND may accompany NOTE_WRITE when the file grew), or that did not happen since it was last reported, is ever set.",
  [H],"all histories of file operations through any descriptor and registrations with any set of notes, flags and disable/enable",
  "Tests perform one operation per note on a quiet file; combinations, repeated changes and opens and closes by others between them are a history question.",
  ["src/linux/vnode.c"],
  [("add_watch","src/linux/vnode.c"),("evfilt_vnode_copyout","src/linux/vnode.c")],
  [("kn_vnode","last seen link count and size","src/linux/platform.h")],"events returned by kevent()")

p("P12","The event list is exact: receipts, errors, bounds and aliasing",
  "kevent() returns exactly the number of entries it wrote, never more than the given size and at most 512, and touches nothing beyond; each failing change yields one entry with EV_ERROR and its errno and each EV_RECEIPT change one entry with EV_ERROR and data 0, in change-list order and before any event, even if the wait then times out or the change list and event list are the same array. When the entries do not fit, the call fails with -1 rather than reporting success.",
  [I,H],"all change lists, event-list sizes from zero up (NULL included), timeouts and aliasing, with successes, failures, receipts and ready events mixed",
  "Tests pass one change and one receipt; ordering, mixed results, exact fit and timing out after receipts are combinations they never build.",
  ["src/common/kevent.c","src/linux/platform.c"],
  [("kevent_copyin","src/common/kevent.c"),("kevent","src/common/kevent.c"),("linux_kevent_copyout","src/linux/platform.c")],None,"return value, event list contents and guard zones around it")

p("P13","Closing a kqueue releases it, and never a live one",
  "After a kqueue's descriptor is closed, everything the library held for it (descriptors, memory, watches, registrations) is released within bounded time, it is unusable, and no other kqueue is affected - even when kqueues are created and closed concurrently and descriptor numbers are reused at once. A live kqueue is never released, and process exit with kqueues open or just closed terminates cleanly.",
  [S,H],"all interleavings of creating, using and closing kqueues in several threads with the background reclaimer, with immediate descriptor reuse",
  "The window between a close, the reuse of its number and the background thread's reaction is a scheduling question; the tests close and recreate in one thread at the scheduler's mercy.",
  ["src/linux/platform.c","src/common/kqueue.c","src/common/map.c"],
  [("monitoring_thread_loop/monitoring_thread_kqueue_cleanup","src/linux/platform.c"),("kqueue/kqueue_free/kqueue_free_by_id","src/common/kqueue.c"),("map_*","src/common/map.c")],
  [("fd_map, fd_use_cnt","pipe-end to kqueue mapping and pending close notifications","src/linux/platform.c"),("kqmap","descriptor to kqueue","src/common/kqueue.c")],"results of kqueue()/kevent(), open descriptors and allocations")

p("P14","Failed operations report an error, change nothing and leak nothing",
  "When memory, descriptors, threads or watches run out at any point, kqueue() returns -1 or the change is reported as failed; no descriptor or memory stays behind, no lock stays held, existing registrations and kqueues keep working, and the same operation succeeds once the shortage is over.",
  [F,H],"every single and repeated failure of any resource-creating call inside kqueue() and kevent(), in every history",
  "Each error path needs the failure of one particular call; the tests never make one fail.",
  ["src/common/kqueue.c","src/common/kevent.c","src/linux/platform.c","src/linux/read.c","src/linux/write.c","src/linux/timer.c","src/linux/user.c","src/linux/signal.c","src/linux/vnode.c","src/linux/proc.c"],
  [("kqueue error path","src/common/kqueue.c"),("linux_kqueue_init error path","src/linux/platform.c"),("kn_create error paths","src/linux/*.c")],None,"results, open descriptors, allocations, held locks")

p("P15","Concurrent use is linearisable, race-free and free of deadlock",
  "Threads may create, use and close kqueues, and add, change, trigger and retrieve on a shared kqueue, at the same time: every change takes effect exactly once, every one-shot or cleared event goes to exactly one retriever, no event or registration is lost, corrupted or freed while in use, and every call returns once its own wait is over (a call on a kqueue in which another thread waits may last until that wait is over: see known findings).",
  [S],"all interleavings, at basic-block granularity, of several threads on shared and separate kqueues together with the background thread",
  "The tests' threads rarely preempt each other inside the library; interleavings must be chosen.",
  ["src/common/kevent.c","src/common/kqueue.c","src/linux/platform.c","src/common/debug.h"],
  [("kq_mtx and kqueue_lock","src/common/kevent.c"),("per-thread epoll_events","src/linux/platform.c")],None,"history of all calls, progress of every thread, memory errors")

p("P16","Cancelling a thread inside kevent() leaves the kqueue usable",
  "A thread cancelled while waiting in kevent() or with cancellation pending terminates, leaves no lock held, no registration damaged and no event taken from the kqueue but not returned: other threads can use, and close, the same and other kqueues afterwards. Cancellation is never acted on while the library is in the middle of changing its state, and the caller's cancellation state is as before on every return. A thread cancelled in kqueue() leaves no descriptor, memory or lock behind.",
  [S,C],"cancellation arriving at every point of kqueue() and kevent(), with cancellation enabled or disabled by the caller",
  "A test cancels one thread blocked in a wait; the other points of arrival are instants.",
  ["src/common/kevent.c","src/common/kqueue.c"],
  [("kevent cleanup handler","src/common/kevent.c"),("pthread_setcancelstate pairs","src/common/kevent.c, src/common/kqueue.c")],None,"later calls by other threads, cancellation state after return")

p("P17","Fork leaves the parent untouched and the child clean",
  "When a multi-threaded process forks at any moment, the parent's kqueues keep working and can be closed and reclaimed as before, and the child's copies are invalid and closed; the child can create and use new kqueues of its own and exit without hanging or disturbing the parent. With fork cleanup switched off the library does nothing at fork.",
  [S,C],"fork at every point of other threads' execution inside the library, followed by any use in the child and parent",
  "Tests fork from a single quiet thread; locks held by other threads and close notifications in flight at the fork are a matter of schedule.",
  ["src/common/kqueue.c","src/linux/platform.c"],
  [("libkqueue_pre_fork/parent_fork/child_fork","src/common/kqueue.c"),("linux_libkqueue_fork","src/linux/platform.c")],None,"results in parent and child, descriptors open in the child")

p("P18","Waits last exactly as long as they should",
  "kevent() with a timeout and nothing to report returns 0 no earlier than the timeout (in milliseconds or with finer nanoseconds) and without further delay, a zero timeout never blocks, a NULL timeout blocks until an event or signal, and an event that occurs before the deadline ends the wait at once. A signal interrupting the wait gives -1 with EINTR and loses nothing. A time limit that is none (negative, or with nanoseconds outside of a second) is refused with EINVAL before anything is changed, taken or waited for.",
  [I,S],"all timeout values from zero to years with any nanosecond part, any arrival time of events and interrupting signals",
  "Sub-millisecond rounding, very long timeouts and events on the deadline cannot be observed against a real clock.",
  ["src/linux/platform.c","src/common/kevent.c"],
  [("linux_kevent_wait/linux_kevent_wait_hires","src/linux/platform.c")],None,"simulated time at which kevent() returns, and its result")

p("P19","No descriptor of the library survives an exec",
  "Every descriptor the library opens, for a kqueue or for any registration of any filter, is close-on-exec from the moment another thread could fork and exec, or at the latest when the call that opened it returns, and descriptors the application passed in keep their flags.",
  [H,I],"all filters, descriptor types and histories, including re-enabling",
  "Tests never inspect descriptor flags; each filter opens its descriptors on several paths.",
  ["src/linux/platform.c","src/linux/read.c","src/linux/write.c","src/linux/timer.c","src/linux/user.c","src/linux/signal.c","src/linux/vnode.c","src/linux/proc.c"],
  [("epoll_create1/pipe2/eventfd/timerfd_create/signalfd/inotify_init1/pidfd","src/linux/*.c")],None,"close-on-exec flags of all open descriptors after each call")

p("P20","Kqueues are isolated from one another",
  "Registrations, events, disables and deletions in one kqueue never appear in, alter or consume those of another, even for the same filter and ident or the same descriptor; the same activity on a shared descriptor, file, process or timer id is reported independently by each kqueue that asked for it.",
  [H,S],"all histories over two or more kqueues watching overlapping descriptors, user idents, timers, files and processes, with kqueues closed in between",
  "Tests use one kqueue at a time.",
  ["src/common/kqueue.c","src/common/kevent.c","src/linux/platform.c"],
  [("kqueue_lookup","src/common/kqueue.c"),("per-kqueue filter table","src/common/private.h")],None,"events returned by each kqueue")

p("P21","Regular files read until end of file and are always writable",
  "A regular file watched for reading is reported while the descriptor's offset is before the end of the file, with data equal to the remaining bytes, and not at the end of file (growth after the end was seen counts once the registration is enabled or added again: see known findings); watched for writing it is always reported. One-shot, dispatch, disable, enable and delete act on such registrations as on any other.",
  [H],"all file sizes, offsets and histories of reads, seeks, appends and registration changes",
  "Regular files take a separate path with a stand-in descriptor; tests read one small file once.",
  ["src/linux/read.c","src/linux/write.c"],
  [("get_eof_offset","src/linux/read.c"),("surrogate eventfd","src/linux/read.c, src/linux/write.c")],None,"events returned by kevent()")

p("P22","Library queries and switches answer truthfully",
  "EVFILT_LIBKQUEUE changes report the library version as number and string, and the thread-safety and fork-cleanup switches take effect at once, report the previous value when a receipt is asked for, and can be set back; an unknown request fails. With the thread-safety switch off, single-threaded use behaves as before. In builds with debugging the debug switch, message prefix (copied) and output function take effect likewise.",
  [H,I],"all sequences of queries and switch settings interleaved with other use",
  "Tests set each switch once and do not use the library under the non-default settings afterwards.",
  ["src/common/libkqueue.c","src/common/kevent.c"],
  [("common_libkqueue_knote_create","src/common/libkqueue.c")],None,"event list entries and later behaviour")

p("P23","Nothing that stays due is passed over for ever",
  "While the program keeps calling kevent() with room for at least one event, every enabled registration that stays due is reported after a number of calls bounded by the number of registrations, however small the event list, however many others stay due, and whatever the mix of filters and flags: level-triggered registrations that are reported over and over do not starve others, nor does the read side of a descriptor its write side.",
  [H,S],"all sets of registrations that are due together, event-list sizes from one up, and sequences of calls",
  "Needs several registrations due at once and more calls with a small list than any test makes; which one is left out depends on the order in which they became ready.",
  ["src/linux/platform.c","src/common/kevent.c"],
  [("linux_kevent_copyout","src/linux/platform.c"),("linux_kevent_wait","src/linux/platform.c"),("kevent","src/common/kevent.c")],None,"sequence of events returned by successive kevent() calls")

p("P24","The library leaves the program's own things alone",
  "Whatever registrations are made, whatever happens to them and whatever fails on the way: the descriptors a program registers are only looked at (nothing is read from or written to them, their offset, status flags, close-on-exec flag, owner and options stay as they are, they are never duplicated or closed); no child is reaped; the caller's signal mask changes only in signals it registers, and not at all in kqueue(); cancellation state and type are put back; signal dispositions, working directory, umask, limits, environment and timers of the process are not touched; the change list and the timeout are not modified; and nothing is printed unless debugging was asked for.",
  [H,S,I],"all histories of registrations, activity and failures in any of the filters",
  "Tests look at what the library returns, not at what it does to descriptors, children, signal masks and process-wide state of the program around it, and not while something fails.",
  ["src/linux/read.c","src/linux/write.c","src/linux/signal.c","src/linux/proc.c","src/linux/platform.c","src/common/kevent.c","src/common/debug.c"],
  [("get_eof_offset","src/linux/read.c"),("linux_get_descriptor_type","src/linux/platform.c"),("evfilt_proc_copyout","src/linux/proc.c"),("signalfd_create","src/linux/signal.c"),("monitoring_thread_loop","src/linux/platform.c")],None,"system calls made on the program's descriptors and process-wide state; memory passed in; output")

p("P25","Waiting costs nothing, and a call costs what it does",
  "A thread in kevent() sleeps until something it waits for happens, a signal interrupts it or its time is up: the number of times it wakes up is bounded by the activity on what is registered, not by the length of the wait or by conditions that are disabled or already reported. And the work done by a call is bounded by its changes and the events it returns: it does not grow with the number of registrations, ready or not (other than with its logarithm).",
  [H,S],"all histories, lengths of waits and numbers of registrations",
  "A library that spins or scans returns the same events; tests check events, with a handful of registrations and waits of a second or so.",
  ["src/linux/platform.c","src/common/kevent.c","src/common/knote.c","src/common/map.c"],
  [("linux_kevent_wait","src/linux/platform.c"),("kevent","src/common/kevent.c"),("knote_lookup","src/common/knote.c"),("linux_kevent_copyout","src/linux/platform.c")],None,"wake-ups, system calls and basic blocks executed by the calling thread")

p("P26","No change list does harm",
  "Whatever filters, identifiers, flag and note bits, data and user pointers a change list holds, and whatever list sizes are given, kevent() returns within its time limit, with an error number or no more entries than there is room for; it does not crash, corrupt memory, keep a lock or alter the change list; every error entry answers a change, in their order and ahead of the events, and no registration is reported twice by a call. Output flags (EV_EOF, EV_ERROR) in a change mean nothing. An identifier that is out of range for a descriptor or signal is refused, not cut down to another one. Other kqueues are not affected, and deleting what was added leaves nothing behind.",
  [I,H],"all change lists (any bit pattern in any field), event list sizes and histories of them",
  "The tests pass well-formed changes; the input space is 2^300 per change, and damage shows only in later calls.",
  ["src/common/kevent.c","src/common/filter.c","src/linux/platform.c","src/linux/timer.c","src/linux/signal.c","src/linux/vnode.c","src/linux/proc.c","src/linux/user.c"],
  [("kevent_copyin_one","src/common/kevent.c"),("filter_lookup","src/common/filter.c"),("linux_get_descriptor_type","src/linux/platform.c")],None,"results, entries, memory, descriptors and locks after each call, and what is left after deletion")

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
