#!/usr/bin/env python3
"""Writes known-findings.txt: commit hashes are looked up by subject in /repo (run by hand, never by a check)."""
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
def h(sub):
    m = [l.split()[0] for l in log if l.split(" ", 1)[1] == "fix: " + sub]
    assert len(m) == 1, sub
    return m[0]
out = ["# Known findings: genuine defects that are recorded rather than repaired (the check of the property prints them and",
       "# exits 0; the simulator recognises exactly the history described, every other violation is still reported), and",
       "# defects that were repaired in /repo (these suppress nothing).", ""]
out += ["KNOWN-FINDING: property=P15 bit=1 kevent() holds the kqueue's lock for the whole of its wait (src/common/kevent.c, kevent_wait called between kqueue_lock and kqueue_unlock): while one thread waits in kevent() on a kqueue, another thread's kevent() on the same kqueue - even one that only applies changes, or has a zero timeout - blocks until that wait ends, and because it blocks while holding the library's global lock every other kqueue()/kevent() call of the process stalls with it",
        "KNOWN-FINDING: property=P21 bit=2 a regular file watched with EVFILT_READ whose end was seen once (the event was due with 0 bytes left) is not reported when it grows afterwards, until it is disabled and enabled or added anew (src/linux/read.c, evfilt_read_copyout removes the surrogate eventfd from epoll; the FIXME there says so)", ""]
F = [
 ("P12", "return receipts and errors even when the wait finds nothing", "kevent() returned 0 and dropped the receipts and errors of its change list when the wait timed out or was interrupted"),
 ("P04", "EV_ADD with EV_DISABLE creates a properly disabled registration", "EV_ADD|EV_DISABLE created registrations that still delivered, or could not be enabled later"),
 ("P04", "do not report a disabled READ or WRITE registration", "a disabled READ/WRITE registration was reported when its sibling on the same descriptor, or a hang-up, woke epoll"),
 ("P19", "open the surrogate eventfds of regular files close-on-exec", "the eventfds behind regular files were inherited across exec"),
 ("P07", "modifying a timer takes effect whatever its state", "re-adding a disabled or expired timer did not restart it, or kept the old parameters"),
 ("P10", "EVFILT_PROC registrations survive modification and error paths", "modifying a PROC registration lost it; error paths leaked its pidfd"),
 ("P11", "EVFILT_VNODE reports what was asked for, and only that", "VNODE events were lost, merged away or reported with notes that were not asked for"),
 ("P18", "kevent() no longer returns before its timeout without an event", "kevent() returned 0 early when all epoll events turned out to be spurious"),
 ("P18", "timeouts of more than INT_MAX milliseconds overflowed", "a timeout above INT_MAX ms became negative (blocked for ever) or short"),
 ("P02", "a spurious event no longer hides others that are ready", "an event that was discarded made kevent() report nothing although others were ready"),
 ("P11", "adding an EVFILT_VNODE watch no longer races with a rename", "the watch was added by path and failed when the file was renamed at that moment"),
 ("P21", "EV_ONESHOT, EV_DISPATCH and EV_DISABLE work for regular files", "one-shot, dispatch and disable had no effect on regular files"),
 ("P01", "changes that are not supported fail with an errno", "failing changes reported EV_ERROR with a stale or zero errno"),
 ("P14", "close the eventfd of an EVFILT_USER registration that failed", "a failed EVFILT_USER registration leaked its eventfd"),
 ("P02", "EVFILT_WRITE stored the queue length in half of the data field", "ioctl(SIOCOUTQ) wrote an int into intptr_t data: upper half undefined"),
 ("P06", "READ and WRITE on one descriptor keep each other's options", "adding, enabling, disabling or deleting one of READ/WRITE on a descriptor changed the other's edge/one-shot/dispatch state"),
 ("P02", "no EV_EOF for a stream another thread has just drained", "EV_EOF was flagged on a live stream when its data was read between epoll_wait and ioctl"),
 ("P14", "fail a registration when its fd_state cannot be allocated", "NULL dereference when the fd_state allocation failed"),
 ("P03", "deleting a registration whose descriptor number was reused", "a registration on a closed descriptor whose number was reused could not be deleted and left a dangling knote"),
 ("P13", "map bounds are exclusive, and a failed deletion returns NULL", "descriptor number == map length read and wrote past the map; (void*)-1 was dereferenced"),
 ("P14", "kqueue() cleans up and reports an errno when the monitoring thread can't be started", "spurious wake-ups and failures while starting the monitoring thread were not handled (hang, NULL fd_map, double unlock)"),
 ("P16", "a cancelled thread doesn't lose the events its kevent() call retrieved", "a thread cancelled at the end of kevent() lost one-shot and cleared events it had taken"),
 ("P14", "kqueue() releases everything when the new kqueue can't be set up", "kqueue() leaked descriptors, memory and the cancellation state on failure"),
 ("P13", "a stale close notification doesn't free a kqueue that is open", "a close signal that arrived late freed, or asserted on, a new kqueue which reused the number"),
 ("P17", "a forked child doesn't use or free the kqueues of its parent", "the child looked up, freed or closed descriptors of the parent's kqueues, and number reuse made it close its own"),
 ("P13", "close a kqueue's descriptors when one of them is number 0", "a kqueue whose epoll descriptor or pipe got number 0 (stdin closed) left it open when closed"),
 ("P09", "accept descriptor 0 for a signalfd", "a signal registration whose signalfd got number 0 was reported as failed, and left the descriptor and a dangling knote in epoll"),
 ("P06", "a regular file that doesn't fit into the eventlist isn't lost", "an EV_CLEAR READ/WRITE registration of a regular file was taken from epoll but not reported when the event list was full, and never reported again"),
 ("P10", "EVFILT_PROC reports NOTE_EXIT only, and only while it is asked for", "an exit was reported with every note that was asked for (NOTE_FORK, NOTE_EXEC), and still reported after a modification dropped NOTE_EXIT"),
 ("P16", "a thread cancelled in kqueue() doesn't lose the new kqueue", "a thread cancelled during kqueue() created the kqueue and then terminated: its descriptors leaked"),
 ("P23", "no event is passed over forever when the event list is small", "with room for one event the write side of a readable and writable descriptor was never reported, and level-triggered registrations behind such a descriptor could be left out by every call"),
 ("P18", "kevent() refuses a time limit that is none", "a negative tv_sec waited for ever, and {0, 1000000000} was taken for a second, instead of the documented EINVAL"),
 ("P26", "EV_EOF and EV_ERROR in a change mean nothing", "EV_ADD | EV_EOF made kevent() spin, or use a deleted registration; EV_ADD | EV_ERROR made every event look like an error"),
 ("P26", "an ident that is out of range isn't cut down to another one", "fd + 2^32 was registered as a second registration of fd (assertion, lost events after either was deleted), and so were signals and processes"),
]
for p, sub, what in F: out.append("fixed: property=%s %s %s" % (p, h(sub), what))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
