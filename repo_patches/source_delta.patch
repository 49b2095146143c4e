From c6963602dda7e34d1e5d75162729de2e8e085681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 01/34] fix: return receipts and errors even when the wait
 finds nothing

kevent() waited for the caller's timeout although the change list had
already produced entries, and dropped those entries when the wait timed
out or was interrupted.  The wait also harvested more epoll events than
there was room left for.
---
 src/common/kevent.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 51f347b..ffd7e3a 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -345,6 +345,7 @@ kevent(int kqfd,
        struct kevent eventlist[], int nevents,
        const struct timespec *timeout)
 {
+    static const struct timespec no_wait = { 0, 0 };
     struct kqueue *kq;
     struct kevent *el_p, *el_end;
     int rv = 0;
@@ -426,6 +427,11 @@ kevent(int kqfd,
             goto out;
         if (rv > 0) {
             el_p += rv; /* EV_RECEIPT and EV_ERROR entries */
+            /*
+             * There is something to return already, so
+             * only collect what is ready, don't wait for it.
+             */
+            timeout = &no_wait;
         }
     }
 
@@ -446,7 +452,7 @@ kevent(int kqfd,
             pthread_testcancel();
         }
 #endif
-        rv = kqops.kevent_wait(kq, nevents, timeout);
+        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
 #ifndef _WIN32
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
 #endif
@@ -458,9 +464,10 @@ kevent(int kqfd,
                 el_p += rv;             /* Add events from copyin */
                 rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
             }
-        } else if (rv == 0) {
-            /* Timeout reached */
+        } else if (rv == 0 || el_p > eventlist) {
+            /* Timeout reached, there may still be entries from copyin to return */
             dbg_printf("(%u) kevent_wait timedout", myid);
+            rv = el_p - eventlist;
         } else {
             dbg_printf("(%u) kevent_wait failed", myid);
             goto out;
-- 
2.43.0


From 3528a7191680f85d944d7add1e4b43ee193fb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:14 +0000
Subject: [PATCH 02/34] fix: EV_ADD with EV_DISABLE creates a properly disabled
 registration

The disabled flag was set before the filter's disable function ran, which
made READ/WRITE leave the descriptor in the epoll set and USER fail.
---
 src/common/kevent.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index ffd7e3a..f1ff27c 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~EV_ENABLE;
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE); /* created enabled, disabled below */
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
@@ -216,8 +216,15 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
             if (src->flags & EV_DISABLE) {
-                kn->kev.flags |= EV_DISABLE;
-                return filt->kn_disable(filt, kn);
+                rv = knote_disable(filt, kn);
+                if (rv < 0) {
+                    int err = errno;
+
+                    (void) knote_delete(filt, kn);
+                    errno = err;
+                    *out = NULL;
+                }
+                return (rv);
             }
             //........................................
             return (rv);
-- 
2.43.0


From b6887ae34e189ca587fb37617ae7e6690f6557d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:14 +0000
Subject: [PATCH 03/34] fix: do not report a disabled READ or WRITE
 registration

Read and write registrations on one descriptor share an epoll entry; an
event caused by the enabled one was also reported for the disabled one.
---
 src/linux/platform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index ac69799..cca3201 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -883,7 +883,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
+            if ((kn = fds->fds_read) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
@@ -894,7 +894,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
+            if ((kn = write) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-- 
2.43.0


From b5a9c24022d990e59a1906dd7922e4612e73646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:16 +0000
Subject: [PATCH 04/34] fix: open the surrogate eventfds of regular files
 close-on-exec

---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a769f65..50caedc 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -186,7 +186,7 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
diff --git a/src/linux/write.c b/src/linux/write.c
index d253604..c73dd86 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -105,7 +105,7 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
-- 
2.43.0


From 355507f33f3c4d1817009913fdb4147cc2d32b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:16 +0000
Subject: [PATCH 05/34] fix: modifying a timer takes effect whatever its state

Setting a disabled timer again failed with EBADF and re-enabled it, and a
timer first added with EV_ONESHOT or EV_DISPATCH stayed registered with
EPOLLONESHOT, so that it never fired again.
---
 src/linux/timer.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 2e2082d..396f476 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -158,7 +158,6 @@ evfilt_timer_knote_create(struct filter *filt, struct knote *kn)
     struct itimerspec ts;
     int tfd;
     int flags;
-    int events;
 
     kn->kev.flags |= EV_CLEAR;
 
@@ -182,12 +181,13 @@ evfilt_timer_knote_create(struct filter *filt, struct knote *kn)
         return (-1);
     }
 
-    events = EPOLLIN | EPOLLET;
-    if (kn->kev.flags & (EV_ONESHOT | EV_DISPATCH))
-        events |= EPOLLONESHOT;
-
+    /*
+     * Reading the timerfd in copyout clears it, and the common code
+     * deletes or disables EV_ONESHOT and EV_DISPATCH timers, so there's
+     * no need for epoll to do so.
+     */
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
-    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, tfd, EPOLL_EV_KN(events, kn)) < 0) {
+    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, tfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %d", errno);
         close(tfd);
         return (-1);
@@ -209,12 +209,13 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
     convert_timedata_to_itimerspec(&ts, kev->data, kev->fflags,
                                    kev->flags & EV_ONESHOT);
     flags = (kev->fflags & NOTE_ABSOLUTE) ? TFD_TIMER_ABSTIME : 0;
-    if (timerfd_settime(kn->kn_timerfd, flags, &ts, NULL) < 0) {
+    /* A disabled timer has no timerfd, it's started with the new values when enabled */
+    if (KNOTE_ENABLED(kn) && (timerfd_settime(kn->kn_timerfd, flags, &ts, NULL) < 0)) {
         dbg_printf("timerfd_settime(2): %s", strerror(errno));
         return (-1);
     }
 
-    kn->kev.flags = kev->flags | EV_CLEAR;
+    kn->kev.flags = kev->flags | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
     kn->kev.data = kev->data;
 
-- 
2.43.0


From 76691ada8247df1113a9a5a81fc4896f2a53e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:46 +0000
Subject: [PATCH 06/34] fix: EVFILT_PROC registrations survive modification and
 error paths

Setting a registration again dropped EV_ONESHOT and EV_DISABLE, one
without NOTE_EXIT could not be disabled, enabled or deleted, the pidfd
leaked when it could not be set up, and a child reaped elsewhere made
every later kevent() fail.
---
 src/linux/proc.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ba7d2a2..ab5082f 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -30,7 +30,7 @@ int
 evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     struct knote *src, UNUSED_NDEBUG void *ptr)
 {
-    siginfo_t info;
+    siginfo_t info = { 0 };
     unsigned int status = 0;
 #ifndef NDEBUG
     struct epoll_event * const ev = (struct epoll_event *) ptr;
@@ -42,7 +42,12 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
         dbg_printf("waitid(2): %s", strerror(errno));
-        return (-1);
+        /*
+         *  Something else reaped the process, it's gone
+         *  but there's no way to find out what its status was.
+         */
+        if (errno != ECHILD) return (-1);
+        goto done;
     }
 
     /*
@@ -72,6 +77,7 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
         return (0);
     }
 
+done:
     dst->data = status;
     dst->flags |= EV_EOF; /* Set in macOS and FreeBSD kqueue implementations */
 
@@ -83,6 +89,8 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0);  /* not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, kn->kn_procfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return -1;
@@ -93,6 +101,8 @@ evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_disable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0);  /* not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_DEL, kn->kn_procfd, NULL) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return (-1);
@@ -120,6 +130,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
     }
     if (fcntl(pfd, F_SETFD, FD_CLOEXEC) < 0) {
         dbg_perror("fcntl(2)");
+        (void) close(pfd);
         return (-1);
     }
     dbg_printf("created pidfd=%i monitoring pid=%u", pfd, (unsigned int)kn->kev.ident);
@@ -136,17 +147,31 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    return evfilt_proc_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_enable(filt, kn) < 0)) {
+        (void) close(pfd);
+        kn->kn_procfd = -1;
+        return (-1);
+    }
+
+    return (0);
 }
 
 int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
-    /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = kev->flags;
+    const struct kevent old = kn->kev;
+
+    /*
+     * We don't need to make any changes to the pidfd, just record the new flags,
+     * keeping the ones that were added on creation and whether it's disabled.
+     */
+    kn->kev.flags = kev->flags | (old.flags & (EV_ONESHOT | EV_CLEAR | EV_DISABLE));
     kn->kev.fflags = kev->fflags;
 
-    if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
+    if ((kn->kn_procfd < 0) && (evfilt_proc_knote_create(filt, kn) < 0)) {
+        kn->kev = old;
+        return (-1);
+    }
 
     return (0);
 }
@@ -156,6 +181,8 @@ evfilt_proc_knote_delete(struct filter *filt, struct knote *kn)
 {
     int rv = 0;
 
+    if (kn->kn_procfd < 0) return (0);  /* not monitoring anything */
+
     /* If it's enabled, we need to remove the pidfd from epoll */
     if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_disable(filt, kn) < 0)) rv = -1;
 
-- 
2.43.0


From f1bc9f563290a80277000935e5f436c26a155922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:34 +0000
Subject: [PATCH 07/34] fix: EVFILT_VNODE reports what was asked for, and only
 that

Closing any descriptor of the file removed the registration at the next
event, events with no note set were delivered, NOTE_EXTEND on its own was
never reported, NOTE_DELETE was repeated with every later change,
EV_ONESHOT watches were spent by changes nobody asked for, and link count
and size were stale after EV_ENABLE.
---
 src/linux/vnode.c | 79 +++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3c28575..ce26845 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -97,7 +97,8 @@ get_one_event(struct inotify_event *dst, size_t len, int inofd)
                 continue;
             }
 
-            dbg_perror("read");
+            if (errno != EAGAIN)
+                dbg_perror("read");
             return (-1);
         }
         break;
@@ -119,15 +120,24 @@ add_watch(struct filter *filt, struct knote *kn)
     int ifd;
     char path[PATH_MAX];
     uint32_t mask;
+    struct stat sb;
+
+    /* Changes are relative to when the watch was added */
+    if (fstat(kn->kev.ident, &sb) < 0) {
+        dbg_puts("fstat failed");
+        return (-1);
+    }
+    kn->kn_vnode.nlink = sb.st_nlink;
+    kn->kn_vnode.size = sb.st_size;
 
     /* Convert the fd to a pathname */
     if (linux_fd_to_path(path, sizeof(path), kn->kev.ident) < 0)
         return (-1);
 
     /* Convert the fflags to the inotify mask */
-    mask = IN_CLOSE;
+    mask = IN_DELETE_SELF;  /* the mask can't be empty */
     if (kn->kev.fflags & NOTE_DELETE)
-        mask |= IN_ATTRIB | IN_DELETE_SELF;
+        mask |= IN_ATTRIB;
     if (kn->kev.fflags & NOTE_WRITE)
         mask |= IN_MODIFY | IN_ATTRIB;
     if (kn->kev.fflags & NOTE_EXTEND)
@@ -137,11 +147,9 @@ add_watch(struct filter *filt, struct knote *kn)
         mask |= IN_ATTRIB;
     if (kn->kev.fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
-    if (kn->kev.flags & EV_ONESHOT)
-        mask |= IN_ONESHOT;
 
     /* Create an inotify descriptor */
-    ifd = inotify_init1(IN_CLOEXEC);
+    ifd = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
     if (ifd < 0) {
         if ((errno == EMFILE) || (errno == ENFILE)) {
             dbg_perror("inotify_init(2) fd_used=%u fd_max=%u", get_fd_used(), get_fd_limit());
@@ -202,26 +210,14 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     uint8_t buf[sizeof(struct inotify_event) + NAME_MAX + 1] __attribute__ ((aligned(__alignof__(struct inotify_event))));
     struct inotify_event *evt;
     struct stat sb;
+    uint32_t mask = 0;
 
+    /* Merge everything that happened since the last call */
     evt = (struct inotify_event *)buf;
-    if (get_one_event(evt, sizeof(buf), src->kn_vnode.inotifyfd) < 0)
-        return (-1);
-
-    dbg_printf("inotify event: %s", inotify_event_dump(evt));
-    if (evt->mask & IN_IGNORED) {
+    while (get_one_event(evt, sizeof(buf), src->kn_vnode.inotifyfd) == 0) {
+        dbg_printf("inotify event: %s", inotify_event_dump(evt));
+        mask |= evt->mask;
         /* TODO: possibly return error when fs is unmounted */
-        dst->filter = 0;
-        return (0);
-    }
-
-    /* Check if the watched file has been closed, and
-       XXX-this may not exactly match the kevent() behavior if multiple file de
-scriptors reference the same file.
-    */
-    if (evt->mask & IN_CLOSE_WRITE || evt->mask & IN_CLOSE_NOWRITE) {
-        src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
-        dst->filter = 0; /* KLUDGE: causes the event to be discarded */
-        return (0);
     }
 
     memcpy(dst, &src->kev, sizeof(*dst));
@@ -230,12 +226,13 @@ scriptors reference the same file.
 
     /* No error checking because fstat(2) should rarely fail */
     //FIXME: EINTR
-    if (fstat(src->kev.ident, &sb) < 0 && errno == ENOENT) {
-        if (src->kev.fflags & NOTE_DELETE)
+    if (fstat(src->kev.ident, &sb) < 0) {
+        if (errno == ENOENT && src->kev.fflags & NOTE_DELETE)
             dst->fflags |= NOTE_DELETE;
     } else {
-        if ((evt->mask & IN_ATTRIB || evt->mask & IN_MODIFY)) {
-            if (sb.st_nlink == 0 && src->kev.fflags & NOTE_DELETE)
+        if ((mask & IN_ATTRIB || mask & IN_MODIFY)) {
+            if (sb.st_nlink == 0 && src->kn_vnode.nlink != 0 &&
+                src->kev.fflags & NOTE_DELETE)
                 dst->fflags |= NOTE_DELETE;
             if (sb.st_nlink != src->kn_vnode.nlink &&
                 src->kev.fflags & NOTE_LINK)
@@ -245,21 +242,29 @@ scriptors reference the same file.
                 dst->fflags |= NOTE_TRUNCATE;
 #endif
             if (sb.st_size > src->kn_vnode.size &&
-                src->kev.fflags & NOTE_WRITE)
+                src->kev.fflags & (NOTE_WRITE | NOTE_EXTEND))
                 dst->fflags |= NOTE_EXTEND;
             src->kn_vnode.nlink = sb.st_nlink;
             src->kn_vnode.size = sb.st_size;
         }
     }
 
-    if (evt->mask & IN_MODIFY && src->kev.fflags & NOTE_WRITE)
+    if (mask & IN_MODIFY && src->kev.fflags & NOTE_WRITE)
         dst->fflags |= NOTE_WRITE;
-    if (evt->mask & IN_ATTRIB && src->kev.fflags & NOTE_ATTRIB)
+    if (mask & IN_ATTRIB && src->kev.fflags & NOTE_ATTRIB)
         dst->fflags |= NOTE_ATTRIB;
-    if (evt->mask & IN_MOVE_SELF && src->kev.fflags & NOTE_RENAME)
+    if (mask & IN_MOVE_SELF && src->kev.fflags & NOTE_RENAME)
         dst->fflags |= NOTE_RENAME;
-    if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
-        dst->fflags |= NOTE_DELETE;
+    if (mask & IN_DELETE_SELF && src->kn_vnode.nlink != 0) {
+        if (src->kev.fflags & NOTE_DELETE)
+            dst->fflags |= NOTE_DELETE;
+        src->kn_vnode.nlink = 0;
+    }
+
+    if (dst->fflags == 0) {
+        dst->filter = 0; /* Nothing the caller asked for, discard it */
+        return (0);
+    }
 
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
 
@@ -269,14 +274,6 @@ scriptors reference the same file.
 int
 evfilt_vnode_knote_create(struct filter *filt, struct knote *kn)
 {
-    struct stat sb;
-
-    if (fstat(kn->kev.ident, &sb) < 0) {
-        dbg_puts("fstat failed");
-        return (-1);
-    }
-    kn->kn_vnode.nlink = sb.st_nlink;
-    kn->kn_vnode.size = sb.st_size;
     kn->kev.data = -1;
 
     return (add_watch(filt, kn));
-- 
2.43.0


From a8951393c8ce6a30b4d5e2736968ce60e961071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:28 +0000
Subject: [PATCH 08/34] fix: kevent() no longer returns before its timeout
 without an event

When every event harvested was spurious, or another thread consumed the
cause between ppoll() and epoll_wait(), kevent() returned 0 at once, even
without a timeout.
---
 src/common/kevent.c | 66 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index f1ff27c..0d45475 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -346,6 +346,36 @@ kevent_release_kq_mutex(void *arg)
 }
 #endif
 
+#ifndef _WIN32
+/** Calculate how much of a timeout is left
+ *
+ * @param[out] left      of the timeout.
+ * @param[in] timeout    originally asked for.
+ * @param[in] start      when the wait began.
+ * @return whether there's any time left.
+ */
+static bool
+kevent_timeout_left(struct timespec *left, const struct timespec *timeout, const struct timespec *start)
+{
+    struct timespec now;
+
+    if (clock_gettime(CLOCK_MONOTONIC, &now) < 0)
+        return (false);
+
+    left->tv_sec = timeout->tv_sec - (now.tv_sec - start->tv_sec);
+    left->tv_nsec = timeout->tv_nsec - (now.tv_nsec - start->tv_nsec);
+    if (left->tv_nsec < 0) {
+        left->tv_sec--;
+        left->tv_nsec += 1000000000;
+    } else if (left->tv_nsec >= 1000000000) {
+        left->tv_sec++;
+        left->tv_nsec -= 1000000000;
+    }
+
+    return (left->tv_sec > 0 || (left->tv_sec == 0 && left->tv_nsec > 0));
+}
+#endif
+
 int VISIBLE
 kevent(int kqfd,
        const struct kevent changelist[], int nchanges,
@@ -358,6 +388,8 @@ kevent(int kqfd,
     int rv = 0;
 #ifndef _WIN32
     int prev_cancel_state;
+    const struct timespec *wait_for;
+    struct timespec start, left;
 #endif
 #ifndef NDEBUG
     static atomic_uint _kevent_counter = 0;
@@ -453,32 +485,46 @@ kevent(int kqfd,
          * to exit...
          */
 #ifndef _WIN32
+        wait_for = timeout;
+        if (timeout && clock_gettime(CLOCK_MONOTONIC, &start) < 0)
+            goto out;
+    wait:
         (void)pthread_setcancelstate(prev_cancel_state, NULL);
         if (prev_cancel_state == PTHREAD_CANCEL_ENABLE) {
             dbg_printf("Checking for deferred cancellations");
             pthread_testcancel();
         }
-#endif
-        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
-#ifndef _WIN32
+        rv = kqops.kevent_wait(kq, el_end - el_p, wait_for);
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
+#else
+        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
 #endif
         dbg_printf("kqops.kevent_wait rv=%i", rv);
         if (likely(rv > 0)) {
             rv = kqops.kevent_copyout(kq, rv, el_p, el_end - el_p);
             dbg_printf("(%u) kevent_copyout rv=%i", myid, rv);
-            if (rv >= 0) {
-                el_p += rv;             /* Add events from copyin */
-                rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
+        }
+#ifndef _WIN32
+        /*
+         * Nothing the caller is interested in has happened
+         * yet, carry on unless it's really time to return.
+         */
+        if (rv == 0 && el_p == eventlist) {
+            if (!timeout)
+                goto wait;
+            if (kevent_timeout_left(&left, timeout, &start)) {
+                wait_for = &left;
+                goto wait;
             }
-        } else if (rv == 0 || el_p > eventlist) {
-            /* Timeout reached, there may still be entries from copyin to return */
             dbg_printf("(%u) kevent_wait timedout", myid);
-            rv = el_p - eventlist;
-        } else {
+        }
+#endif
+        if (rv < 0 && el_p == eventlist) {
             dbg_printf("(%u) kevent_wait failed", myid);
             goto out;
         }
+        if (rv > 0) el_p += rv;     /* Add events from copyout */
+        rv = el_p - eventlist;      /* recalculate rv to be the total events in the eventlist */
     /*
      * If we have no space, return how many kevents
      * were added by copyin.
-- 
2.43.0


From 7577da90d79f4936cceeb856bd3d8e47e7a96084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:28 +0000
Subject: [PATCH 09/34] fix: timeouts of more than INT_MAX milliseconds
 overflowed

---
 src/linux/platform.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index cca3201..0dc3b05 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -23,6 +23,7 @@
 #include <sys/resource.h>
 
 #include "../common/private.h"
+#include <limits.h>
 
 #define MONITORING_THREAD_SIGNAL  (SIGRTMIN + 1)
 
@@ -675,6 +676,8 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
         /* Convert timeout to the format used by epoll_wait() */
         if (ts == NULL)
             timeout = -1;
+        else if (ts->tv_sec >= INT_MAX / 1000)
+            timeout = (INT_MAX / 1000) * 1000;  /* kevent() waits again for the rest */
         else
             timeout = (1000 * ts->tv_sec) + (ts->tv_nsec / 1000000);
     }
-- 
2.43.0


From 285130bffea828989550ee956be24bede1685725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 10/34] fix: a spurious event no longer hides others that are
 ready

With little room in the event list the one event harvested could be a
spurious one, and kevent() returned nothing although others were due.  A
failure to copy out the first event is now reported instead of returning 0.
---
 src/common/kevent.c  |  9 +++++++--
 src/linux/platform.c | 13 +++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 0d45475..9b26043 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -388,6 +388,7 @@ kevent(int kqfd,
     int rv = 0;
 #ifndef _WIN32
     int prev_cancel_state;
+    int nready;
     const struct timespec *wait_for;
     struct timespec start, left;
 #endif
@@ -494,7 +495,7 @@ kevent(int kqfd,
             dbg_printf("Checking for deferred cancellations");
             pthread_testcancel();
         }
-        rv = kqops.kevent_wait(kq, el_end - el_p, wait_for);
+        rv = nready = kqops.kevent_wait(kq, el_end - el_p, wait_for);
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
 #else
         rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
@@ -509,13 +510,17 @@ kevent(int kqfd,
          * Nothing the caller is interested in has happened
          * yet, carry on unless it's really time to return.
          */
-        if (rv == 0 && el_p == eventlist) {
+        if (rv == 0 && (nready > 0 || el_p == eventlist)) {
             if (!timeout)
                 goto wait;
             if (kevent_timeout_left(&left, timeout, &start)) {
                 wait_for = &left;
                 goto wait;
             }
+            if (nready > 0) { /* there may be others that aren't spurious */
+                wait_for = &no_wait;
+                goto wait;
+            }
             dbg_printf("(%u) kevent_wait timedout", myid);
         }
 #endif
diff --git a/src/linux/platform.c b/src/linux/platform.c
index 0dc3b05..73bc589 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -862,7 +862,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             }
 
             rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-            if (rv < 0) goto done;
+            if (rv < 0) goto err;
             el_p += rv;
         }
             break;
@@ -890,7 +890,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-                if (rv < 0) goto done;
+                if (rv < 0) goto err;
                 el_p += rv;
             }
 
@@ -901,7 +901,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-                if (rv < 0) goto done;
+                if (rv < 0) goto err;
                 el_p += rv;
             }
         }
@@ -914,7 +914,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             assert(efd);
 
             rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, efd->ef_filt, NULL);
-            if (rv < 0) goto done;
+            if (rv < 0) goto err;
             el_p += rv;
             break;
         }
@@ -927,6 +927,11 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             return (-1);
         }
     }
+    goto done;
+
+err:
+    if (el_p == el)
+        return (-1);
 
 done:
     return el_p - el;
-- 
2.43.0


From 560063c1eb8fc219d99d85e4a03c20d1120f0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:57 +0000
Subject: [PATCH 11/34] fix: adding an EVFILT_VNODE watch no longer races with
 a rename

The descriptor was resolved to a name first, so that a concurrent rename
made the registration fail or watch another file.
---
 src/linux/vnode.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index ce26845..4d507be 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -118,7 +118,7 @@ static int
 add_watch(struct filter *filt, struct knote *kn)
 {
     int ifd;
-    char path[PATH_MAX];
+    char path[64];
     uint32_t mask;
     struct stat sb;
 
@@ -130,9 +130,11 @@ add_watch(struct filter *filt, struct knote *kn)
     kn->kn_vnode.nlink = sb.st_nlink;
     kn->kn_vnode.size = sb.st_size;
 
-    /* Convert the fd to a pathname */
-    if (linux_fd_to_path(path, sizeof(path), kn->kev.ident) < 0)
-        return (-1);
+    /*
+     * Watch the file the fd refers to, whatever its name is now.
+     * Looking up its name first would race with renames.
+     */
+    snprintf(path, sizeof(path), "/proc/%d/fd/%d", getpid(), (int)kn->kev.ident);
 
     /* Convert the fflags to the inotify mask */
     mask = IN_DELETE_SELF;  /* the mask can't be empty */
-- 
2.43.0


From 388e82483d3277ab726169691e32a6f6425ebb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 12/34] fix: EV_ONESHOT, EV_DISPATCH and EV_DISABLE work for
 regular files

EVFILT_READ on a regular file ignored EV_ONESHOT and EV_DISPATCH except
for spending the epoll entry, and could not be disabled once the end of
file had been reached.
---
 src/linux/read.c  | 18 ++++--------------
 src/linux/write.c |  7 -------
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 50caedc..b37c31d 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -99,8 +99,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             }
             /* FIXME: race here, should we check the EOF status again ? */
 #endif
+            return (0);
         }
 
+        if (knote_copyout_flag_actions(filt, src) < 0) return -1;
+
         return (1);
     }
 
@@ -172,19 +175,6 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
     if (kn->kn_flags & KNFL_FILE) {
         int evfd;
 
-        /*
-         * We only set oneshot for cases where we're not going to
-         * be using EPOLL_CTL_MOD.
-         *
-         * We rely on the common code disabling the event after
-         * it's fired once.
-         *
-         * See this SO post for details:
-         * https://stackoverflow.com/questions/59517961/how-should-i-use-epoll-to-read-and-write-from-the-same-fd
-         */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
-            kn->epoll_events |= EPOLLONESHOT;
-
         kn->kn_epollfd = filter_epoll_fd(filt);
         evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
@@ -270,7 +260,7 @@ int
 evfilt_read_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
diff --git a/src/linux/write.c b/src/linux/write.c
index c73dd86..4d99561 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -97,13 +97,6 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
         if (kn->kev.flags & EV_CLEAR)
             kn->epoll_events |= EPOLLET;
 
-        /*
-         * We only set oneshot for cases where we're not going to
-         * be using EPOLL_CTL_MOD.
-         */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
-            kn->epoll_events |= EPOLLONESHOT;
-
         kn->kn_epollfd = filter_epoll_fd(filt);
         evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
-- 
2.43.0


From f0ff6af2c46d01cdd183caac13404333c2886e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:10 +0000
Subject: [PATCH 13/34] fix: changes that are not supported fail with an errno

The error entry carried whatever errno happened to be, including 0 which
looks like a receipt for success.
---
 src/common/libkqueue.c | 1 +
 src/linux/read.c       | 2 +-
 src/linux/vnode.c      | 1 +
 src/linux/write.c      | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/libkqueue.c b/src/common/libkqueue.c
index 97223a4..46941f0 100644
--- a/src/common/libkqueue.c
+++ b/src/common/libkqueue.c
@@ -79,6 +79,7 @@ common_libkqueue_knote_create(struct filter *filt, struct knote *kn)
         break;
 #endif
     default:
+        errno = EINVAL;
         return (-1);
     }
 
diff --git a/src/linux/read.c b/src/linux/read.c
index b37c31d..fb73a1a 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -218,9 +218,9 @@ evfilt_read_knote_modify(UNUSED struct filter *filt, struct knote *kn,
          */
         if ((kev->flags & EV_CLEAR))
             return (0);
-        return (-1);
     }
 
+    errno = ENOSYS;
     return (-1);
 }
 
diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 4d507be..cf8cdc7 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -288,6 +288,7 @@ evfilt_vnode_knote_modify(struct filter *filt, struct knote *kn,
     (void)filt;
     (void)kn;
     (void)kev;
+    errno = ENOSYS;
     return (-1); /* FIXME - STUB */
 }
 
diff --git a/src/linux/write.c b/src/linux/write.c
index 4d99561..f45a482 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -156,9 +156,9 @@ evfilt_write_knote_modify(UNUSED struct filter *filt, struct knote *kn,
          */
         if ((kev->flags & EV_CLEAR))
             return (0);
-        return (-1);
     }
 
+    errno = ENOSYS;
     return (-1);
 }
 
-- 
2.43.0


From d9cce2633e56f610db6e09b760c1fcb80cbbb7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:10 +0000
Subject: [PATCH 14/34] fix: close the eventfd of an EVFILT_USER registration
 that failed

---
 src/linux/user.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linux/user.c b/src/linux/user.c
index a24d0e9..345e8ed 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -120,7 +120,6 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
         } else {
             dbg_perror("eventfd(2)");
         }
-        close(evfd);
         kn->kn_eventfd = -1;
         return (-1);
     }
@@ -129,8 +128,11 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
     kn->kn_eventfd = evfd;
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (KNOTE_ENABLED(kn))
-        return linux_evfilt_user_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (linux_evfilt_user_knote_enable(filt, kn) < 0)) {
+        (void) close(evfd);
+        kn->kn_eventfd = -1;
+        return (-1);
+    }
 
     return (0);
 }
-- 
2.43.0


From 89594cff369d2eb2994713bb66cd4b8bc2ef32ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:10 +0000
Subject: [PATCH 15/34] fix: EVFILT_WRITE stored the queue length in half of
 the data field

---
 src/linux/write.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linux/write.c b/src/linux/write.c
index f45a482..266a232 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -61,10 +61,15 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     }
 
     /* On return, data contains the the amount of space remaining in the write buffer */
-    if (!(dst->flags & EV_EOF) && (ioctl(dst->ident, SIOCOUTQ, &dst->data) < 0)) {
+    if (!(dst->flags & EV_EOF)) {
+        int i;
+
+        if (ioctl(dst->ident, SIOCOUTQ, &i) < 0) {
             /* race condition with socket close, so ignore this error */
             dbg_puts("ioctl(2) of socket failed");
-            dst->data = 0;
+            i = 0;
+        }
+        dst->data = i;
     }
 
 done:
-- 
2.43.0


From 563d012c38c0bf83319de88c6aa458ebde2581c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 16/34] fix: READ and WRITE on one descriptor keep each other's
 options

The epoll entry shared by both was registered with the options of
whichever was changed last: EPOLLRDHUP was lost when EVFILT_WRITE was
added or changed, and an entry became edge triggered when only one of
the two asked for EV_CLEAR, losing events of the other.  An edge
triggered event that did not fit into the event list was lost, too.
---
 src/linux/platform.c | 54 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 73bc589..4975f3a 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -821,6 +821,8 @@ epoll_event_dump(const struct epoll_event *ev)
     return ((const char *) buf);
 }
 
+static void epoll_fd_rearm(struct kqueue *kq, struct fd_state *fds);
+
 int
 linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int nevents)
 {
@@ -858,6 +860,11 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             if (el_p >= el_end) {
             oos:
                 dbg_printf("no more available kevent slots, used %zu", el_p - el);
+                for (; i < nready; i++) {
+                    epoll_udata = epoll_events[i].data.ptr;
+                    if (epoll_udata && epoll_udata->ud_type == EPOLL_UDATA_FD_STATE)
+                        epoll_fd_rearm(kq, epoll_udata->ud_fds);
+                }
                 goto done;
             }
 
@@ -1418,6 +1425,52 @@ epoll_fd_registered(struct filter *filt, struct knote *kn)
 
     return true;
 }
+
+/** Determine which events and options a file descriptor should be registered with
+ *
+ * @param[in] fds         the existing associations, may be NULL.
+ * @param[in] kn          being associated, may be NULL.
+ * @param[in] ev          wanted, EPOLLIN and/or EPOLLOUT.
+ * @return The events with the options of the knotes that want them.
+ *         As the knotes share the registration, it can only be edge
+ *         triggered if that's what all of them asked for.
+ */
+static uint32_t
+epoll_fd_events(struct fd_state *fds, struct knote *kn, int ev)
+{
+    struct knote *kns[2] = { NULL, NULL };
+    uint32_t events = ev, common = ~0U;
+    size_t i;
+
+    if (ev & EPOLLIN) kns[0] = (fds && fds->fds_read) ? fds->fds_read : kn;
+    if (ev & EPOLLOUT) kns[1] = (fds && fds->fds_write) ? fds->fds_write : kn;
+
+    for (i = 0; i < NUM_ELEMENTS(kns); i++) {
+        if (!kns[i]) continue;
+        events |= kns[i]->epoll_events;
+        common &= kns[i]->epoll_events;
+    }
+    if (!(common & EPOLLET)) events &= ~EPOLLET;
+
+    return (events);
+}
+
+/** Have a file descriptor that's ready reported again, even if it's edge triggered
+ */
+static void
+epoll_fd_rearm(struct kqueue *kq, struct fd_state *fds)
+{
+    int ev = 0;
+
+    if (fds->fds_read && KNOTE_ENABLED(fds->fds_read)) ev |= EPOLLIN;
+    if (fds->fds_write && KNOTE_ENABLED(fds->fds_write)) ev |= EPOLLOUT;
+    if (!ev) return;
+
+    if (epoll_ctl(kq->epollfd, EPOLL_CTL_MOD, fds->fds_fd,
+                  EPOLL_EV_FDS(epoll_fd_events(fds, NULL, ev), fds)) < 0)
+        dbg_perror("epoll_ctl(2)");
+}
+
 int
 epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
 {
@@ -1493,6 +1546,7 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
      * We only want the read/write flags for comparisons.
      */
     want_ev = EV_EPOLLINOUT(want);
+    want = epoll_fd_events(fds, kn, want_ev);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
         epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
-- 
2.43.0


From bf1cdd36d07e8d375d986a5ded7f5833d817ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:23 +0000
Subject: [PATCH 17/34] fix: no EV_EOF for a stream another thread has just
 drained

EPOLLRDHUP tells whether the peer is gone; having no bytes queued does
not, as another thread may have read them since epoll_wait().
---
 src/linux/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linux/read.c b/src/linux/read.c
index fb73a1a..84c8ce0 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -146,8 +146,10 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             dst->data = 0;
         } else {
             dst->data = i;
+#if !defined(HAVE_EPOLLRDHUP)
             if (dst->data == 0 && src->kn_flags & KNFL_SOCKET_STREAM)
                 dst->flags |= EV_EOF;
+#endif
         }
     }
 
-- 
2.43.0


From 72c8d0e9ee7faa7618bd82b01b4c73dd1c55de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:23 +0000
Subject: [PATCH 18/34] fix: fail a registration when its fd_state cannot be
 allocated

epoll_update() went on with a NULL fd_state.
---
 src/linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 4975f3a..c3f25d5 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1549,7 +1549,7 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     want = epoll_fd_events(fds, kn, want_ev);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
-        epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
+        if (epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev) < 0) return (-1);
     }
     else if (have_ev && !want_ev)       /* We have events registered but don't want any */
         opn = EPOLL_CTL_DEL;
-- 
2.43.0


From 62a7ee3938fb6bc667ace8812de99f79bc6b61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:23 +0000
Subject: [PATCH 19/34] fix: deleting a registration whose descriptor number
 was reused

epoll_ctl() then fails with ENOENT (or EPERM for a regular file) instead
of EBADF; the registration could not be deleted any more.
---
 src/linux/platform.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index c3f25d5..77fccfd 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1576,9 +1576,10 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         case EPOLL_CTL_MOD:
             /*
              * File descriptor went away and we weren't notified
-             * not necessarily an error.
+             * not necessarily an error.  Its number may have
+             * been reused for something that's not registered.
              */
-            if (errno == EBADF) {
+            if ((errno == EBADF) || (errno == ENOENT) || (errno == EPERM)) {
                 int kn_ev = 0;
 
                 if (kn == fds->fds_read) {
-- 
2.43.0


From dd351ed48ef1a0f345fb307034c412103dee842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:24 +0000
Subject: [PATCH 20/34] fix: map bounds are exclusive, and a failed deletion
 returns NULL

---
 src/common/map.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/map.c b/src/common/map.c
index 991cda5..ef4ecbf 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -58,7 +58,7 @@ map_new(size_t len)
 int
 map_insert(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), NULL, ptr)) {
@@ -74,7 +74,7 @@ map_insert(struct map *m, int idx, void *ptr)
 int
 map_remove(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), ptr, NULL)) {
@@ -89,7 +89,7 @@ map_remove(struct map *m, int idx, void *ptr)
 int
 map_replace(struct map *m, int idx, void *oldp, void *newp)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), oldp, newp)) {
@@ -105,7 +105,7 @@ map_replace(struct map *m, int idx, void *oldp, void *newp)
 void *
 map_lookup(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
         return (NULL);
 
     return (void *)atomic_ptr_load(&m->data[idx]);
@@ -114,8 +114,8 @@ map_lookup(struct map *m, int idx)
 void *
 map_delete(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
-           return ((void *)-1);
+    if (unlikely(idx < 0 || (size_t)idx >= m->len))
+           return (NULL);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
 }
-- 
2.43.0


From 4db4ac8dfdebb7dfbdc5c72c95c1791ef7d3da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 21/34] fix: kqueue() cleans up and reports an errno when the
 monitoring thread can't be started

---
 src/common/kqueue.c  |  6 +++++-
 src/linux/platform.c | 44 ++++++++++++++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c532258..9497627 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -364,8 +364,12 @@ kqueue(void)
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
-    if (kq == NULL)
+    if (kq == NULL) {
+#ifndef _WIN32
+        pthread_setcancelstate(prev_cancel_state, NULL);
+#endif
         return (-1);
+    }
 
     tracing_mutex_init(&kq->kq_mtx, NULL);
 
diff --git a/src/linux/platform.c b/src/linux/platform.c
index 77fccfd..66446c7 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -42,6 +42,15 @@ static pid_t monitoring_tid; /* Monitoring thread */
 static pthread_mutex_t monitoring_thread_mtx = PTHREAD_MUTEX_INITIALIZER;
 static pthread_cond_t monitoring_thread_cond = PTHREAD_COND_INITIALIZER;
 
+/*
+ * Outcome of starting the monitoring thread, protected by monitoring_thread_mtx
+ */
+static enum {
+    THREAD_START_PENDING = 0,
+    THREAD_START_OK,
+    THREAD_START_FAILED
+} monitoring_thread_start;
+
 enum thread_exit_state {
     THREAD_EXIT_STATE_SELF_CANCEL = 0,
     THREAD_EXIT_STATE_CANCEL_LOCKED,
@@ -235,6 +244,7 @@ monitoring_thread_loop(UNUSED void *arg)
 {
     int res = 0;
     siginfo_t info;
+    pid_t tid;
 
     int i;
 
@@ -255,13 +265,17 @@ monitoring_thread_loop(UNUSED void *arg)
     sigemptyset(&monitoring_sig_set);
     sigaddset(&monitoring_sig_set, MONITORING_THREAD_SIGNAL);
 
-    monitoring_tid = syscall(SYS_gettid);
+    tid = syscall(SYS_gettid);
 
-    dbg_printf("tid=%u - monitoring thread started", monitoring_tid);
+    dbg_printf("tid=%u - monitoring thread started", tid);
 
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
     error:
+        pthread_mutex_lock(&monitoring_thread_mtx);
+        monitoring_thread_start = THREAD_START_FAILED;
+        pthread_cond_signal(&monitoring_thread_cond);
+        pthread_mutex_unlock(&monitoring_thread_mtx);
         return NULL;
     }
     for (i = 0; i < nb_max_fd; i++)
@@ -270,17 +284,21 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
     if (fd_use_cnt == NULL){
         free(fd_map);
+        fd_map = NULL;
         goto error;
     }
 
+    monitoring_tid = tid;
+    monitoring_thread_state = THREAD_EXIT_STATE_CANCEL_UNLOCKED;
+
     /*
      * Now that thread is initialized, let kqueue init resume
      */
     pthread_mutex_lock(&monitoring_thread_mtx);    /* Must try to lock to ensure parent is waiting on signal */
+    monitoring_thread_start = THREAD_START_OK;
     pthread_cond_signal(&monitoring_thread_cond);
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
-    monitoring_thread_state = THREAD_EXIT_STATE_CANCEL_UNLOCKED;
     pthread_cleanup_push(monitoring_thread_cleanup, NULL)
     while (true) {
         /*
@@ -336,17 +354,30 @@ monitoring_thread_loop(UNUSED void *arg)
 static int
 linux_kqueue_start_thread(void)
 {
+    int ret;
+
     pthread_mutex_lock(&monitoring_thread_mtx);
-    if (pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL)) {
+    monitoring_thread_start = THREAD_START_PENDING;
+    ret = pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL);
+    if (ret != 0) {
+         errno = ret;
          dbg_perror("linux_kqueue_start_thread failure");
          pthread_mutex_unlock(&monitoring_thread_mtx);
 
          return (-1);
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
-    pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    while (monitoring_thread_start == THREAD_START_PENDING)
+        pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    ret = monitoring_thread_start;
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
+    if (ret == THREAD_START_FAILED) {
+        pthread_join(monitoring_thread, NULL);
+        errno = ENOMEM;
+        return (-1);
+    }
+
     return (0);
 }
 
@@ -482,6 +513,8 @@ linux_kqueue_init(struct kqueue *kq)
 
     if (filter_register_all(kq) < 0) {
     error:
+        filter_unregister_all(kq);      /* noop if they're not registered */
+
         if (close(kq->epollfd) < 0)
             dbg_perror("close(2)");
         kq->epollfd = -1;
@@ -554,7 +587,6 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From f1c810c5e3d32670227cd3272888f1a251c5de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 22/34] fix: a cancelled thread doesn't lose the events its
 kevent() call retrieved

---
 src/common/kevent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 9b26043..4d1a9de 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -554,9 +554,13 @@ out:
     /*
      *  Test for cancellations first, so we don't
      *  double unlock the kqueue.
+     *
+     *  If there's something to return then it's been
+     *  taken from the kqueue and would be lost, so
+     *  leave the cancellation to a later call.
      */
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE) {
+    if ((prev_cancel_state == PTHREAD_CANCEL_ENABLE) && (rv <= 0)) {
         dbg_printf("Checking for deferred cancellations");
         pthread_testcancel();
     }
-- 
2.43.0


From d4e5a309fa158442cf70645c8e2f661192bfce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 23/34] fix: kqueue() releases everything when the new kqueue
 can't be set up

---
 src/common/kqueue.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 9497627..840e8fb 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -382,7 +382,9 @@ kqueue(void)
      * the new KQ.
      */
     tracing_mutex_lock(&kq_mtx);
+    kqueue_lock(kq);    /* Needed to release filters on error */
     if (kqops.kqueue_init(kq) < 0) {
+        kqueue_unlock(kq);
         tracing_mutex_unlock(&kq_mtx);
     error:
         dbg_printf("kq=%p - init failed", kq);
@@ -401,11 +403,15 @@ kqueue(void)
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
         filter_unregister_all(kq);
+        kqops.kqueue_free(kq);
+        kqueue_unlock(kq);
         tracing_mutex_unlock(&kq_mtx);
+        errno = EMFILE;
         goto error;
     }
     LIST_INSERT_HEAD(&kq_list, kq, kq_entry);
     kq_cnt++;
+    kqueue_unlock(kq);
     tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
     pthread_setcancelstate(prev_cancel_state, NULL);
-- 
2.43.0


From 50c96def9e4a054939837e6d5d1964b389496131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:39 +0000
Subject: [PATCH 24/34] fix: a stale close notification doesn't free a kqueue
 that is open

---
 src/linux/platform.c | 165 +++++++++++++++++--------------------------
 1 file changed, 65 insertions(+), 100 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 66446c7..94c5353 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -66,23 +66,37 @@ static enum thread_exit_state monitoring_thread_state;
  * Map for kqueue pipes where index is the read side (for which signals are received)
  * and value is the write side that gets closed and corresponds to the kqueue id.
  *
- * @note Values in the fd_map are never cleared, as we still need to decrement
- * fd_use_cnt when signals for a particular FD are received.
+ * @note Values in the fd_map are never cleared, so may refer to kqueues that are
+ * long gone.
  */
 static int *fd_map;
 
-/*
- * Map kqueue id to counter for kq cleanups.
- * When use counter is at 0, cleanup can be performed by signal handler.
- * Otherwise, it means cleanup was already performed for this FD in linux_kqueue_reused.
- */
-static unsigned int *fd_use_cnt;
-
 static int nb_max_fd;
 
 static void
 linux_kqueue_free(struct kqueue *kq);
 
+/** Determine if the application still has a kqueue open
+ *
+ * The number alone doesn't tell, as it may have been reused for
+ * something else, so check that it's still our pipe.
+ *
+ * @note Only calls async-signal-safe functions.
+ */
+static bool
+linux_kqueue_is_open(struct kqueue *kq)
+{
+    struct stat rd, wr;
+
+    if ((kq->pipefd[0] < 0) || (kq->pipefd[1] < 0))
+        return (false);
+
+    if ((fstat(kq->pipefd[0], &rd) < 0) || (fstat(kq->pipefd[1], &wr) < 0))
+        return (false);
+
+    return ((rd.st_dev == wr.st_dev) && (rd.st_ino == wr.st_ino));
+}
+
 static void
 monitoring_thread_cleanup(UNUSED void *arg)
 {
@@ -130,26 +144,11 @@ monitoring_thread_cleanup(UNUSED void *arg)
              * been freed by the user application before it exited.
              */
             dbg_printf("kq=%p - fd=%i explicitly checking for closeure", kq, kq->kq_id);
-            if (fcntl(kq->kq_id, F_GETFD) < 0) {
-                dbg_printf("kq=%p - fd=%i forcefully cleaning up, current use_count=%u: %s",
-                           kq,
-                           kq->kq_id, fd_use_cnt[kq->kq_id],
-                           errno == EBADF ? "File descriptor already closed" : strerror(errno));
-                fd_use_cnt[kq->kq_id] = 0;
-            } else {
-                /*
-                 * If there's no use cnt for the kqueue then something
-                 * has gone very wrong.
-                 */
-                assert(fd_use_cnt[kq->kq_id] > 0);
-            }
-
-            if (fd_use_cnt[kq->kq_id] == 0) {
-                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+            if (!linux_kqueue_is_open(kq)) {
+                dbg_printf("kq=%p - fd=%i cleaning up...", kq, kq->kq_id);
                 kqueue_free(kq);
             } else {
-                dbg_printf("kq=%p - fd=%i is alive use_count=%u.  Skipping, this is likely a leak...",
-                           kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+                dbg_printf("kq=%p - fd=%i is alive.  Skipping, this is likely a leak...", kq, kq->kq_id);
             }
         }
 
@@ -163,8 +162,6 @@ monitoring_thread_cleanup(UNUSED void *arg)
     /* Free thread resources */
     free(fd_map);
     fd_map = NULL;
-    free(fd_use_cnt);
-    fd_use_cnt = NULL;
 
     /* Reset so that thread can be restarted */
     monitoring_tid = 0;
@@ -184,6 +181,14 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
     int fd;
     struct kqueue *kq;
 
+    /*
+     * Others may send the signal, too
+     */
+    if ((signal_fd < 0) || (signal_fd >= nb_max_fd)) {
+        dbg_printf("fd=%i - not an FD", signal_fd);
+        return;
+    }
+
     /*
      * Signal is received for read side of pipe
      * Get FD for write side as it's the kqueue identifier
@@ -195,45 +200,22 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
         return;
     }
 
-    kq = kqueue_lookup(fd);
-    if (!kq) {
-        /* Should not happen */
-        dbg_printf("fd=%i - no kqueue associated", fd);
-        assert(0);
-        return;
-    }
-
-    /*
-     * We should never have more pending signals than we have
-     * allocated kqueues against a given ID.
-     */
-    assert(fd_use_cnt[kq->kq_id] > 0);
-
-    /*
-     * Decrement use counter as signal handler has been run for
-     * this FD.  We rely on using an RT signal so that multiple
-     * signals are queued.
-     *
-     * Use count is tracked with the kq_id.
-     */
-    fd_use_cnt[kq->kq_id]--;
-
     /*
-     * If kqueue instance for this FD hasn't been cleaned up yet
-     *
-     * When the main kqueue code frees a kq, the file descriptor
-     * of the kq often gets reused.
+     * When the FD of a kqueue that has been closed is reused for
+     * another kqueue, the former is freed straight away, and its
+     * FDs may be reused in turn, all before we process the signal.
      *
-     * We maintain a count of how many allocations have been
-     * performed against a given file descriptor ID, and only
-     * free the kqueue here if that count is zero.
+     * So only take the signal as a hint, and check that there's
+     * a kqueue with that FD, and that it has really been closed.
      */
-    if (fd_use_cnt[kq->kq_id] == 0) {
-        dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, fd, fd_use_cnt[kq->kq_id]);
-        kqueue_free(kq);
-    } else {
-        dbg_printf("kq=%p - fd=%i use_count=%u skipping...", kq, fd, fd_use_cnt[kq->kq_id]);
+    kq = kqueue_lookup(fd);
+    if (!kq || (kq->pipefd[0] != signal_fd) || linux_kqueue_is_open(kq)) {
+        dbg_printf("fd=%i - stale signal, skipping...", fd);
+        return;
     }
+
+    dbg_printf("kq=%p - fd=%i cleaning up...", kq, fd);
+    kqueue_free(kq);
 }
 
 /*
@@ -271,7 +253,6 @@ monitoring_thread_loop(UNUSED void *arg)
 
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
-    error:
         pthread_mutex_lock(&monitoring_thread_mtx);
         monitoring_thread_start = THREAD_START_FAILED;
         pthread_cond_signal(&monitoring_thread_cond);
@@ -281,13 +262,6 @@ monitoring_thread_loop(UNUSED void *arg)
     for (i = 0; i < nb_max_fd; i++)
         fd_map[i] = -1;
 
-    fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
-    if (fd_use_cnt == NULL){
-        free(fd_map);
-        fd_map = NULL;
-        goto error;
-    }
-
     monitoring_tid = tid;
     monitoring_thread_state = THREAD_EXIT_STATE_CANCEL_UNLOCKED;
 
@@ -317,7 +291,7 @@ monitoring_thread_loop(UNUSED void *arg)
          */
         pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
         tracing_mutex_lock(&kq_mtx);
-        dbg_printf("fd=%i - freeing kqueue due to fd closure (signal) for sfd=%i ", fd_map[info.si_fd], info.si_fd);
+        dbg_printf("sfd=%i - freeing kqueue due to fd closure (signal)", info.si_fd);
 
         /*
          * Release resources used by this kqueue
@@ -432,13 +406,17 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        /*
+         * The application may have closed the kqueue already,
+         * and may be using the FD for something else.
+         */
+        if (linux_kqueue_is_open(kq) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[0] = -1;
+        kq->pipefd[1] = -1;
 
-        if ((kq->pipefd[1] > 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
-        kq->pipefd[1] = -1;
+        kq->pipefd[0] = -1;
     }
 }
 
@@ -568,14 +546,14 @@ linux_kqueue_init(struct kqueue *kq)
             goto error;
     }
 
+    if (kq->pipefd[0] >= nb_max_fd) {
+        errno = EMFILE;
+        goto error;
+    }
+
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-    /* Mark this id as in use */
-    fd_use_cnt[kq->kq_id]++;
-
-    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
-
     assert(monitoring_tid != 0);
 
     /*
@@ -604,10 +582,6 @@ linux_kqueue_init(struct kqueue *kq)
 static void
 linux_kqueue_free(struct kqueue *kq)
 {
-    char buffer;
-    ssize_t ret;
-    int pipefd;
-
     if (kq->epollfd > 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
@@ -617,13 +591,10 @@ linux_kqueue_free(struct kqueue *kq)
     }
 
     /*
-     * read will return 0 on pipe EOF (i.e. if the write end of the pipe has been closed)
-     *
-     * kq->pipefd[1] should have already been called outside of libkqueue
+     * kq->pipefd[1] should have already been closed outside of libkqueue
      * as a signal the kqueue should be closed.
      */
-    ret = read(kq->pipefd[0], &buffer, 1);
-    if (ret == -1 && errno == EWOULDBLOCK) {
+    if (linux_kqueue_is_open(kq)) {
         // Shoudn't happen unless kqops.kqueue_free is called on an open FD
         dbg_puts("kqueue wasn't closed");
 
@@ -632,17 +603,11 @@ linux_kqueue_free(struct kqueue *kq)
         } else {
             dbg_printf("pipefd[1]=%i - closed", kq->pipefd[1]);
         }
-        kq->pipefd[1] = -1;
-    } else if (ret > 0) {
-        // Shouldn't happen unless data is written to kqueue FD
-        // Ignore write and continue with close
-        dbg_puts("unexpected data available on kqueue FD");
-        assert(0);
     }
+    kq->pipefd[1] = -1;
 
-    pipefd = kq->pipefd[0];
-    if (pipefd > 0) {
-        if (close(pipefd) < 0) {
+    if (kq->pipefd[0] > 0) {
+        if (close(kq->pipefd[0]) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
             dbg_printf("kq_fd=%i - closed", kq->pipefd[0]);
-- 
2.43.0


From eafaca38c4d96f18b904a3a3287a17f6648b0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:39 +0000
Subject: [PATCH 25/34] fix: a forked child doesn't use or free the kqueues of
 its parent

---
 src/common/kqueue.c  | 22 ++++++++++++++++++++++
 src/common/private.h |  1 +
 src/linux/platform.c |  2 ++
 3 files changed, 25 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 840e8fb..ca1e7c2 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -50,6 +50,12 @@ pthread_once_t kq_is_initialized = PTHREAD_ONCE_INIT;
  */
 struct kqueue_head kq_list;
 
+/** List of kqueues inherited across a fork
+ *
+ * We can't free them, this is so that they remain referenced.
+ */
+static struct kqueue_head kq_inherited;
+
 /** Count of the active kqueues
  *
  */
@@ -321,6 +327,22 @@ kqueue_free(struct kqueue *kq)
     free(kq);
 }
 
+/** Forget about a kqueue inherited from the parent process
+ *
+ * Must only be called in the child, in the fork handler, so can't
+ * lock the kqueue (another thread may have been using it when the
+ * process was forked), or free any memory.
+ */
+void
+kqueue_forget(struct kqueue *kq)
+{
+    kq_cnt--;
+    LIST_REMOVE(kq, kq_entry);
+    LIST_INSERT_HEAD(&kq_inherited, kq, kq_entry);
+
+    map_remove(kqmap, kq->kq_id, kq);
+}
+
 void
 kqueue_free_by_id(int id)
 {
diff --git a/src/common/private.h b/src/common/private.h
index 6e4b9fe..43098fe 100644
--- a/src/common/private.h
+++ b/src/common/private.h
@@ -745,6 +745,7 @@ const char      *kevent_dump(const struct kevent *);
 struct kqueue   *kqueue_lookup(int);
 void            kqueue_knote_mark_disabled_all(struct kqueue *kq);
 void            kqueue_free(struct kqueue *);
+void            kqueue_forget(struct kqueue *);
 void            kqueue_free_by_id(int id);
 int             kqueue_validate(struct kqueue *);
 
diff --git a/src/linux/platform.c b/src/linux/platform.c
index 94c5353..8f066b5 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -417,6 +417,8 @@ linux_libkqueue_fork(void)
         if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[0] = -1;
+
+        kqueue_forget(kq);
     }
 }
 
-- 
2.43.0


From f20f9805cde478d05fc0d13d2d5fb1b69498c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:21 +0000
Subject: [PATCH 26/34] fix: close a kqueue's descriptors when one of them is
 number 0

If the application runs with descriptor 0 closed, the kernel may hand
it to the library for a kqueue's epoll descriptor or its pipe, which
was then never closed when the kqueue was freed.
---
 src/linux/platform.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 8f066b5..a3e13c4 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -414,7 +414,7 @@ linux_libkqueue_fork(void)
             dbg_perror("close(2)");
         kq->pipefd[1] = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[0] = -1;
 
@@ -584,7 +584,7 @@ linux_kqueue_init(struct kqueue *kq)
 static void
 linux_kqueue_free(struct kqueue *kq)
 {
-    if (kq->epollfd > 0) {
+    if (kq->epollfd >= 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
         if (close(kq->epollfd) < 0)
@@ -608,7 +608,7 @@ linux_kqueue_free(struct kqueue *kq)
     }
     kq->pipefd[1] = -1;
 
-    if (kq->pipefd[0] > 0) {
+    if (kq->pipefd[0] >= 0) {
         if (close(kq->pipefd[0]) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
-- 
2.43.0


From 0d3abe991bc142a17ebef49d3902d6cd3c9705cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:21 +0000
Subject: [PATCH 27/34] fix: accept descriptor 0 for a signalfd

If the application runs with descriptor 0 closed, the signalfd may get
that number.  This was taken for a failure, which left the descriptor
open and in the epoll set, referring to the freed knote.
---
 src/linux/signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/signal.c b/src/linux/signal.c
index dccb03f..1ccc3b4 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -149,7 +149,7 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
     int fd;
 
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
-    if (fd > 0) {
+    if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
         kn->kn_signalfd = fd;
         return (0);
-- 
2.43.0


From 0b77d2e5e771ef9422221e982c31b913f98d3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 28/34] fix: a regular file that doesn't fit into the eventlist
 isn't lost

With EV_CLEAR its surrogate eventfd is edge triggered, so taking it from
epoll without returning an event for it meant it was never reported.
---
 src/linux/platform.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index a3e13c4..117cc0c 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -821,6 +821,7 @@ epoll_event_dump(const struct epoll_event *ev)
 }
 
 static void epoll_fd_rearm(struct kqueue *kq, struct fd_state *fds);
+static void epoll_file_rearm(struct kqueue *kq, struct knote *kn);
 
 int
 linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int nevents)
@@ -861,8 +862,12 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
                 dbg_printf("no more available kevent slots, used %zu", el_p - el);
                 for (; i < nready; i++) {
                     epoll_udata = epoll_events[i].data.ptr;
-                    if (epoll_udata && epoll_udata->ud_type == EPOLL_UDATA_FD_STATE)
+                    if (!epoll_udata)
+                        continue;
+                    if (epoll_udata->ud_type == EPOLL_UDATA_FD_STATE)
                         epoll_fd_rearm(kq, epoll_udata->ud_fds);
+                    else if (epoll_udata->ud_type == EPOLL_UDATA_KNOTE)
+                        epoll_file_rearm(kq, epoll_udata->ud_kn);
                 }
                 goto done;
             }
@@ -1470,6 +1475,18 @@ epoll_fd_rearm(struct kqueue *kq, struct fd_state *fds)
         dbg_perror("epoll_ctl(2)");
 }
 
+/** The same for the surrogate eventfd of a regular file
+ */
+static void
+epoll_file_rearm(struct kqueue *kq, struct knote *kn)
+{
+    if (!(kn->kn_flags & KNFL_FILE) || !kn->kn_registered || !(kn->epoll_events & EPOLLET)) return;
+
+    if (epoll_ctl(kq->epollfd, EPOLL_CTL_MOD, kn->kn_eventfd,
+                  EPOLL_EV_KN(kn->epoll_events, kn)) < 0)
+        dbg_perror("epoll_ctl(2)");
+}
+
 int
 epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
 {
-- 
2.43.0


From d665201a3269e957a0c4bda5bc18e47b9be1245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 29/34] fix: EVFILT_PROC reports NOTE_EXIT only, and only while
 it is asked for

The other notes can't be monitored, so having asked for them doesn't mean
they happened.  A modification that drops NOTE_EXIT now ends the watch.
---
 src/linux/proc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ab5082f..4624988 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -38,6 +38,7 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
 
     dbg_printf("epoll_ev=%s", epoll_event_dump(ev));
     memcpy(dst, &src->kev, sizeof(*dst)); /* Populate flags from the src kevent */
+    dst->fflags = NOTE_EXIT; /* The only thing that's monitored */
 
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
@@ -86,6 +87,9 @@ done:
     return (1);
 }
 
+int
+evfilt_proc_knote_delete(struct filter *filt, struct knote *kn);
+
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
@@ -168,6 +172,9 @@ evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kev
     kn->kev.flags = kev->flags | (old.flags & (EV_ONESHOT | EV_CLEAR | EV_DISABLE));
     kn->kev.fflags = kev->fflags;
 
+    /* The exit isn't of interest any longer */
+    if (!(kn->kev.fflags & NOTE_EXIT)) return (evfilt_proc_knote_delete(filt, kn));
+
     if ((kn->kn_procfd < 0) && (evfilt_proc_knote_create(filt, kn) < 0)) {
         kn->kev = old;
         return (-1);
-- 
2.43.0


From 72ef13fafbf60ad0d106a82a3ee466764d5994db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 30/34] fix: a thread cancelled in kqueue() doesn't lose the
 new kqueue

The cancellation was acted on after the kqueue had been created, when
nobody could get to know its descriptor any longer.
---
 src/common/kqueue.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index ca1e7c2..18e06c6 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -383,6 +383,12 @@ kqueue(void)
 #endif
 
 #ifndef _WIN32
+    /*
+     * Act on a cancellation while there's nothing to lose,
+     * the caller never gets to know the new kqueue if it's
+     * cancelled later.
+     */
+    pthread_testcancel();
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
@@ -437,8 +443,6 @@ kqueue(void)
     tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE)
-        pthread_testcancel();
 #endif
 
     return (kq->kq_id);
-- 
2.43.0


From ae3647fe4d33fc7cad2a88c44bec8644210945b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 31/34] fix: no event is passed over forever when the event
 list is small

A file descriptor which is both readable and writable always had its
read event reported first, so with room for a single event the write
event was never reported, and as level triggered descriptors return to
epoll's list in the order they were taken from it, whatever came after
such a descriptor could be left out by every call.
---
 src/linux/platform.c | 68 ++++++++++++++++++++++++++++++--------------
 src/linux/platform.h |  1 +
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 117cc0c..47a402b 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -827,12 +827,13 @@ int
 linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int nevents)
 {
     struct kevent   *el_p = el, *el_end = el + nevents;
-    int             i;
+    int             i, nboth = 0;
 
     dbg_printf("got %i events from epoll", nready);
 
     for (i = 0; i < nready; i++) {
-        struct epoll_event    *ev = &epoll_events[i];    /* Thread local storage populated in linux_kevent_wait */
+        struct epoll_event    event = epoll_events[i];   /* Thread local storage populated in linux_kevent_wait */
+        struct epoll_event    *ev = &event;
         struct epoll_udata    *epoll_udata = ev->data.ptr;
         int                   rv;
 
@@ -889,32 +890,34 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             assert(fds);
 
             /*
-             * fds can be freed after the first linux_kevent_copyout_ev
-             * so cache the pointer value here.
+             *    FD, or errored, or other side shutdown
              */
-            write = fds->fds_write;
+            kn = fds->fds_read;
+            if (kn && (!KNOTE_ENABLED(kn) || !(ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR)))) kn = NULL;
 
             /*
-             *    FD, or errored, or other side shutdown
+             *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
-                if (el_p >= el_end) goto oos;
+            write = fds->fds_write;
+            if (write && (!KNOTE_ENABLED(write) || !(ev->events & (EPOLLOUT | POLLHUP | EPOLLERR)))) write = NULL;
 
-                rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-                if (rv < 0) goto err;
-                el_p += rv;
-            }
+            if (!kn && !write) break;
+            if (el_p >= el_end) goto oos;
 
             /*
-             *    FD is writable, or errored, or other side shutdown
+             * One event now, and the other one when every fd had its
+             * turn, so none of them has to wait for the others forever.
              */
-            if ((kn = write) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
-                if (el_p >= el_end) goto oos;
-
-                rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-                if (rv < 0) goto err;
-                el_p += rv;
+            if (kn && write) {
+                epoll_events[nboth++] = event;
+                if (fds->fds_write_first) kn = write;
+            } else if (!kn) {
+                kn = write;
             }
+
+            rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
+            if (rv < 0) goto err;
+            el_p += rv;
         }
             break;
 
@@ -938,13 +941,36 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             return (-1);
         }
     }
-    goto done;
+done:
+
+    /*
+     * The fds which are both readable and writable.  They're
+     * still here as the other knote still refers to them.
+     */
+    for (i = 0; i < nboth; i++) {
+        struct fd_state *fds = ((struct epoll_udata *)epoll_events[i].data.ptr)->ud_fds;
+        struct knote    *kn = fds->fds_write_first ? fds->fds_read : fds->fds_write;
+        int             rv;
+
+        if (!kn || !KNOTE_ENABLED(kn)) continue;
+        if (el_p >= el_end) {
+            fds->fds_write_first = !fds->fds_write_first;
+            epoll_fd_rearm(kq, fds);
+            continue;
+        }
+
+        fds->fds_write_first = false;
+        rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), &epoll_events[i], knote_get_filter(kn), kn);
+        if (rv < 0) goto err;
+        el_p += rv;
+    }
+
+    return el_p - el;
 
 err:
     if (el_p == el)
         return (-1);
 
-done:
     return el_p - el;
 }
 
diff --git a/src/linux/platform.h b/src/linux/platform.h
index bf8d7d6..a9e5a91 100644
--- a/src/linux/platform.h
+++ b/src/linux/platform.h
@@ -215,6 +215,7 @@ struct fd_state {
     int                   fds_fd;         //!< File descriptor this entry relates to.
     struct knote          *fds_read;      //!< Knote that should be informed of read events.
     struct knote          *fds_write;     //!< Knote that should be informed of write events.
+    bool                  fds_write_first; //!< There was no space for the write event last time.
     struct epoll_udata    fds_udata;      //!< Common struct passed to epoll
 };
 
-- 
2.43.0


From f1f3e5d1f6bf4f61d66b6ec0568f7f2a8d55776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 32/34] fix: kevent() refuses a time limit that is none

---
 src/common/kevent.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 4d1a9de..32b074f 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -409,6 +409,13 @@ kevent(int kqfd,
     }
     if (!changelist) changelist = null_kev;
 
+    /* There's no such time to wait for, fail before anything is changed */
+    if (timeout && nevents > 0 &&
+        (timeout->tv_sec < 0 || timeout->tv_nsec < 0 || timeout->tv_nsec >= 1000000000)) {
+        errno = EINVAL;
+        return (-1);
+    }
+
 #ifndef _WIN32
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
-- 
2.43.0


From 2b9de0320e7c25bd522e7c83baaa9f20b3efdc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 33/34] fix: EV_EOF and EV_ERROR in a change mean nothing

---
 src/common/kevent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 32b074f..753510f 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -174,8 +174,14 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 {
     struct knote  *kn = NULL;
     struct filter *filt;
+    struct kevent change;
     int rv = 0;
 
+    /* These report something, a change can't ask for them */
+    change = *src;
+    change.flags &= ~(EV_EOF | EV_ERROR);
+    src = &change;
+
     if (src->flags & EV_DISPATCH && src->flags & EV_ONESHOT) {
         dbg_puts("Error: EV_DISPATCH and EV_ONESHOT are mutually exclusive");
         errno = EINVAL;
-- 
2.43.0


From 9b2360dffc60a18dc7fa62365be96143da2d374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 34/34] fix: an ident that is out of range isn't cut down to
 another one

---
 src/linux/platform.c | 6 ++++++
 src/linux/proc.c     | 8 ++++++++
 src/linux/signal.c   | 8 ++++++++
 src/linux/vnode.c    | 8 ++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 47a402b..8ff325c 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1125,6 +1125,12 @@ linux_get_descriptor_type(struct knote *kn)
     int ret, lsock, stype;
     const int fd = (int)kn->kev.ident;
 
+    /* Not the descriptor that the lower bits happen to match */
+    if (kn->kev.ident > INT_MAX) {
+        errno = EBADF;
+        return (-1);
+    }
+
     /*
      * Determine the actual descriptor type.
      */
diff --git a/src/linux/proc.c b/src/linux/proc.c
index 4624988..0fd6bbc 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -13,6 +13,8 @@
  * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
+#include <limits.h>
+
 #include "private.h"
 
 /* We depend on the SYS_pidfd_open call to determine when a process has exited
@@ -126,6 +128,12 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
         return 0;
     }
 
+    /* Not the process that the lower bits happen to match */
+    if (kn->kev.ident > INT_MAX) {
+        errno = ESRCH;
+        return (-1);
+    }
+
     /* Returns an FD, which, when readable, indicates the process has exited */
     pfd = syscall(SYS_pidfd_open, (pid_t)kn->kev.ident, 0);
     if (pfd < 0) {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index 1ccc3b4..18bee4f 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -13,6 +13,8 @@
  * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
+#include <limits.h>
+
 #include "private.h"
 
 #include <signal.h>
@@ -148,6 +150,12 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
 {
     int fd;
 
+    /* Not the signal that the lower bits happen to match */
+    if (kn->kev.ident > INT_MAX) {
+        errno = EINVAL;
+        return (-1);
+    }
+
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
     if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index cf8cdc7..973e95b 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -13,6 +13,8 @@
  * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
+#include <limits.h>
+
 #include "private.h"
 
 #ifndef NDEBUG
@@ -122,6 +124,12 @@ add_watch(struct filter *filt, struct knote *kn)
     uint32_t mask;
     struct stat sb;
 
+    /* Not the descriptor that the lower bits happen to match */
+    if (kn->kev.ident > INT_MAX) {
+        errno = EBADF;
+        return (-1);
+    }
+
     /* Changes are relative to when the watch was added */
     if (fstat(kn->kev.ident, &sb) < 0) {
         dbg_puts("fstat failed");
-- 
2.43.0

