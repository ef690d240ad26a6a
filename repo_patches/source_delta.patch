From 0bebafc42cd4e96187cf235b0ec62a84801a3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 01/29] fix: str_itoa keeps the sign and all 64 bits of its
 argument

---
 src/arrays.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..691ea4f 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1596,37 +1596,34 @@ char *str_itoa(int64_t x) {
 #if defined(__s390__) || defined(__s390x__)
 	return ___str_itoa((int)x, scope_local()->scrape, 10);
 #else
-	char *buf = scope_local()->scrape;
+	char *text = scope_local()->scrape, *buf = text;
 	// Handle negatives
 	bool neg = x < 0;
 	*buf = '-'; // Always write
 	buf += neg; // But advance only if negative
-#if defined(__APPLE__) || defined(__MACH__)
-	x = llabs(x);
-#else
-	x = abs(x);
-#endif
+	// Magnitude, also of the smallest value, which has no positive counterpart
+	uint64_t u = neg ? (uint64_t)0 - (uint64_t)x : (uint64_t)x;
 
 	char tmp[20];
 	char *p = tmp + 20;
 
-	while (x >= 100) {
+	while (u >= 100) {
 		p -= 2;
-		utoa2p_ex(x % 100, p);
-		x /= 100;
+		utoa2p_ex(u % 100, p);
+		u /= 100;
 	}
 
 	p -= 2;
-	utoa2p_ex(x, p);
+	utoa2p_ex(u, p);
 
-	p += x < 10;
+	p += u < 10;
 
 	uint32_t len = tmp + 20 - p;
 
-	memcpy(buf, p, 20);
+	memcpy(buf, p, len);
 	buf[len] = '\0';
 
-	return buf;
+	return text;
 #endif
 }
 
-- 
2.43.0


From 673b94ff8f3277ab4d9d64f9eb124e47d0d1ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 02/29] fix: trim does not look in front of an empty or blank
 string

---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 691ea4f..8f672bb 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -793,8 +793,8 @@ static EVENTS_INLINE char *ltrim(char *s) {
 
 static EVENTS_INLINE char *rtrim(char *s) {
 	char *back = s + strlen(s);
-	while (isspace(*--back));
-	*(back + 1) = '\0';
+	while (back > s && isspace(*(back - 1))) back--;
+	*back = '\0';
 	return s;
 }
 
-- 
2.43.0


From 4025a2b7d35002eeb26fbf64f4dc8208d57b4f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 03/29] fix: str_cat_argv starts from an empty text and stays
 in its buffer

---
 src/arrays.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arrays.c b/src/arrays.c
index 8f672bb..e5ca0a9 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -429,6 +429,10 @@ char *str_cat_argv(int argc, char **argv, int start, char *delim) {
 	}
 
 	char *str = EVENTS_ARGS;
+	*str = '\0';
+	if (len == 0 || len > EVENTS_ARGS_LENGTH)
+		return str;
+
 	for (i = start, j = 0; i < argc; ++i) {
 		if (i > start)
 			j = _str_append(j, delim, 1);
-- 
2.43.0


From 864e0ba9d7b73b10ad08bcbaaf14678aea2617e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 04/29] fix: splitting or replacing on an empty text returns
 instead of looping forever

---
 src/arrays.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index e5ca0a9..538d49b 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -444,7 +444,7 @@ char *str_cat_argv(int argc, char **argv, int start, char *delim) {
 }
 
 char *str_swap_ex(const char *haystack, const char *needle, const char *swap) {
-	if (!haystack || !needle || !swap)
+	if (!haystack || !needle || !*needle || !swap)
 		return NULL;
 
 	char *result;
@@ -503,7 +503,7 @@ void **mem_split_ex(const void *src, size_t src_len, const char *delim, int *cou
 		delim = " ";
 
 	size_t ptrsSize, nbWords = 1, sLen = src_len, delimLen = strlen(delim);
-	if (sLen == 0)
+	if (sLen == 0 || delimLen == 0)
 		return NULL;
 
 	void *data;
@@ -549,7 +549,7 @@ char **str_split_ex(const char *s, const char *delim, int *count) {
 		delim = " ";
 
 	size_t ptrsSize, nbWords = 1, sLen = strlen(s), delimLen = strlen(delim);
-	if (sLen == 0)
+	if (sLen == 0 || delimLen == 0)
 		return NULL;
 
 	void *data;
@@ -581,7 +581,7 @@ char **str_split_ex(const char *s, const char *delim, int *count) {
 }
 
 array_t str_explode(const char *s, const char *delim) {
-	if (str_is_empty(s))
+	if (str_is_empty(s) || (!is_empty(delim) && str_is_empty(delim)))
 		return null;
 
 	if (is_empty(delim))
-- 
2.43.0


From 83bfadb059daea8389bc1568348a69ef4a28be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 05/29] fix: str_has_either does not read past a shorter second
 pattern

---
 src/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 538d49b..0efcf69 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -813,13 +813,14 @@ bool str_has_either(const char *src, char *match, char *match2) {
 
 	size_t src_length = strlen(src);
 	size_t match_length = strlen(match);
+	size_t match2_length = is_empty(match2) ? 0 : strlen(match2);
 	if (match_length > src_length)
 		return false;
 
 	for (c = 0; c <= src_length - match_length; c++) {
 		position = e = c;
 		for (d = 0; d < match_length; d++)
-			if (match[d] == src[e] || match2[d] == src[e])
+			if (match[d] == src[e] || (d < match2_length && match2[d] == src[e]))
 				e++;
 			else
 				break;
-- 
2.43.0


From 3aee64f5f4f1f77b37a4c7df40e8d0edaf197d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 06/29] fix: a timer of more than 2147 ms is due that many
 milliseconds ahead

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index f988d59..d2ca49e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -889,7 +889,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (int64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From 080ed2b06a0e90d2bde8c884b629705f813307ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 07/29] fix: delay reports the elapsed milliseconds of sleeps
 beyond four seconds

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index d2ca49e..9a97081 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1391,7 +1391,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From 7afb89e3b7ee318210d087f6b20a481730ac341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 08/29] fix: waiting for a task group does not queue a ready
 task a second time

---
 src/events.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index 9a97081..593ed8e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2175,7 +2175,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
+				if (co->status == TASK_NORMAL && !co->ready) {
 					enqueue(l, co);
 				} else if (co->status == TASK_SLEEPING) {
 					is_sleeping = true;
@@ -2238,7 +2238,7 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
+					if (worker->status == TASK_NORMAL && !worker->ready) {
 						enqueue(l, worker);
 					} else if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
@@ -2301,7 +2301,7 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
+					if (worker->status == TASK_NORMAL && !worker->ready) {
 						enqueue(l, worker);
 					} else if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
-- 
2.43.0


From 72a1dcbd4c24046f39ed6e78e72e976900b414fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 09/29] fix: a finished task group does not stop the scheduler
 while tasks are ready

---
 src/events.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index 593ed8e..d6381ad 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2205,7 +2205,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2241,7 +2240,6 @@ array_t waitfor(waitgroup_t wg) {
 					if (worker->status == TASK_NORMAL && !worker->ready) {
 						enqueue(l, worker);
 					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2268,8 +2266,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
@@ -2284,7 +2280,6 @@ array_t tasks_wait(task_group_t *wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2304,7 +2299,6 @@ array_t tasks_wait(task_group_t *wg) {
 					if (worker->status == TASK_NORMAL && !worker->ready) {
 						enqueue(l, worker);
 					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2327,8 +2321,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From fc8ff8ee94fcb8f4e50295162057d491b91b1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 10/29] fix: asking a generator for its first value does not
 queue it a second time

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index d6381ad..6293198 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1624,7 +1624,7 @@ values_t yielded(generator_t gen) {
 		return data_values_empty->value;
 
 	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
+		if (gen->context->status == TASK_SUSPENDED && !gen->context->ready) {
 			tasklist_t *l = __thrd()->run_queue;
 			enqueue(l, gen->context);
 		}
-- 
2.43.0


From 5ceb8fe37f45f6ccacab2a2027318f9c0fb8bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 11/29] fix: result numbers never handed out are recognised,
 and the first task can be cancelled

task_set_canceled ignored result number 0, task_is_canceled of a task without
result read the slot of another task, and a number never handed out was read
past the end of the result table.
---
 src/events.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6293198..5702a11 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1817,6 +1817,9 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 }
 
 static EVENTS_INLINE results_data_t task_result_get(uint32_t id) {
+	if (id >= (uint32_t)atomic_load(&sys_event.result_id_generate))
+		return NULL;
+
 	return (results_data_t)atomic_load_explicit(&sys_event.results[id], memory_order_relaxed);
 }
 
@@ -1825,11 +1828,12 @@ EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
 }
 
 EVENTS_INLINE bool task_is_canceled(void) {
-	return task_result_get(task_id())->is_canceled;
+	results_data_t result = task_result_get(active_task()->rid);
+	return result != NULL && result->is_canceled;
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
-	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
+	if (id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
 		atomic_store_explicit(&sys_event.results, results, memory_order_release);
@@ -1837,7 +1841,8 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 }
 
 EVENTS_INLINE values_t await_for(uint32_t id) {
-	while (!task_result_get(id)->is_terminated)
+	results_data_t result;
+	while ((result = task_result_get(id)) != NULL && !result->is_terminated)
 		yield();
 
 	return results_for(id);
@@ -1845,7 +1850,7 @@ EVENTS_INLINE values_t await_for(uint32_t id) {
 
 EVENTS_INLINE bool task_is_ready(uint32_t id) {
 	results_data_t ready = task_result_get(id);
-	return ready->is_ready || ready->is_terminated;
+	return ready != NULL && (ready->is_ready || ready->is_terminated);
 }
 
 EVENTS_INLINE uint32_t task_id(void) {
@@ -1854,12 +1859,13 @@ EVENTS_INLINE uint32_t task_id(void) {
 }
 
 int results_tid(uint32_t rid) {
-	return task_result_get(rid)->tid;
+	results_data_t result = task_result_get(rid);
+	return result == NULL ? TASK_ERRED : result->tid;
 }
 
 EVENTS_INLINE values_t results_for(uint32_t id) {
 	results_data_t result = task_result_get(id);
-	if (result->is_ready)
+	if (result != NULL && result->is_ready)
 		return result->result;
 
 	return data_values_empty->value;
-- 
2.43.0


From 64ab5686834ed499e97c524ea1f7bdf229a6a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 12/29] fix: taking from an empty deque yields nothing and
 leaves it empty

With both indexes at zero the decremented bottom wrapped around, so a slot that
was never pushed was returned and the deque was left broken.
---
 src/deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..21b2617 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -80,7 +80,7 @@ tasks_t *deque_take(events_deque_t *q) {
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
 	tasks_t *x;
-	if (t <= b) {
+	if ((ptrdiff_t)(b - t) >= 0) {
 		/* Non-empty queue */
 		x = (tasks_t *)atomic_load_explicit(&a->buffer[b % a->size], memory_order_relaxed);
 		if (t == b) {
-- 
2.43.0


From a8bd40aa59792e88073ef811f6a097c18d75d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 13/29] fix: a descriptor whose timeout was cleared by
 another's timeout callback is not notified

---
 src/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 5702a11..63a696f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -789,9 +789,9 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
-							if (v < 0) {
+							/* a callback may have cleared a later one meanwhile */
+							if (v < 0 && (vec[j] & ((unsigned short)SHRT_MIN >> (k % EVENTS_SHORT_BITS)))) {
 								events_fd_t *fd = events_target(k);
 								assert(fd->loop_id == loop->loop_id);
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
-- 
2.43.0


From 857e5b62a354a8b38888a2c9d2ddfe1d5bb8d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 14/29] fix: registering a descriptor again cancels its earlier
 timeout and counts it once

---
 src/events.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 63a696f..b929dfd 100644
--- a/src/events.c
+++ b/src/events.c
@@ -582,7 +582,12 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 		target->is_iodispatch = true;
 	}
 #endif
-	//assert(target->loop_id == 0);
+	/* registering again replaces the earlier registration */
+	if (target->loop_id != 0 && target->loop != NULL) {
+		events_set_timeout(fd, 0);
+		target->loop->active_descriptors--;
+	}
+
 	target->callback = callback;
 	target->cb_arg = cb_arg;
 	target->loop = loop;
-- 
2.43.0


From e66c997c9403aca562181537b6424bb910f01820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 15/29] fix: a descriptor the kernel refuses to watch is
 refused instead of recorded as watched

---
 src/epoll.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..bc3cb7d 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,7 +97,7 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
-	if ((event & EVENTS_READWRITE) == target->events) {
+	if ((event & EVENTS_READWRITE) == (target->events & EVENTS_READWRITE)) {
 		return 0;
 	}
 
@@ -121,8 +121,10 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	} else {
 		SET(EPOLL_CTL_MOD, 0);
 		if (epoll_ret != 0) {
-			assert(errno == ENOENT);
-			SET(EPOLL_CTL_ADD, 1);
+			if (errno == ENOENT)
+				SET(EPOLL_CTL_ADD, 0);
+			if (epoll_ret != 0)
+				return -1;
 		}
 	}
 
-- 
2.43.0


From 2b5c100d4baf9e1430bd378c50d6212f480e393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 16/29] fix: a pending report is not delivered for events no
 longer asked for

---
 src/epoll.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index bc3cb7d..21a74b1 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -162,8 +162,9 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		events_fd_t *target = events_target(event->data.fd);
 		if (loop->loop.loop_id == target->loop_id
 			&& (target->events & EVENTS_READWRITE) != 0) {
-			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
-				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
+			/* an earlier callback may have changed the events asked for */
+			int revents = ((event->events & EPOLLIN) != 0 ? (target->events & EVENTS_READ) : 0)
+				| ((event->events & EPOLLOUT) != 0 ? (target->events & EVENTS_WRITE) : 0)
 				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-- 
2.43.0


From 020a334663053b946db9c4fbb4130e34f5ffc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:33 +0000
Subject: [PATCH 17/29] fix: registering a signal again replaces its handler;
 an idle signal can be removed

events_add_signal took the first unused slot even when the signal already had
one, so the earlier handler stayed (or came back).  events_del of a signal whose
handler was not running treated the number as a descriptor.  Registering again
counted the signal twice, and changed the loop of a descriptor of that number.
---
 src/events.c  | 17 ++++++++++++++---
 src/os_unix.c | 11 +++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index b929dfd..499915e 100644
--- a/src/events.c
+++ b/src/events.c
@@ -552,11 +552,18 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 #endif
 	target = events_target(fd);
 	if (event == EVENTS_SIGNAL) {
+		events_t *was = target->signal_set ? events_signals()[target->signal_idx].loop : NULL;
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
+			/* registering again replaces the earlier registration */
+			if (was != NULL)
+				was->active_signals--;
+
 			loop->signal_handlers = events_signals();
 			loop->active_signals++;
 			loop->signal_handlers[sig_idx].loop = loop;
-			target->loop = loop;
+			if (target->loop_id == 0)
+				target->loop = loop;
+
 			target->signal_idx = sig_idx;
 			target->signal_set = true;
 			return 0;
@@ -620,10 +627,14 @@ int events_del(fds_t sfd) {
 	if (target->signal_set) {
 		signal_handlers = events_signals();
 		if (signal_handlers[target->signal_idx].sig == fd
-			&& signal_handlers[target->signal_idx].is_running) {
+			&& (signal_handlers[target->signal_idx].is_running || target->loop_id == 0)) {
+			loop = signal_handlers[target->signal_idx].loop;
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
+			loop->active_signals--;
+			if (target->loop_id == 0)
+				target->loop = NULL;
+
 			return 0;
 		}
 	}
diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..fbf12a4 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -687,12 +687,19 @@ sys_signal_t *events_signals(void) {
 }
 
 int events_add_signal(int sig, sig_cb proc, void *data) {
-	int i;
+	int i, unused = -1;
+	/* registering again replaces the earlier registration */
 	for (i = 0; i < max_event_sig; i++) {
-		if (!events_sig[i].proc || events_sig[i].sig == sig)
+		if (events_sig[i].proc && events_sig[i].sig == sig)
 			break;
+
+		if (!events_sig[i].proc && unused < 0)
+			unused = i;
 	}
 
+	if (i == max_event_sig && unused >= 0)
+		i = unused;
+
 	if (i == max_event_sig) {
 		cerr("Cannot install exception handler for signal no (%d), "
 			"too many signal exception handlers installed (max %d)"CLR_LN,
-- 
2.43.0


From ec56c686c36b21bbc565234581b55b87084a7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 18/29] fix: a freed stand-in descriptor maps to nothing, and
 closing a process or watch closes no descriptor of that number

os_close closed the process id (or watch number) as if it were a descriptor, and
events_free_fd left the entry in use.
---
 src/os_unix.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index fbf12a4..752c91e 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -346,15 +346,15 @@ int os_read(int fd, char *buf, size_t len) {
 
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
-	int r, can_clear = events_valid_fd(fd);
+	int r = 0, can_clear = events_valid_fd(fd), real = events_get_fd(fd);
+	/* a process or watch id is not a descriptor */
+	bool is_real = !can_clear
+		|| (fdTable[fd].type != FD_CHILD && fdTable[fd].type != FD_MONITOR_SYNC);
 	if (can_clear)
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
-	if (can_clear) {
-		fdTable[fd].type = (fd_types)FD_UNUSED;
-		fdTable[fd].fd = TASK_ERRED;
-	}
+	if (is_real)
+		r = close(real);
 
 	return r;
 }
@@ -505,6 +505,8 @@ void events_free_fd(int pseudo) {
 			events_free(fdTable[pseudo].path);
 			fdTable[pseudo].path = NULL;
 		}
+		fdTable[pseudo].type = (fd_types)FD_UNUSED;
+		fdTable[pseudo].fd = TASK_ERRED;
 		release_lock(pseudo);
 	}
 }
-- 
2.43.0


From 273812b61157ad7b206ee866821d78c675be72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 19/29] fix: refuse a stand-in when the table is full, and do
 not look up a number past the descriptor table

events_new_fd read the descriptor table at any number it was given (watch
numbers grow without limit); exec_info used entry -1 when none was free.
---
 src/async_io.c |  3 +++
 src/os_unix.c  | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..b0b4c11 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -847,6 +847,9 @@ EVENTS_INLINE filefd_t exec_fderr(execinfo_t *child) {
 static execinfo_t *spawn_ex(const char *command, const char *args, const char *env,
 	bool is_datached, spawn_cb io_func, exit_cb exit_func) {
 	execinfo_t *info = exec_info(env, is_datached, inherit, inherit, inherit);
+	if (info == NULL)
+		return NULL;
+
 	if (io_func) {
 #ifdef _WIN32
 		if (os_create_pipe("spawn_in", &info->write_input[0], &info->write_input[1])
diff --git a/src/os_unix.c b/src/os_unix.c
index 752c91e..4147d7a 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -391,9 +391,9 @@ int events_pseudo_fd(const char *name) {
 
 int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 	int i, index = -1;
-	events_fd_t *target = events_target(fd);
+	events_fd_t *target = (fd >= 0 && fd < sys_event.max_fd) ? events_target(fd) : NULL;
 	acquire_lock(fd);
-	while (target->loop && target->loop->active_descriptors >= ioTableSize)
+	while (target && target->loop && target->loop->active_descriptors >= ioTableSize)
 		grow_ioTable();
 
 	if (desiredFd >= 0 && desiredFd < ioTableSize
@@ -584,8 +584,14 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 #if __APPLE__ && __MACH__
 	int pseudofd = events_new_fd((FILE_TYPE)FD_CHILD, hIoCompPort_token, -1);
 #else
-	int pseudofd = events_new_fd(FD_CHILD, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
+	int efd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
+	int pseudofd = efd == -1 ? -1 : events_new_fd(FD_CHILD, efd, -1);
+	if (pseudofd == -1 && efd != -1)
+		close(efd);
 #endif
+	if (pseudofd == -1)
+		return NULL;
+
 	execinfo_t *info = fdTable[pseudofd].process;
 	info->detached = is_detached;
 	if (env != NULL && str_has(env, "=") && str_has(env, ";"))
@@ -609,6 +615,11 @@ EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
+	if (info == NULL) {
+		events_free(cmd_arg);
+		return (process_t)TASK_ERRED;
+	}
+
 	info->argv = str_split_ex(cmd_arg, ",", NULL);
 	events_free(cmd_arg);
 
-- 
2.43.0


From ca2ff33ca755001ee87be7001d273d50924f8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 20/29] fix: an address is four octets and a port, a port or a
 name and a port, and nothing else

A port alone was read as port 1 and so was any name beginning with a digit;
octets above 255, ports above 65535 and trailing text were taken.
---
 src/async_io.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index b0b4c11..e562eb0 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -394,7 +394,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 	len = 0;
 	/* Test for different ways to format this string */
 	if (sscanf(host,
-		"%u.%u.%u.%u:%u%n",
+		"%3u.%3u.%3u.%3u:%5u%n",
 		&a,
 		&b,
 		&c,
@@ -405,21 +405,24 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 			  // conversion errors; consider using 'strtol' instead
 		== 5) {
 		/* Bind to a specific IPv4 address, e.g. 192.168.1.5:8080 */
+		if (a > 255 || b > 255 || c > 255 || d > 255 || port > 0xffff || (size_t)len != ptrlen)
+			return 0;
+
 		dst->sin.sin_addr.s_addr =
 			htonl((a << 24) | (b << 16) | (c << 8) | d);
 		dst->sin.sin_port = htons((uint16_t)port);
 		*ip_version = 4;
 		return 1;
-	} else if (sscanf(host, "[%49[^]]]:%u%n", buf, &port, &len) == 2
-		&& ((size_t)len <= ptrlen)
+	} else if (sscanf(host, "[%49[^]]]:%5u%n", buf, &port, &len) == 2
+		&& ((size_t)len == ptrlen) && port <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
 		/* dst->sin6.sin6_family = AF_INET6; already set by http_inet_pton */
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0) && port <= 0xffff)
-		&& (host != endptr)) {
+	} else if (isdigit((unsigned char)host[0]) && (portUL = strtoul(host, &endptr, 10)) <= 0xffff
+		&& *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
 		/* If only port is specified, bind to IPv4, INADDR_ANY */
@@ -446,8 +449,8 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len)
-				== 1) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
+			if (sscanf(cb + 1, "%5u%n", &port, &len)
+				== 1 && port <= 0xffff && (size_t)len == ptrlen - hostnlen - 1) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
 						// instead
@@ -457,7 +460,8 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len) == 1) {
+			if (sscanf(cb + 1, "%5u%n", &port, &len) == 1
+				&& port <= 0xffff && (size_t)len == ptrlen - hostnlen - 1) {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From 473457330c33f91fc8f820e4d8a0ef984c339b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 21/29] fix: reading host:port texts used freed memory and
 wrote to the caller's text

str_parseip parsed freed memory when not tied to a scope, returned eight bytes
of text as a pointer, read a missing port, and cut the caller's text short.
---
 src/arrays.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 0efcf69..a090d73 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1142,7 +1142,7 @@ static EVENTS_INLINE const void *str_memrchr(const void *s, int c, size_t n) {
 
 #define ip_class(p) ((*(unsigned char*)(p))>>6)
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
-	unsigned char addr[4];
+	unsigned char addr[4] = {0};
 	char *p, **tmp = null, buf[ARRAY_SIZE] = {0};
 	int i, x;
 
@@ -1152,12 +1152,17 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 	}
 
 	if ((i = str_pos(name, "]:")) > 3) {
-		*port = atoi(trim_at(name, i + 2));
+		*port = atoi((const char *)name + i + 2);
+		if (name != buf) {
+			snprintf(buf, ARRAY_SIZE, "%s", name);
+			name = buf;
+		}
+
 		name[i + 1] = '\0';
 		return autofree ? str_dup(name) : str_dup_ex(name);
 	} else if ((i = str_pos(name, ":")) > 6) {
 		tmp = str_split_ex(name, ":", null);
-		*port = atoi(tmp[1]);
+		*port = is_empty(tmp[1]) ? 0 : atoi(tmp[1]);
 		name = tmp[0];
 		if (autofree) {
 			defer_free(tmp);
@@ -1167,10 +1172,13 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 			tmp = null;
 			if (i)
 				tmp = (char **)str_dup_ex(buf);
+
+			name = buf;
 		}
+	} else if (!autofree) {
+		tmp = (char **)str_dup_ex(name);
 	} else if (!str_is_empty((const char *)buf)) {
-		tmp = (char **)str_dup(buf);
-		name = (char *)tmp;
+		name = str_dup(buf);
 	}
 
 	p = name;
@@ -1209,10 +1217,7 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 	}
 
 	*ip = *(uint32_t *)addr;
-	if (is_empty(tmp) && autofree)
-		return name;
-
-	return autofree && !is_empty(tmp) ? tmp[0] : (char *)tmp;
+	return (autofree) ? name : (char *)tmp;
 }
 
 static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
-- 
2.43.0


From 13b6e6be721d2ee4c79dbf6063abdd7f264180a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 22/29] fix: exec_addenv keeps entries whole and terminates the
 environment text

---
 src/async_io.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index e562eb0..cfa1228 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -815,8 +815,9 @@ static void *spawning(param_t args) {
 }
 
 char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
-	char *k, *v, buf[Kb(2)] = {0}, *data = env;
-	int i, len;
+	char *k, *v, *data = env;
+	size_t len;
+	uint32_t i;
 	va_list ap;
 
 	if (num_pairs > 0) {
@@ -825,10 +826,10 @@ char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
 			/* Copy VARIABLE=VALUE;\0 string into the free space */
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
-			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			len = strlen(k) + strlen(v) + 2;
+			data = events_realloc(data, *size + len + 1);
+			snprintf(data + *size, len + 1, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 291147c69a0a25748b2fd21faea66783d5dc79ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:43 +0000
Subject: [PATCH 23/29] fix: a process inherits the environment by default,
 gets exactly its entries and arguments, and a failed start is reported

---
 src/os_unix.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 4147d7a..ec3bb54 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -15,6 +15,7 @@
 
 #if !defined(_WIN32) /* UNIX ONLY */
 
+extern char **environ;
 static void clear_pseudo_events(void);
 static sigset_t events_siglock, events_siglock_all;
 static struct sigaction events_sig_sa = {0}, events_sig_osa = {0};
@@ -520,10 +521,15 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		if (info->env != NULL)
 			events_free(info->env);
 
-		fdTable[info->fd].fd = p;
-		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0) {
+			events_free_fd(info->fd);
+			return (process_t)TASK_ERRED;
+		}
+
+		fdTable[info->fd].fd = p;
+		info->ps = p;
 		return (process_t)info->fd;
 	}
 
@@ -572,7 +578,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, (info->env == NULL ? environ : (char **)info->env));
 
 end:
 	_exit(255);
@@ -594,8 +600,13 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 
 	execinfo_t *info = fdTable[pseudofd].process;
 	info->detached = is_detached;
-	if (env != NULL && str_has(env, "=") && str_has(env, ";"))
-		info->env = (const char **)str_split_ex(env, ";", NULL);
+	if (env != NULL && str_has(env, "=")) {
+		int entries = 0;
+		info->env = (const char **)str_split_ex(env, ";", &entries);
+		/* the last entry ends with a separator too */
+		if (info->env != NULL && entries > 1 && *info->env[entries - 1] == '\0')
+			info->env[entries - 1] = NULL;
+	}
 
 	if (io_in)
 		info->write_input[1] = io_in;
@@ -611,7 +622,7 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
+	char *cmd_arg = str_cat_ex((str_is_empty(args) ? 1 : 3), command, ",", args);
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
-- 
2.43.0


From 0dd41c81bca76c2e6063788e3b159f357e15b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 24/29] fix: copyfile counts every chunk twice, spins on a
 source that shrank, and hides a failed close

---
 src/os_unix.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index ec3bb54..81f7e9d 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1497,16 +1497,22 @@ int copyfile(const char *source, const char *destination) {
 	result = fstat(input, &file_stat);
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
+		// sendfile itself moves `copied` behind the last byte read.
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
 		if (written == -1) {
 			result = -1;
+		} else if (written == 0) {
+			// the source became shorter meanwhile, nothing left to copy
+			break;
 		}
 	}
 
+	int err = errno;
 	close(input);
-	close(output);
+	if (close(output) == -1 && result == 0)
+		return -1;
 
+	errno = err;
 	return result;
 }
 #endif
-- 
2.43.0


From f596d30b31727629c39cb544b0509f6ff2b2444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 25/29] fix: reading queued work or a file promise loses the
 error number of the call it ran

---
 src/future.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/future.c b/src/future.c
index d291fc5..c6fec3d 100644
--- a/src/future.c
+++ b/src/future.c
@@ -60,6 +60,9 @@ EVENTS_INLINE values_t promise_wait(promise *p) {
 	while (is_promise(p) && !atomic_flag_load(&p->done))
 		yield_active_info();
 
+	if (is_promise(p) && p->erred)
+		errno = p->erred;
+
 	return p->result->value;
 }
 
@@ -269,6 +272,7 @@ promise *alloc_promise(void) {
 	promise *f = null;
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
+		f->erred = 0;
 		f->result->is_array = false;
 		f->result->value.integer = 0;
 		atomic_flag_clear(&f->mutex);
@@ -433,6 +437,9 @@ values_t queue_get(void *self) {
 		while (!atomic_flag_load(&p->done))
 			yield_active_info();
 
+		if (p->erred)
+			errno = p->erred;
+
 		if (p->result->is_array == 1) {
 			defer_free(p);
 			defer_free(p->result->value.object);
-- 
2.43.0


From e57d34efd3ef95edcdcd1a80b6fd36a470dcf551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:16 +0000
Subject: [PATCH 26/29] fix: catch_if runs again in place of finally for an
 exception it does not handle, and no handler learns the function that threw

---
 src/except.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 794e5b0..96783bb 100644
--- a/src/except.c
+++ b/src/except.c
@@ -865,6 +865,7 @@ EVENTS_INLINE ex_error_t *try_updating_err(ex_error_t *err, ex_context_t *ex_err
     err->name = ex_err->ex;
 #endif
     err->file = ex_err->file;
+    err->function = ex_err->function;
     err->backtrace = ex_err->backtrace;
     err->line = ex_err->line;
 	err->is_caught = ex_err->state == ex_catch_st;
@@ -937,7 +938,7 @@ bool try_next(ex_error_t *err, ex_context_t *ex_err) {
 bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     /* check if this CATCH block can handle current exception */
     bool status = false;
-    if (ex_err->state == ex_throw_st) {
+    if (ex_err->state == ex_throw_st && err->stage == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
             status = true;
-- 
2.43.0


From d6b0d64880b1b136f90b3a9922e6735064486a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 27/29] fix: one protected value already gone keeps every value
 registered before it from being released

---
 src/except.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index 96783bb..9ba7c1b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -167,15 +167,16 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		scope_unwind(ctx->data);
     } else {
 		while (p && p->type == DATA_EXCEPT_PROTECTED) {
-            if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
-                break;
-
+            /* a value already gone does not keep the others from being released */
             if (*p->ptr) {
+                if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
+                    break;
+
 				p->type = DATA_INVALID;
                 p->func(*p->ptr);
+                temp = *p->ptr;
             }
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From d379a6b24ff9fe119243619453a98ee6b74a82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 28/29] fix: an option behind an argument that is part of the
 help words is not found, and a value with = in it is cut

---
 src/getopt.c | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/getopt.c b/src/getopt.c
index ca0b7ed..a11afb7 100644
--- a/src/getopt.c
+++ b/src/getopt.c
@@ -13,6 +13,16 @@ static void usage(const char *program, char *message) {
 	cerr(CLR_LN"Usage: %s OPTIONS\n%s"CLR_LN, program, (message == NULL ? "" : message));
 }
 
+static bool is_help(const char *arg) {
+	return str_is(arg, "-h") || str_is(arg, "--h") || str_is(arg, "?") || str_is(arg, "help");
+}
+
+/* The argument is `flag=...`. */
+static bool is_assigned(const char *arg, const char *flag) {
+	size_t len = is_empty((void *)flag) ? 0 : strlen(flag);
+	return len > 0 && strncmp(arg, flag, len) == 0 && arg[len] == '=';
+}
+
 void getopt_message_set(const char *message, int minium, bool is_ordered) {
 	if (!command_line_set) {
 		command_line_set = true;
@@ -27,31 +37,23 @@ char *getopts(void) {
 }
 
 bool getopt_has(const char *flag, bool is_single) {
-	char *unknown = NULL, **flags = NULL;
+	char *unknown = NULL;
 	bool show_help = false, is_unknown = false, is_split = false;
 	int i = 0;
 
 	// Parse command-line flags
 	if (command_line_argc > command_line_required) {
 		for (i = command_line_index; i < command_line_argc; i++) {
-			if (is_single && str_has(command_line_argv[i], "=")) {
-				flags = str_split_ex(command_line_argv[i], "=", NULL);
-				is_split = true;
-			}
-
 			if (flag == NULL && i == command_line_index) {
-				if (is_split)
-					events_free(flags);
-
 				command_line_option = command_line_argv[i];
 				if (command_line_ordered)
 					command_line_index = i + 1;
 
 				return true;
-			} else if (str_is(command_line_argv[i], flag) || (is_split && str_is(flags[0], flag))) {
+			} else if (str_is(command_line_argv[i], flag) || (is_single && (is_split = is_assigned(command_line_argv[i], flag)))) {
 				if (is_split) {
-					command_line_option = flags[1];
-					defer_free(flags);
+					// everything behind the `=`
+					command_line_option = command_line_argv[i] + strlen(flag) + 1;
 				} else {
 					command_line_option = is_single ? command_line_argv[i] : command_line_argv[++i];
 				}
@@ -59,25 +61,16 @@ bool getopt_has(const char *flag, bool is_single) {
 				if (command_line_ordered)
 					command_line_index = i + 1;
 				return true;
-			} else if (str_has("-h, --h, ?, help", command_line_argv[i])) {
+			} else if (is_help(command_line_argv[i])) {
 				show_help = true;
 				break;
 			} else {
 				is_unknown = true;
 				unknown = command_line_argv[i];
 			}
-
-			if (is_split) {
-				events_free(flags);
-				flags = NULL;
-				is_split = false;
-			}
 		}
 	}
 
-	if (is_split && flags != NULL)
-		events_free(flags);
-
 	if (is_unknown)
 		cerr("\nUnknown flag provided: %s", unknown);
 
-- 
2.43.0


From c54f17daa147ec842f72da6d523c1b77a1cf64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 29/29] fix: a range of more numbers than a new array holds
 writes to released memory, and an empty or backward range asks for an absurd
 size

---
 src/arrays.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index a090d73..0cfd3de 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -76,10 +76,12 @@ const data_values_t data_values_empty[1] = {0};
 
 range_t rangeing(int start, int stop, int steps) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int64_t i, n = (steps > 0 && start < stop) ? ((int64_t)stop - start - 1) / steps + 1 : 0;
 	size_t cv_sz___;
-	for (i = start; i < stop; i = i + steps)
-		$append(arr, (intptr_t)i);
+	/* appending does not tell where the array moved when it grows */
+	array_grow((arr), ((size_t)n + 1));
+	for (i = 0; i < n; i++)
+		$append(arr, (intptr_t)(start + i * steps));
 
 	cv_sz___ = array_length(arr);
 	array_grow((arr), (cv_sz___));
@@ -90,7 +92,8 @@ range_t rangeing(int start, int stop, int steps) {
 
 range_t range(int start, int stop) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int i;
+	size_t n = start < stop ? (size_t)((int64_t)stop - start) : 0;
 	array_grow((arr), (n + 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
-- 
2.43.0

