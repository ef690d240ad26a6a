/*@vf
[[unit]]
prop = "C02"
entry = "harness_take"
what = "taking from the ready queue removes the oldest task only; an empty queue yields none"
functions = ["task_dequeue"]
plain = true
each = "N=0!8 N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8"
stub = ["__thrd:vf_thrd"]

[[unit]]
prop = "C02"
entry = "harness_cut"
what = "removing the task at any place leaves all the others in their order"
functions = ["dequeue (the queue macro)"]
plain = true
each = "N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8 N=5,ANY,GAP=0,GAPB=3!8"
stub = ["__thrd:vf_thrd"]

[[unit]]
prop = "C02"
entry = "harness_yield"
what = "yielding puts the running task behind every ready task before it gives way, once"
functions = ["yield"]
plain = true
each = "N=0!8 N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8"
stub = ["__thrd:vf_thrd", "suspend:vf_suspend", "active_task:vf_active"]
trusted = ["suspend gives way to the scheduler and returns when the task runs again (C24)"]

[[unit]]
prop = "C02"
entry = "harness_resume"
what = "resuming a suspended task queues it and then the resumer behind every ready task, each once; a task that never ran is switched to"
functions = ["resume"]
plain = true
each = "N=0!8 N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8"
stub = ["__thrd:vf_thrd", "suspend:vf_suspend", "active_task:vf_active", "task_switch:vf_switch"]

[[unit]]
prop = "C02"
entry = "harness_iowake"
what = "a task whose descriptor is ready goes behind every ready task, once, and its registration is removed"
functions = ["wait_cb"]
plain = true
each = "N=0!8 N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8"
stub = ["__thrd:vf_thrd", "events_del:vf_del"]

[[unit]]
prop = "C02"
entry = "harness_sched"
what = "one step of the scheduler runs the oldest ready task, leaves the others in order, and retires it exactly when it has ended"
functions = ["tasks_schedulering", "task_dequeue"]
plain = true
each = "N=0!8 N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8"
stub = ["__thrd:vf_thrd", "task_switch:vf_switch", "task_delete:vf_task_delete", "data_gc:vf_gc", "events_once:vf_once"]

[[unit]]
prop = "C02"
entry = "harness_push"
what = "a new task is put behind every ready task, once, with a new number"
functions = ["task_push"]
plain = true
each = "N=0!8 N=1!8 N=2!8 N=3!8 N=4!8 N=5!8 N=6!8 N=6,ANY!8"
stub = ["__thrd:vf_thrd", "active_task:vf_active", "tasks_create_result:vf_result", "data_append:vf_append", "enqueue_tasks:vf_enq"]

[[unit]]
prop = "C02"
entry = "harness_pool"
what = "tasks handed over by other threads are put behind every ready task, in the order taken, none lost"
functions = ["task_take"]
plain = true
each = "N=0,M=0,A=0!9 N=0,M=2,A=0!9 N=2,M=1,A=1!9 N=2,M=1,A=2!9 N=2,M=4,A=0!9 N=2,M=4,A=3!9"
kind = "bounded"
bound = "queues of up to 2 tasks and up to 4 tasks handed over"
stub = ["__thrd:vf_thrd", "deque_steal:vf_steal"]

[[unit]]
prop = "C02"
entry = "harness_group"
what = "waiting for a task group never queues a ready task twice and loses no other task; it ends when every member has ended"
functions = ["tasks_wait"]
plain = true
each = "N=0,M=1!8 N=2,M=1!8 N=3,M=2!8"
kind = "bounded"
bound = "up to 3 ready tasks, groups of up to 2 members, up to 3 rounds"
stub = ["__thrd:vf_thrd", "active_task:vf_active", "yield:vf_gyield", "suspend:vf_suspend", "tasks_info:vf_tinfo", "task_delete:vf_task_delete", "events_free:vf_free", "task_name:vf_name", "defer_free:vf_defer_free"]

[[unit]]
prop = "C17"
entry = "harness_give"
what = "yielding waits until the previous value has been taken and then offers exactly its value, once"
functions = ["yielding"]
plain = true
unwind = 6
kind = "bounded"
bound = "the consumer takes the previous value within 4 turns"
stub = ["__thrd:vf_thrd", "active_task:vf_active", "yield:vf_gen_yield"]
trusted = ["yield runs other tasks and returns later"]

[[unit]]
prop = "C17"
entry = "harness_get"
what = "asking for a value waits until one is offered, takes exactly that one, once; an ended generator gives the empty value"
functions = ["yielded", "data_type"]
plain = true
unwind = 6
kind = "bounded"
bound = "the generator offers or ends within 4 turns; up to 2 other ready tasks"
stub = ["__thrd:vf_thrd", "active_task:vf_active", "yield:vf_gen_yield", "active_info:vf_info"]
trusted = ["yield runs other tasks and returns later"]

[[unit]]
prop = "C17"
entry = "harness_notgen"
what = "yielding outside a generator is refused"
functions = ["yielding"]
plain = true
defs = ["VF_THROW_REACH"]
stub = ["__thrd:vf_thrd", "active_task:vf_active", "yield:vf_gen_yield", "events_abort:vf_abort", "ex_throw:vf_throw"]
@*/
#include "vf.h"
#include "events.c"
#include "stubs.h"
#include "libc_models.h"
#ifndef N
# define N 2
#endif
#ifndef M
# define M 0
#endif
#ifndef VF_NATIVE
void *calloc(size_t n, size_t m) { BOUND(false); return NULL; }
void *realloc(void *p, size_t m) { BOUND(false); return NULL; }
#endif
VF_INPUTS( int pos; int tc; unsigned cycles; bool halt; bool halted; bool sys; bool waiting; bool ref; bool io; bool loopset; bool threaded; bool res; int cids; void *val; void *old; int turns; bool end; bool susp; bool inq; int sl; bool rd[4]; int rounds; int ev; int fd; bool taken[4]; unsigned abortat; )
static events_thread_t THRD;
events_thread_t *vf_thrd(void) { return &THRD; }
static tasks_t Q0, Q1, Q2, Q3, Q4, Q5, Q6, R, C, CUR;
static tasks_t *const QQ[7] = {&Q0, &Q1, &Q2, &Q3, &Q4, &Q5, &Q6};
#ifndef GAP
# define GAP 2
#endif
#define GAP1 ((tasks_t *)1)
#define GAP2 ((tasks_t *)3)
static void queue_in(int n) {
	int i;
	THRD.run_queue->head = n ? QQ[0] : NULL; THRD.run_queue->tail = n ? QQ[n - 1] : NULL;
	for (i = 0; i < n; i++) {
		QQ[i]->prev = i ? QQ[i - 1] : NULL; QQ[i]->next = i < n - 1 ? QQ[i + 1] : NULL;
		QQ[i]->ready = true; QQ[i]->status = TASK_NORMAL;
	}
#ifdef ANY
	/* any number of further tasks between two neighbours: the code has no way
	 * to them but through these links, which it may neither follow nor change */
	QQ[GAP]->next = GAP1; QQ[GAP + 1]->prev = GAP2;
# ifdef GAPB
	QQ[GAPB]->next = GAP1; QQ[GAPB + 1]->prev = GAP2;
# endif
#endif
	RANGE(IN.tc, 1, 1000);
	THRD.task_count = IN.tc;
	THRD.running = &R; R.magic_number = C.magic_number = TASK_MAGIC_NUMBER;
	THRD.current_handle = &CUR;
	/* stale links of a task that is not queued */
	R.next = R.prev = &C; C.next = C.prev = &R;
}
/* exactly tasks from .. n-1 but skip, then x, then y */
static bool queue_is(int from, int n, int skip, tasks_t *x, tasks_t *y) {
	tasks_t *t = THRD.run_queue->head, *p = NULL;
	int i;
	for (i = from; i < n; i++) {
		if (i == skip) continue;
		if (t != QQ[i] || t->prev != p) return false;
		p = t; t = t->next;
#ifdef ANY
		if (i == GAP
# ifdef GAPB
			|| i == GAPB
# endif
		) { if (t != GAP1) return false; p = GAP2; t = QQ[i + 1]; }
#endif
	}
	if (x) { if (t != x || t->prev != p) return false; p = t; t = t->next; }
	if (y) { if (t != y || t->prev != p) return false; p = t; t = t->next; }
	return t == NULL && THRD.run_queue->tail == p;
}
tasks_t *vf_active(void) { return &R; }
static int suspends, switches; static tasks_t *switched;

#ifdef H_take
void harness_take(void) {
	tasks_t *t;
	VF_BEGIN();
	queue_in(N);
	t = task_dequeue(THRD.run_queue);
	CHECK(t == (N ? QQ[0] : NULL), "take: the oldest task");
	CHECK(queue_is(1, N, -1, NULL, NULL), "take: the others keep their order");
	REACH("taken");
}
#endif
#ifdef H_cut
void harness_cut(void) {
	tasks_t *t; tasklist_t *l = THRD.run_queue;
	VF_BEGIN();
	queue_in(N);
	RANGE(IN.pos, 0, N - 1);
#ifdef GAPB
	IN.pos = 2;         /* inner task, neither neighbour at an end */
#elif defined(ANY)
	ASSUME(IN.pos != GAP && IN.pos != GAP + 1);
#endif
	t = QQ[IN.pos];
	dequeue(l, t);
	CHECK(queue_is(0, N, IN.pos, NULL, NULL), "remove: only that task leaves, the others keep their order");
	REACH("removed");
}
#endif
#ifdef H_yield
void vf_suspend(void) {
	suspends++;
	CHECK(queue_is(0, N, -1, &R, NULL), "yield: behind every ready task, once");
	CHECK(R.ready, "yield: marked ready");
}
void harness_yield(void) {
	VF_BEGIN();
	queue_in(N);
	RANGE(IN.sl, 0, 5); THRD.sleep_count = IN.sl;
	R.ready = false;
	yield();
	CHECK(suspends == 1, "yield: gives way once");
	REACH("yielded");
}
#endif
#ifdef H_resume
void vf_suspend(void) {
	suspends++;
	CHECK(queue_is(0, N, -1, &C, &R) && C.ready && R.ready, "resume: both behind every ready task, once");
}
void vf_switch(tasks_t *t) {
	switches++;
	CHECK(t == &C && queue_is(0, N, -1, &R, NULL) && R.ready, "resume: the new task runs, the resumer waits behind every ready task");
}
void harness_resume(void) {
	VF_BEGIN();
	queue_in(N);
	C.cycles = IN.cycles; C.ready = false; R.ready = false;
	if (IN.sys) C.magic_number = 0;
	resume(&C);
	if (IN.sys) {
		CHECK(suspends + switches == 0 && queue_is(0, N, -1, NULL, NULL), "resume: something that is no task changes nothing");
		REACH("not a task");
	} else {
		CHECK(suspends == (IN.cycles > 1) && switches == (IN.cycles <= 1), "resume: gives way once");
		REACH("resumed");
	}
}
#endif
#ifdef H_iowake
static int dels, delfd; static events_fd_t FDS[4];
int vf_del(fds_t fd) { dels++; delfd = (int)fd; return 0; }
void harness_iowake(void) {
	VF_BEGIN();
	queue_in(N);
	RANGE(IN.fd, 0, 3);
	sys_event.fds = FDS;
	C.ready = false;
	wait_cb(IN.fd, IN.ev, &C);
	CHECK(queue_is(0, N, -1, &C, NULL) && C.ready, "wake: behind every ready task, once");
	CHECK(dels == 1 && delfd == IN.fd, "wake: the registration is removed");
	CHECK(FDS[IN.fd].events == (short)IN.ev || FDS[IN.fd].events == IN.ev || (unsigned char)FDS[IN.fd].events == (unsigned char)IN.ev, "wake: the event is recorded");
	REACH("woken");
}
#endif
#ifdef H_sched
static int deleted, gced; static tasks_t *gone; static struct events_loop_s L; static int polled;
void vf_switch(tasks_t *t) {
	switches++; switched = t;
	CHECK(THRD.running == t && !t->ready, "schedule: the task is the running one");
	CHECK(queue_is(1, N, -1, NULL, NULL), "schedule: the others keep their order");
	if (IN.halted) t->halt = true;
}
void vf_task_delete(tasks_t *t) { deleted++; gone = t; }
void vf_gc(void *p) { gced++; gone = p; }
int vf_once(events_t *l, int w) { polled++; CHECK(l == &L, "schedule: polls this thread's loop"); return 0; }
void harness_sched(void) {
	int r;
	unsigned before;
	bool ended;
	VF_BEGIN();
	queue_in(N);
	THRD.loop = IN.loopset ? &L : NULL;
	Q0.halt = IN.halt; Q0.system = IN.sys; Q0.waiting = IN.waiting; Q0.referenced = IN.ref;
	ended = IN.halt || IN.halted;
	r = tasks_schedulering(IN.io);
	CHECK(THRD.running == NULL, "schedule: nothing is running between steps");
	CHECK(queue_is(1, N, -1, NULL, NULL), "schedule: only the oldest left the queue");
	CHECK(polled == (N && IN.io && IN.loopset), "schedule: input and output are polled when asked");
#if N == 0
	CHECK(r == TASK_ERRED && switches == 0 && deleted == 0 && gced == 0 && THRD.task_count == IN.tc, "schedule: an empty queue is reported"); REACH("empty");
#else
	{
		CHECK(r == 0 && switches == !IN.halt && (IN.halt || switched == QQ[0]), "schedule: the oldest task runs once, an ended one does not");
		CHECK(THRD.task_count == IN.tc - (ended && !IN.sys), "schedule: the count drops exactly when a task ends");
		CHECK(deleted == (ended && !IN.waiting && !IN.ref) && gced == (ended && IN.ref) && (deleted + gced == 0 || gone == QQ[0]), "schedule: an ended task nobody waits for is released once");
		REACH("ran");
	}
#endif
}
#endif
#ifdef H_push
static _results_data_t RES; static int enq, results;
results_data_t vf_result(void) { results++; return &RES; }
void vf_append(array_t a, void *v) { CHECK(false, "no group"); }
void vf_enq(tasks_t *t) { enq++; }
void harness_push(void) {
	uint32_t r;
	VF_BEGIN();
	queue_in(N);
	RANGE(IN.cids, 0, 1000000);
	atomic_init(&sys_event.id_generate, IN.cids);
	RES.id = 77;
	C.status = IN.susp ? TASK_SUSPENDED : TASK_NORMAL; C.cid = DATA_INVALID; C.is_threaded = false; C.ready = false;
	R.group_active = false;
	r = task_push(&C, IN.res);
	if (IN.susp) {
		CHECK(queue_is(0, N, -1, &C, NULL) && C.ready && enq == 0, "push: behind every ready task, once");
		CHECK(C.cid == IN.cids + 1 && results == (IN.res ? 1 : 0) && C.rid == (IN.res ? 77 : NO_RESULT) && r == (IN.res ? C.rid : C.cid), "push: a new number, and a result slot when asked");
		CHECK(THRD.task_count == IN.tc + 1, "push: counted");
		REACH("pushed");
	} else {
		CHECK(queue_is(0, N, -1, NULL, NULL) && THRD.task_count == IN.tc && results == 0, "push: a task that is already known is not queued again");
		REACH("known");
	}
}
#endif
#ifdef H_pool
static events_deque_t D; static int stolen; static unsigned asked;
tasks_t *vf_steal(events_deque_t *q) {
	CHECK(q == &D, "hand-over: this thread's deque");
	if (++asked == A) return TASK_ABORT_T;
	return stolen < M ? QQ[N + stolen++] : TASK_EMPTY_T;
}
void harness_pool(void) {
	int i, tc = 0;
	bool r;
	VF_BEGIN();
	queue_in(N);
	atomic_init(&D.available, M);
	for (i = 0; i < M; i++) { QQ[N + i]->ready = false; QQ[N + i]->taken = IN.taken[i]; QQ[N + i]->next = QQ[N + i]->prev = &CUR; tc += !IN.taken[i]; }
	r = task_take(&D);
	CHECK(r == (M > 0), "hand-over: reported");
	CHECK(queue_is(0, N + M, -1, NULL, NULL), "hand-over: behind every ready task, in order");
	for (i = 0; i < M; i++) CHECK(QQ[N + i]->ready && QQ[N + i]->taken, "hand-over: ready");
	CHECK(THRD.task_count == IN.tc + tc && atomic_load(&D.available) == 0, "hand-over: counted");
	REACH("taken over");
}
#endif
#ifdef H_group
static task_group_t G; static values_t GR[4]; static values_t OUT[4];
static int gsize, osize, rounds, deletes, frees; static int gone;
size_t data_size(array_t a) { return (values_t *)a == GR ? gsize : osize; }
void data_remove(array_t a, size_t i) { size_t k; CHECK((values_t *)a == GR && i < (size_t)gsize, "group: removes a member"); for (k = i; k + 1 < (size_t)gsize; k++) GR[k] = GR[k + 1]; gsize--; }
void data_append_item(array_t a, ...) { osize++; }
void data_delete(array_t a) { }
array_t array(void) { return (array_t)OUT; }
bool is_ptr_usable(void *p) { return p != NULL; }
bool vf_defer_free(void *p) { return true; }
void vf_suspend(void) { CHECK(false, "group: no member sleeps here"); }
void vf_tinfo(tasks_t *t, int p) { }
void vf_name(char *f, ...) { }
void vf_free(void *p) { frees++; }
void vf_task_delete(tasks_t *t) { deletes++; CHECK(t->halt, "group: only an ended member is released"); }
/* members: QQ[1..] of the queue (ready), or C (not ready, when rd[0] is false) */
static bool intact(void) {
	/* every task that was ready is still queued, in order, once; C at most once behind them */
	return queue_is(0, N, -1, NULL, NULL) || queue_is(0, N, -1, &C, NULL);
}
void vf_gyield(void) {
	int i;
	CHECK(intact(), "group: no ready task is lost, moved or queued twice while waiting");
	/* the queued member has run by the time the waiting task runs again */
	if (THRD.run_queue->tail == &C) { tasklist_t *l = THRD.run_queue; tasks_t *t = &C; dequeue(l, t); }
	if (++rounds >= 3) { Q0.halt = true; Q1.halt = true; C.halt = true; }
	if (rounds > 12) VF_STOP();
}
void harness_group(void) {
	array_t r;
	VF_BEGIN();
	queue_in(N);
	THRD.started = true;
	C.ready = false; C.status = TASK_NORMAL; C.results = NULL; C.halt = false;
	GR[0].object = N > 0 && !IN.io ? (void *)&Q0 : (void *)&C;
	if (M > 1) GR[1].object = IN.io ? (void *)&Q0 : (void *)&C;
	gsize = M;
	G.group = (array_t)GR; G.threaded = false;
	R.group_active = true; R.task_group = &G;
	r = tasks_wait(&G);
	CHECK(gsize == 0 && deletes == M && rounds >= 3, "group: ends when every member has ended, each released once");
	CHECK(intact(), "group: no ready task is lost");
	CHECK(THRD.task_count == IN.tc, "group: the number of live tasks is unchanged by waiting");
	REACH("waited");
}
#endif
#if defined(H_give) || defined(H_get) || defined(H_notgen)
static struct generator_s G; static int yields;
static tasks_t GT;
static void *taken; static int takes;
void vf_info(void) { }
#endif
#ifdef H_give
static bool pending; static bool offered;
void vf_gen_yield(void) {
	yields++;
	if (G.is_ready && pending) {
		CHECK(G.values->object == IN.old, "yield value: the previous value stays until it is taken");
		if (yields >= IN.turns) { G.is_ready = false; pending = false; }
	} else {
		CHECK(!offered && !pending && G.is_ready && G.values->object == IN.val, "yield value: exactly its value is offered, once, after the previous was taken");
		offered = true;
	}
}
void harness_give(void) {
	VF_BEGIN();
	RANGE(IN.turns, 0, 4);
	R.is_generator = true; R.generator = &G; G.context = &R; G.type = DATA_GENERATOR;
	if (IN.turns) { G.is_ready = true; pending = true; G.values->object = IN.old; }
	yielding(IN.val);
	CHECK(offered, "yield value: offered before it returns");
	CHECK(G.is_ready && G.values->object == IN.val, "yield value: stays offered");
	REACH("given");
}
#endif
#ifdef H_get
data_types data_type(void *self) { return self == NULL ? DATA_INVALID : ((data_t *)self)->type; }
const data_values_t data_values_empty[1] = {0};
static bool once;
void vf_gen_yield(void) {
	yields++;
	CHECK(!G.is_ready, "take value: waits only while none is offered");
	if (IN.susp) {
		CHECK(IN.inq ? queue_is(0, 3, -1, NULL, NULL) : queue_is(0, 2, -1, &Q2, NULL), "take value: a generator that has not started is queued once, others stay");
		/* it starts */
		THRD.run_queue->head = &Q0; THRD.run_queue->tail = &Q1; Q1.next = NULL; Q2.status = TASK_NORMAL; IN.susp = false;
	} else
		CHECK(queue_is(0, 2, -1, NULL, NULL), "take value: no other task is touched");
	if (yields >= IN.turns) { if (IN.end) Q2.halt = true; else { G.values->object = IN.val; G.is_ready = true; } }
}
void harness_get(void) {
	values_t v;
	bool susp0;
	VF_BEGIN();
	RANGE(IN.turns, 0, 4);
	G.context = &Q2; G.type = DATA_GENERATOR; G.rid = 5; R.gen_id = 9;
	queue_in(2);
	Q2.status = IN.susp ? TASK_SUSPENDED : TASK_NORMAL; Q2.halt = false; Q2.ready = false;
	if (IN.susp && IN.inq) queue_in(3), Q2.status = TASK_SUSPENDED;
	if (IN.turns == 0) { if (IN.end) Q2.halt = true; else { G.is_ready = true; G.values->object = IN.val; } ASSUME(!IN.susp); }
	v = yielded(&G);
	if (IN.end) {
		CHECK(v.object == NULL && R.gen_id == 9, "take value: an ended generator gives the empty value");
		REACH("ended");
	} else {
		CHECK(v.object == IN.val && R.gen_id == 5, "take value: exactly the offered value, and from whom");
		CHECK(!G.is_ready, "take value: taken once");
		REACH("taken");
	}
	CHECK(yields == IN.turns, "take value: waits no longer than needed");
	G.type = DATA_INVALID;
	CHECK(yielded(&G).object == NULL, "take value: something that is no generator gives the empty value");
}
#endif
#ifdef H_notgen
void vf_gen_yield(void) { CHECK(false, "a task that is no generator offers nothing"); }
void vf_abort(const char *m, const char *f, int l, const char *fn) { vf_throw_hook(); }
void vf_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *b) { vf_throw_hook(); }
void harness_notgen(void) {
	VF_BEGIN();
	vf_may_throw = true;
	R.is_generator = false;
	yielding(IN.val);
	CHECK(false, "yield value: refused outside a generator");
}
#endif
