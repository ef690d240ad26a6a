/*@vf
[[unit]]
prop = "C13"
entry = "harness_set"
what = "placing a value stores exactly that value (a list is copied), and only then is the promise done; a failed call leaves its error number"
functions = ["promise_set"]
plain = true
unwind = 3
stub = ["is_data:vf_is_data", "data_copy:vf_copy", "data_tuple:vf_tuple"]
trusted = ["copying a list gives a list of the same entries (C05)"]

[[unit]]
prop = "C13"
entry = "harness_get"
what = "reading waits until the value is placed, gives exactly it, brings its error number along, releases the promise once, and leaves the value; anything else is refused"
functions = ["queue_get", "is_future", "is_promise", "data_type"]
plain = true
unwind = 6
kind = "bounded"
bound = "up to 4 turns of waiting"
stub = ["yield_active_info:vf_turn", "defer_free:vf_defer_free", "ex_throw:vf_throw"]

[[unit]]
prop = "C13"
entry = "harness_wait"
what = "waiting ends only when the value is placed, gives exactly it and its error number, and changes nothing"
functions = ["promise_wait", "is_promise"]
plain = true
unwind = 6
kind = "bounded"
bound = "up to 4 turns of waiting"
stub = ["yield_active_info:vf_turn"]

[[unit]]
prop = "C13"
entry = "harness_thread"
what = "the result of a thread is read once it ended, is the value placed, keeps its value when read again, and an error of the thread is raised in the reader as that error"
functions = ["thrd_get", "promise_get", "promise_erred"]
plain = true
unwind = 6
kind = "bounded"
bound = "up to 4 turns of waiting"
trusted = ["a list result of a thread (same step as in queue_get, checked there)"]
stub = ["os_sleep:vf_sleep", "os_join:vf_join", "defer_free:vf_defer_free", "ex_throw:vf_throw"]

[[unit]]
prop = "C13"
entry = "harness_queue"
what = "queued work carries its function, its arguments and the worker asked for unchanged, starts undone, and is spread in rotation; what cannot be queued is released and refused"
functions = ["queue_work"]
plain = true
unwind = 4
stub = ["data_ex:vf_data_ex", "arrays:vf_arrays", "create_task:vf_create_task", "task_push:vf_task_push", "yield:vf_yield", "events_calloc:vf_calloc", "events_free:vf_free", "data_delete:vf_delete", "data_size:vf_size"]
defs = ["NW=3"]
kind = "bounded"
bound = "three workers"
trusted = ["data_ex keeps the arguments it is given (C05)"]

[[unit]]
prop = "C13"
entry = "harness_rotate"
what = "workers are taken in rotation, whatever the count so far"
functions = ["futures_pool"]
plain = true
each = "NW=1 NW=2 NW=3 NW=5"
kind = "bounded"
bound = "1, 2, 3 and 5 workers"
stub = ["data_size:vf_size"]

[[unit]]
prop = "C13"
entry = "harness_handler"
what = "the job is handed to its own worker once, counted after it is there, and its error number is passed on when it is done"
functions = ["queue_work_handler", "enqueue_promise"]
plain = true
unwind = 6
kind = "bounded"
bound = "up to 4 turns of waiting"
stub = ["data_append:vf_append", "yield:vf_yield", "yield_active_info:vf_turn", "task_name:vf_name", "task_id:vf_task_id", "get_scope:vf_get_scope"]
@*/
#include "vf.h"
#include <stdarg.h>
#include "future.c"
#undef read
#undef write
#undef close
#undef open
#include "stubs.h"
#ifndef A
# define A 0
#endif
#ifndef NW
# define NW 1
#endif
sys_events_t sys_event;
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
EVENTS_INLINE data_types data_type(void *self) { return self == NULL ? DATA_INVALID : ((data_t *)self)->type; }
static int ERRNO;
int *__errno_location(void) { return &ERRNO; }
#else
# define ERRNO errno
#endif
VF_INPUTS( size_t res; bool list; int err; int type; int itype; int arr; size_t val; int turns; int erred; int what; bool again; bool bad; int joined; size_t count; bool nomem; bool noargs; bool nopush; int id; int last; int avail; )
static promise P; static struct future_s F; static values_t LIST[4], COPY[4];
static int copies, tuples, turns, defers; static void *rel_[3];
static bool expect; static int thrown;
bool vf_is_data(void *p) { return p == LIST; }
array_t vf_copy(array_t d, array_t s) { copies++; CHECK(s == (array_t)LIST, "value: the list given is copied"); return (array_t)COPY; }
tuple_t vf_tuple(array_t v) { tuples++; CHECK(v == (array_t)COPY, "value: of the copy"); return (tuple_t)COPY; }
bool vf_defer_free(void *p) { CHECK(defers < 3, "read: released once"); if (defers < 3) rel_[defers++] = p; return true; }
static void set_done(promise *p) { atomic_flag_test_and_set(&p->done); }
static bool is_done(promise *p) { return atomic_flag_load(&p->done); }
/* a turn of the other side: in its last turn the value is placed */
static void place(promise *p) { if (++turns >= IN.turns) { p->result->is_array = IN.arr; if (IN.arr == 1) p->result->value.object = LIST; else p->result->value.max_size = IN.val; p->erred = IN.erred; set_done(p); } }
void vf_turn(void) { CHECK(!is_done(&P) && !is_done(F.promise), "wait: no longer than needed"); place(IN.what == 1 ? F.promise : &P); }
int vf_sleep(uint32_t m) { CHECK(!is_done(F.promise), "wait: no longer than needed"); place(F.promise); return 0; }
void vf_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d);
static void prepare(promise *p) {
	p->type = DATA_PROMISE; p->result->is_array = IN.turns == 0 ? IN.arr : 0; p->erred = IN.turns == 0 ? IN.erred : 0;
	if (IN.turns != 0) p->result->value.max_size = 0; else if (IN.arr == 1) p->result->value.object = LIST; else p->result->value.max_size = IN.val;
	if (IN.turns == 0) set_done(p);
}
static void empties(void) {
	RANGE(IN.turns, 0, 4);
	turns = defers = thrown = 0;
	LIST[0].max_size = IN.res;
	errno = IN.err;
}
#ifdef H_set
void harness_set(void) {
	void *res;
	VF_BEGIN();
	errno = IN.err;
	P.type = DATA_PROMISE; P.erred = IN.erred; P.id = IN.id;
	res = IN.list ? (void *)LIST : (void *)IN.res;
	ASSUME(IN.list || IN.res != (size_t)LIST);
	promise_set(&P, res);
	CHECK(is_done(&P), "value: placed, so done");
	CHECK(!atomic_flag_load((atomic_flag *)&P.mutex), "value: the lock is released");
	if (IN.list) CHECK(copies == 1 && tuples == 1 && P.result->is_array == 1 && P.result->value.object == COPY, "value: a copy of the list");
	else CHECK(copies == 0 && P.result->is_array == 0 && P.result->value.object == res, "value: exactly the one placed");
	CHECK(P.erred == (!IN.list && res == casting(DATA_INVALID) ? IN.err : IN.erred), "value: a failure leaves its error number");
	CHECK(P.id == IN.id && P.type == DATA_PROMISE && errno == IN.err, "value: nothing else changes");
	REACH("placed");
}
#endif
#ifdef H_get
static bool valid;
void vf_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d) { CHECK(!valid || IN.arr < 0 || IN.arr > 1, "read: refused only what has no value"); REACH("refused"); VF_STOP(); }
void harness_get(void) {
	values_t r; promise *p; data_t OTHER = {0};
	VF_BEGIN();
	empties();
	RANGE(IN.what, 0, 3);
	p = IN.what == 1 ? F.promise : &P;
	OTHER.type = IN.type; ASSUME(IN.type != DATA_PROMISE && IN.type != DATA_FUTURE);
	F.type = DATA_FUTURE; prepare(p);
	if (IN.what != 0 && IN.what != 1) set_done(&P);
	valid = IN.what < 2;
	r = queue_get(IN.what == 0 ? (void *)&P : IN.what == 1 ? (void *)&F : IN.what == 2 ? (void *)&OTHER : NULL);
	CHECK(valid && IN.arr >= 0 && IN.arr <= 1, "read: what has no value is refused");
	CHECK(turns == IN.turns && is_done(p), "read: after the value is placed");
	CHECK(r.max_size == (IN.arr ? IN.res : IN.val), "read: exactly the value placed");
	CHECK(p->result->value.max_size == (IN.arr ? (size_t)LIST : IN.val), "read: the value stays");
	CHECK(errno == (IN.erred ? IN.erred : IN.err), "read: brings the error number along");
	CHECK(defers == 1 + (IN.arr == 1) && rel_[0] == p && (IN.arr != 1 || rel_[1] == LIST), "read: released once");
	CHECK(p->result->is_array == DATA_INVALID, "read: once");
	if (IN.arr) REACH("list"); else REACH("value");
}
#endif
#ifdef H_wait
void harness_wait(void) {
	values_t r;
	VF_BEGIN();
	empties(); IN.what = 0; IN.arr = 0;
	prepare(&P);
	r = promise_wait(&P);
	CHECK(turns == IN.turns && is_done(&P), "wait: until the value is placed");
	CHECK(r.max_size == IN.val && P.result->value.max_size == IN.val && P.result->is_array == 0 && P.type == DATA_PROMISE, "wait: exactly the value placed");
	CHECK(errno == (IN.erred ? IN.erred : IN.err), "wait: brings the error number along");
	REACH("value");
}
#endif
#ifdef H_thread
static ex_memory_t S; static bool joined; static ex_context_t E;
static const char *NAME = "some_error", *WHY = "why";
void vf_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d) {
	CHECK(IN.bad && joined && e == NAME && m == WHY && d == S.backtrace, "thread: its error and no other");
	CHECK(F.type == DATA_RESULT, "thread: read once"); REACH("error"); VF_STOP();
}
int vf_join(os_thread_t t, uint32_t ms, int *code) { CHECK(!joined && is_done(F.promise) && ms == 0 && code == NULL, "thread: joined once, after its value"); joined = true; return IN.joined; }
void harness_thread(void) {
	values_t r;
	VF_BEGIN();
	RANGE(IN.res, 0, INT_MAX); /* the verifier mishandles a union read through a list pointer beyond its first member */
	empties(); IN.what = 1; IN.arr = A; IN.joined = 0;
	F.type = DATA_FUTURE; F.promise->scope = &S; 
	if (IN.bad) {
		E.ex = NAME; E._panic = WHY; IN.turns = 0; IN.arr = 0; IN.val = 0; IN.erred = 0;
		prepare(F.promise); atomic_flag_clear(&F.promise->done);
		promise_erred(F.promise, E);
		CHECK(is_done(F.promise), "thread: an error ends it too");
		CHECK(!atomic_flag_load((atomic_flag *)&F.promise->mutex), "thread: the lock is released");
	} else prepare(F.promise);
	r = thrd_get(&F);
	CHECK(!IN.bad, "thread: an error is raised");
	CHECK(joined && turns == IN.turns, "thread: read when it ended");
	CHECK(r.max_size == (IN.arr ? IN.res : IN.val), "thread: exactly the value placed");
	CHECK(errno == (IN.erred ? IN.erred : IN.err), "thread: brings the error number along");
	CHECK(defers == IN.arr && (!IN.arr || rel_[0] == LIST), "thread: released once");
	if (IN.again) { r = thrd_get(&F); CHECK(r.max_size == (IN.arr ? IN.res : IN.val) && defers == IN.arr, "thread: the same value when read again"); REACH("again"); }
	else REACH("value");
}
#endif
#if defined(H_queue) || defined(H_rotate)
static events_deque_t Q0, Q1, Q2, Q3, Q4; static events_deque_t *const QQ[5] = {&Q0, &Q1, &Q2, &Q3, &Q4};
static events_deque_t *LOCAL[8]; static future W[5]; static values_t IDX[6];
static const int place_of[5] = {3, 1, 7, 2, 5};
size_t vf_size(array_t a) { CHECK(a == (array_t)IDX, "rotation: over the workers"); return NW; }
static void workers(void) {
	int i;
	sys_event.local = LOCAL; sys_event.future_cpu_idx = (array_t)IDX;
	atomic_init(&sys_event.future_id_count, IN.count);
	ASSUME(IN.count < SIZE_MAX);
	for (i = 0; i < NW; i++) { W[i].type = DATA_THREAD; W[i].id = place_of[i]; QQ[i]->pool = &W[i]; LOCAL[place_of[i]] = QQ[i]; IDX[i].u_int = place_of[i]; }
}
#endif
#ifdef H_rotate
void harness_rotate(void) {
	VF_BEGIN();
	workers();
	CHECK(futures_pool() == &W[IN.count % NW], "rotation: the next worker in turn");
	CHECK(atomic_load(&sys_event.future_id_count) == IN.count, "rotation: asking does not move it");
	REACH("turn");
}
#endif
#ifdef H_queue
static values_t ARGS[4], DATA[4]; static int exs, tasks, pushes, yields, frees, dels; static tasks_t T; static void *freed;
static bool del_args, del_data;
static void *A1 = &A1, *A2 = &A2;
static promise *given;
static void *work(param_t a) { return NULL; }
array_t vf_data_ex(size_t n, va_list ap) { va_list c; exs++; va_copy(c, ap); CHECK(n == 2 && va_arg(c, void *) == A1 && va_arg(c, void *) == A2, "queue: its arguments unchanged"); va_end(c); return IN.noargs ? NULL : (array_t)ARGS; }
void *vf_calloc(size_t n, size_t s) { CHECK(n * s >= sizeof(promise), "queue: room for the promise"); if (IN.nomem) return NULL; return &P; }
array_t vf_arrays(size_t n, ...) { va_list ap; va_start(ap, n); CHECK(n == 2, "queue: worker and promise"); DATA[0].object = va_arg(ap, void *); DATA[1].object = va_arg(ap, void *); va_end(ap); return (array_t)DATA; }
tasks_t *vf_create_task(size_t h, data_func_t f, void *a, bool t, bool s) { tasks++; CHECK(f == (data_func_t)queue_work_handler && a == DATA, "queue: handed over by a task of its own"); return &T; }
uint32_t vf_task_push(tasks_t *t, bool r) { pushes++; CHECK(t == &T && !r, "queue: the task is queued"); CHECK(P.args == (param_t)ARGS && P.func == work && !is_done(&P), "queue: complete before it is queued"); return IN.nopush ? (uint32_t)TASK_ERRED : 7; }
void vf_yield(void) { yields++; CHECK(P.type == DATA_PROMISE && T.tid == W[0].id, "queue: marked before the others run"); }
void vf_free(void *p) { frees++; freed = p; }
void vf_delete(array_t a) { dels++; if (a == (array_t)ARGS) del_args = true; else if (a == (array_t)DATA) del_data = true; else CHECK(false, "queue: releases its own"); }
void harness_queue(void) {
	promise *p;
	VF_BEGIN();
	workers();
	p = queue_work(&W[0], work, 2, A1, A2);
	CHECK(exs == 1, "queue: arguments");
	if (IN.noargs) { CHECK(p == NULL && pushes == 0 && frees == 0 && dels == 0, "queue: refused without arguments"); return; }
	if (IN.nomem) { CHECK(p == NULL && pushes == 0 && frees == 0 && dels == 1 && del_args, "queue: refused without memory, nothing kept"); return; }
	CHECK(pushes == 1 && tasks == 1 && DATA[0].object == &W[0] && DATA[1].object == &P, "queue: the worker asked for and the promise");
	CHECK(atomic_load(&sys_event.future_id_count) == IN.count + 1, "queue: the rotation moves on by one");
	if (IN.nopush) { CHECK(p == NULL && frees == 1 && freed == &P && dels == 2 && del_args && del_data && yields == 0, "queue: refused, nothing kept"); REACH("refused"); return; }
	CHECK(p == &P && yields == 1 && frees == 0 && dels == 0 && P.args == (param_t)ARGS && P.func == work && P.type == DATA_PROMISE, "queue: queued");
	REACH("queued");
}
#endif
#ifdef H_handler
static events_deque_t Q; static future W; static values_t JOBS[2]; static events_deque_t *LOCAL[4]; static int appends; static ex_memory_t S; static values_t DATA[2]; static int yields;
void vf_append(array_t a, void *v) { appends++; CHECK(a == (array_t)JOBS && v == &P, "hand-over: its own job"); CHECK((int)atomic_load(&Q.available) == IN.avail, "hand-over: counted after it is there"); CHECK(atomic_flag_load((atomic_flag *)&W.mutex), "hand-over: under the worker's lock"); CHECK(P.erred == 0, "hand-over: without an old error"); }
void vf_yield(void) { yields++; CHECK(appends == 1 && (int)atomic_load(&Q.available) == IN.avail + 1 && atomic_flag_load(&Q.started), "hand-over: the worker can go on"); if (IN.turns == 0) { P.erred = IN.erred; set_done(&P); } }
void vf_name(char *f, ...) { }
uint32_t vf_task_id(void) { return IN.id; }
ex_memory_t *vf_get_scope(void) { return &S; }
void harness_handler(void) {
	VF_BEGIN();
	empties(); IN.what = 0; IN.arr = 0;
	RANGE(IN.avail, 0, 1000);
	sys_event.local = LOCAL; LOCAL[2] = &Q; W.id = 2; W.queue = &Q; Q.jobs = (array_t)JOBS; atomic_init(&Q.available, IN.avail);
	P.type = DATA_PROMISE; P.erred = IN.last;
	DATA[0].object = &W; DATA[1].object = &P;
	queue_work_handler((param_t)DATA);
	CHECK(appends == 1 && yields == 1 && turns == IN.turns && is_done(&P), "hand-over: once, and until it is done");
	CHECK((int)atomic_load(&Q.available) == IN.avail + 1 && !atomic_flag_load((atomic_flag *)&W.mutex), "hand-over: counted once, lock released");
	CHECK(P.id == IN.id && P.scope == &S, "hand-over: marked as this task's");
	CHECK(errno == (IN.erred ? IN.erred : IN.err), "hand-over: the error number is passed on");
	REACH("done");
}
#endif
