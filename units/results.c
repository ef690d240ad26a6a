/*@vf
[[unit]]
prop = "C12"
entry = "harness_create"
what = "a task with a result gets the next number and a slot that is not ready; the table grows in time and keeps every other slot"
functions = ["tasks_create_result"]
plain = true
each = "QS=4 QS=16 QS=64 QS=256 QS=1024"
stub = ["events_realloc:vf_realloc", "events_malloc:vf_malloc"]
trusted = ["realloc keeps the contents up to the smaller size", "result numbers stay below 2^20"]

[[unit]]
prop = "C12"
entry = "harness_set"
what = "the value a task returned is stored in exactly its slot, which becomes ready; no other slot changes"
functions = ["tasks_result_set"]
plain = true
trusted = ["result numbers stay below 2^20"]

[[unit]]
prop = "C12"
entry = "harness_finish"
what = "a task that ends stores what its function returned, from its own arguments, once"
functions = ["task_awaitable", "tasks_result_set"]
plain = true
stub = ["active_task:vf_active", "data_delete:vf_data_delete", "deferred_unwind:vf_unwind"]
lib = true

[[unit]]
prop = "C12"
entry = "harness_ask"
what = "asking for a result gives exactly the stored value, or the empty value when it is not ready, cancelled or unknown, and changes nothing"
functions = ["results_for", "task_is_ready", "results_tid", "task_result_get"]
plain = true

[[unit]]
prop = "C12"
entry = "harness_await"
what = "awaiting a result gives way until the task has ended and then gives exactly its value"
functions = ["await_for", "results_for"]
plain = true
stub = ["yield:vf_yield"]
unwind = 6
kind = "bounded"
bound = "the task ends within 4 turns"

[[unit]]
prop = "C12"
entry = "harness_cancel"
what = "cancelling marks exactly the given slot; unknown numbers change nothing; a task sees its own cancellation only"
functions = ["task_set_canceled", "task_is_canceled"]
plain = true
stub = ["active_task:vf_active"]

[[unit]]
prop = "C12"
entry = "harness_number"
what = "a new task gets a fresh result number exactly when it has a result, and reports it"
functions = ["task_push", "task_id"]
plain = true
stub = ["__thrd:vf_thrd", "active_task:vf_active", "tasks_create_result:vf_result", "data_append:vf_append", "enqueue_tasks:vf_enq"]
@*/
#include "vf.h"
#include "events.c"
#include "stubs.h"
#include "libc_models.h"
#ifndef QS
# define QS 16
#endif
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
#define MAXID (1 << 20)
VF_INPUTS( uint32_t id; uint32_t j; size_t cap; bool rdy; bool term; bool canc; int tid; void *val; void *ret; uint32_t rid; uint32_t arid; uint32_t cid; bool hasres; bool empty; int turns; bool thr; int idg; )
static _results_data_t SLOT, OTHER, FRESH;
static results_data_t *TAB; static tasks_t T, A;
tasks_t *vf_active(void) { return &A; }
static events_thread_t THRD;
events_thread_t *vf_thrd(void) { return &THRD; }
static int grows, makes;
void *vf_malloc(size_t n) { CHECK(n >= sizeof(_results_data_t), "create: the slot is big enough"); makes++; FRESH.is_ready = FRESH.is_terminated = FRESH.is_canceled = true; FRESH.result.max_size = 1; return &FRESH; }
static results_data_t *GROWN; static size_t grown_to;
void *vf_realloc(void *p, size_t n) {
	grows++;
	CHECK(p == (void *)TAB, "create: the table itself grows");
	grown_to = n;
#ifdef VF_NATIVE
	return GROWN = realloc(p, n);
#else
	BOUND(n <= (MAXID + 4096) * sizeof(void *));
	GROWN = malloc(n); __CPROVER_assume(GROWN != NULL);
	if (IN.j < IN.cap && (size_t)IN.j * sizeof(void *) < n) __CPROVER_assume(GROWN[IN.j] == &SLOT);
	return GROWN;
#endif
}
static void table(size_t cap) {
	TAB = malloc(cap * sizeof(TAB[0]));
	ASSUME(TAB != NULL);
	SLOT.type = DATA_RESULT; SLOT.id = IN.j; SLOT.tid = IN.tid; SLOT.is_ready = IN.rdy ? true : false; SLOT.is_terminated = IN.term ? true : false; SLOT.is_canceled = IN.canc ? true : false; SLOT.result.object = IN.val;
	OTHER.type = DATA_RESULT; OTHER.is_ready = OTHER.is_terminated = OTHER.is_canceled = false; OTHER.result.object = &OTHER;
	atomic_init((void *_Atomic *)&sys_event.results, (void *)TAB);
}
#define STORED ((results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire))
static bool slot_same(void) {
	return SLOT.type == DATA_RESULT && SLOT.id == (int)IN.j && SLOT.tid == IN.tid && SLOT.is_ready == (IN.rdy ? true : false) && SLOT.is_terminated == (IN.term ? true : false)
		&& SLOT.is_canceled == (IN.canc ? true : false) && SLOT.result.object == IN.val;
}
#ifdef H_create
void harness_create(void) {
	results_data_t r;
	VF_BEGIN();
	RANGE(IN.id, 0, MAXID - 1);
	sys_event.queue_size = QS;
	atomic_init(&sys_event.result_id_generate, IN.id);
	/* the table holds every number up to the next multiple of the queue size */
	IN.cap = ((size_t)IN.id + QS - 1) / QS * QS;
	if (IN.cap) { table(IN.cap); } else { atomic_init((void *_Atomic *)&sys_event.results, NULL); }
	if (IN.id) { RANGE(IN.j, 0, IN.id - 1); TAB[IN.j] = &SLOT; }
	r = tasks_create_result();
	CHECK(r == &FRESH && makes == 1, "create: a fresh slot");
	CHECK(r->id == (int)IN.id && atomic_load(&sys_event.result_id_generate) == IN.id + 1, "create: the next number, used once");
	CHECK(!r->is_ready && !r->is_terminated && !r->is_canceled && r->result.object == NULL && r->type == DATA_RESULT, "create: the slot starts not ready and empty");
	CHECK(STORED != NULL && (grows ? STORED == GROWN : STORED == TAB), "create: the table is the current one");
	if (grows) CHECK(grown_to >= ((size_t)IN.id / QS + 1) * QS * sizeof(TAB[0]), "create: the table has room for every number up to the next growth");
	CHECK(STORED[IN.id] == r, "create: the slot is found under its number");
	if (IN.id) CHECK(STORED[IN.j] == &SLOT && slot_same(), "create: every other slot is kept");
	if (IN.id == 0) REACH("first"); else REACH("created");
}
#endif
static void two_slots(void) {
	RANGE(IN.id, 1, MAXID);
	RANGE(IN.j, 0, IN.id - 1);
	table(IN.id);
	TAB[IN.j] = &SLOT;
	atomic_init(&sys_event.result_id_generate, IN.id);
}
#ifdef H_set
void harness_set(void) {
	_results_data_t before;
	VF_BEGIN();
	two_slots();
	if (IN.rid != (uint32_t)NO_RESULT) { RANGE(IN.rid, 0, IN.id - 1); if (IN.rid != IN.j) { TAB[IN.rid] = &OTHER; ASSUME(TAB[IN.j] == &SLOT); } }
	T.rid = IN.rid; T.status = TASK_NORMAL; T.results = NULL;
	before = SLOT;
	tasks_result_set(&T, IN.ret);
	CHECK(STORED == TAB, "store: the table stays");
	if (IN.rid != IN.j) {
		CHECK(slot_same() && TAB[IN.j] == &SLOT, "store: no other slot changes");
		if (IN.rid == (uint32_t)NO_RESULT) { CHECK(T.results == NULL, "store: a task without result stores nothing"); REACH("no result"); }
		else { CHECK(OTHER.is_terminated && OTHER.is_ready == (IN.ret != NULL) && OTHER.result.object == (IN.ret ? IN.ret : (void *)&OTHER), "store: its own slot"); REACH("another"); }
	} else {
		CHECK(SLOT.is_terminated, "store: the slot is complete");
		if (IN.ret) { CHECK(SLOT.is_ready && SLOT.result.object == IN.ret && T.results == &SLOT.result, "store: ready, with exactly the value"); REACH("value"); }
		else { CHECK(SLOT.is_ready == before.is_ready && SLOT.result.object == before.result.object, "store: an empty value leaves the slot empty"); REACH("empty value"); }
		CHECK(T.status == TASK_FINISH, "store: the task is finished");
		CHECK(SLOT.id == before.id && SLOT.tid == before.tid && SLOT.is_canceled == before.is_canceled, "store: the rest of the slot is kept");
	}
}
#endif
#ifdef H_finish
static int calls, dels, unw; static char ARGS, GARB;
void *vf_func(param_t a) { calls++; CHECK((void *)a == (void *)&ARGS, "finish: the function gets its own arguments"); CHECK(!OTHER.is_ready && !OTHER.is_terminated, "finish: not ready before it returns"); return IN.ret; }
void vf_data_delete(array_t p) { dels++; CHECK((void *)p == (void *)&ARGS, "finish: its arguments are released"); CHECK(OTHER.is_terminated, "finish: the result is stored first"); }
void vf_unwind(array_t g) { unw++; CHECK((void *)g == (void *)&GARB, "finish: its own deferred calls"); }
void harness_finish(void) {
	VF_BEGIN();
	two_slots();
	RANGE(IN.rid, 0, IN.id - 1); ASSUME(IN.rid != IN.j);
	TAB[IN.rid] = &OTHER; ASSUME(TAB[IN.j] == &SLOT);
	A.rid = IN.rid; A.func = vf_func; A.args = &ARGS; A.garbage = (array_t)&GARB;
	task_awaitable();
	CHECK(calls == 1 && dels == 1 && unw == 1, "finish: the function, the arguments and the deferred calls once each");
	CHECK(OTHER.is_terminated && OTHER.is_ready == (IN.ret != NULL) && (!IN.ret || OTHER.result.object == IN.ret), "finish: exactly the returned value is stored");
	CHECK(slot_same(), "finish: no other result changes");
	CHECK(A.garbage == NULL, "finish: nothing is left to unwind");
	REACH("finished");
}
#endif
#ifdef H_ask
void harness_ask(void) {
	values_t v; int t; bool r;
	VF_BEGIN();
	two_slots();
	if (IN.rid < IN.id && IN.rid != IN.j) VF_STOP();
	v = results_for(IN.rid);
	r = task_is_ready(IN.rid);
	t = results_tid(IN.rid);
	CHECK(slot_same() && TAB[IN.j] == &SLOT && STORED == TAB && atomic_load(&sys_event.result_id_generate) == IN.id, "ask: nothing changes");
	if (IN.rid == IN.j) {
		if (IN.rdy) { CHECK(v.object == IN.val, "ask: exactly the stored value"); REACH("ready"); }
		else { CHECK(v.object == NULL, "ask: the empty value while it is not ready"); REACH("not ready"); }
		CHECK(r == (IN.rdy || IN.term ? true : false), "ask: readiness is as stored");
		CHECK(t == IN.tid, "ask: the thread is as stored");
	} else {
		CHECK(v.object == NULL && !r, "ask: a number never handed out has no result");
		REACH("unknown");
	}
}
#endif
#ifdef H_await
static int turns;
void vf_yield(void) {
	CHECK(!SLOT.is_terminated, "await: gives way only while the task runs");
	turns++;
	BOUND(turns <= 4);
	if (turns >= IN.turns) { if (IN.ret) { SLOT.is_ready = true; SLOT.result.object = IN.ret; } SLOT.is_terminated = true; }
}
void harness_await(void) {
	values_t v;
	VF_BEGIN();
	RANGE(IN.turns, 0, 4);
	two_slots();
	SLOT.is_ready = SLOT.is_terminated = false; SLOT.result.object = NULL;
	if (IN.turns == 0) { if (IN.ret) { SLOT.is_ready = true; SLOT.result.object = IN.ret; } SLOT.is_terminated = true; }
	v = await_for(IN.j);
	CHECK(turns == IN.turns, "await: returns when the task has ended, not before");
	CHECK(v.object == IN.ret, "await: exactly its value");
	REACH("awaited");
}
#endif
#ifdef H_cancel
void harness_cancel(void) {
	bool seen;
	VF_BEGIN();
	two_slots();
	if (IN.rid < IN.id && IN.rid != IN.j) { TAB[IN.rid] = &OTHER; ASSUME(TAB[IN.j] == &SLOT); }
	A.rid = IN.arid; A.cid = IN.cid;
	if (IN.arid != (uint32_t)NO_RESULT) ASSUME(IN.arid == IN.j);
	task_set_canceled(IN.rid);
	CHECK(STORED == TAB && TAB[IN.j] == &SLOT, "cancel: the table stays");
	CHECK(SLOT.is_canceled == (IN.canc || IN.rid == IN.j ? true : false), "cancel: exactly that one");
	CHECK(SLOT.is_ready == (IN.rdy ? true : false) && SLOT.is_terminated == (IN.term ? true : false) && SLOT.result.object == IN.val && SLOT.id == (int)IN.j, "cancel: nothing else changes");
	if (IN.rid < IN.id && IN.rid != IN.j) CHECK(OTHER.is_canceled, "cancel: the one asked for");
	seen = task_is_canceled();
	if (IN.arid == IN.j) { CHECK(seen == (bool)SLOT.is_canceled, "cancel: a task sees its own cancellation"); REACH("own"); }
	else { CHECK(!seen, "cancel: a task without result is not cancelled"); REACH("none"); }
}
#endif
#ifdef H_number
static int results; static events_fd_t *unused;
results_data_t vf_result(void) { results++; OTHER.id = IN.rid; return &OTHER; }
void vf_append(array_t a, void *p) { BOUND(false); }
static int enq;
void vf_enq(tasks_t *t) { enq++; BOUND(false); }
void harness_number(void) {
	uint32_t r;
	VF_BEGIN();
	RANGE(IN.rid, 0, MAXID); RANGE(IN.idg, 0, MAXID);
	atomic_init(&sys_event.id_generate, IN.idg);
	T.status = TASK_SUSPENDED; T.cid = DATA_INVALID; T.is_threaded = false;
	A.group_active = false;
	r = task_push(&T, IN.hasres);
	CHECK(results == (IN.hasres ? 1 : 0), "number: one slot per task with a result");
	CHECK(T.rid == (IN.hasres ? IN.rid : (uint32_t)NO_RESULT), "number: the slot's own number");
	CHECK(T.cid == (uint32_t)IN.idg + 1 && atomic_load(&sys_event.id_generate) == IN.idg + 1, "number: a fresh task number");
	CHECK(r == (IN.hasres ? T.rid : T.cid), "number: reported to the caller");
	A.rid = T.rid; A.cid = T.cid;
	CHECK(task_id() == r, "number: the task knows its number");
	if (IN.hasres) REACH("with result"); else REACH("without");
}
#endif
