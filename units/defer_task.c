/*@vf
[[unit]]
prop = "C07"
entry = "harness_taskunwind"
what = "unwinding a task runs each deferred call once, last registered first, with its argument, and releases each allocation once"
functions = ["deferred_unwind"]
plain = true
fponly = true
each = "N=0!3 N=1!4 N=2!5 N=3!6"
thorough_each = "N=5!8"
kind = "bounded"
bound = "up to 3 entries (5 thorough) of any kinds"
stub = ["is_data:vf_is_data", "data_size:vf_size", "data_delete:vf_delete", "events_free:vf_free", "data_type:vf_data_type"]
trusted = ["is_data and data_type tell live arrays and tagged objects apart", "data_size and data_delete as proved under C05"]

[[unit]]
prop = "C07"
entry = "harness_register"
what = "a deferred call is appended behind those of its own scope, with its function and argument"
functions = ["deferred", "_defer_init"]
plain = true
fponly = true
unwind = 6
stub = ["__thrd:vf_thrd", "active_task:vf_active", "tasks_is_active:vf_isactive", "scope_is_guarded:vf_guarded", "scope_local:vf_scope_local", "get_scope:vf_get_scope", "scope_deferred:vf_scope_deferred", "events_malloc:vf_malloc", "array:vf_array", "data_append:vf_append", "data_lock:vf_lock", "is_data:vf_is_data", "data_size:vf_size"]
trusted = ["the lock is free (one thread)", "data_append as proved under C05"]

[[unit]]
prop = "C07"
entry = "harness_tie"
what = "memory tied to the scope is appended behind what the scope already holds, once"
functions = ["defer_free"]
plain = true
fponly = true
unwind = 6
stub = ["__thrd:vf_thrd", "active_task:vf_active", "tasks_is_active:vf_isactive", "get_scope:vf_get_scope", "array:vf_array", "data_append:vf_append", "data_lock:vf_lock", "is_data:vf_is_data", "data_size:vf_size"]
@*/
#include "vf.h"
#include "events.c"
#include "stubs.h"
#include "libc_models.h"
#include "noalloc.h"
#include "defer.h"
#ifdef H_taskunwind
void harness_taskunwind(void) {
	VF_BEGIN();
	entries(N);
	deferred_unwind(ARR);
	all_done();
	REACH("unwound");
}
#else
static events_thread_t THRD; static tasks_t A, B; static ex_memory_t S, G, OWN;
events_thread_t *vf_thrd(void) { return &THRD; }
tasks_t *vf_active(void) { return &A; }
bool vf_isactive(void) { return IN.on; }
bool vf_guarded(void) { return IN.grd; }
ex_memory_t *vf_scope_local(void) { return &S; }
ex_memory_t *vf_get_scope(void) { return &S; }
static int guards; static void *gfunc, *gdata;
int vf_scope_deferred(ex_memory_t *s, func_t f, void *d) { guards++; gfunc = (void *)f; gdata = d; if (s != &G) unexpected++; return 7; }
void *vf_malloc(size_t n) { if (n < sizeof(defer_t)) unexpected++; return IN.err ? NULL : (void *)&NEW; }
static void where(array_t *task, array_t *scope) {
	RANGE(IN.n0, 0, 4);
	entries(0);
	asize = IN.n0;
	THRD.running = IN.run ? &B : NULL;
	*task = (IN.run ? &B : &A)->garbage = IN.n0 ? ARR : NULL;
	S.arena = &G; S.defer_arr = ARR; OWN.defer_arr = ARR;
}
#endif
#ifdef H_register
static void f1(void *p) { }
void harness_register(void) {
	int r; array_t t, s, end; size_t n;
	VF_BEGIN();
	where(&t, &s);
	if (IN.own) (IN.run ? &B : &A)->scope = &OWN;
	r = deferred(f1, IN.data, IN.ptr);
	CHECK(unexpected == 0, "register: only the scope's own list");
	UNLOCKED();
	if (IN.err && !IN.grd) { CHECK(r == TASK_ERRED && appends == 0, "register: without memory nothing is deferred"); REACH("no memory"); return; }
	if (IN.grd) {
		CHECK(guards == 1 && appends == 0 && gfunc == (void *)f1 && gdata == IN.data && r == 7, "register: in the guarded scope");
		REACH("guarded");
	} else {
		end = (IN.on && !IN.own && !IN.n0) ? NEWARR : ARR;
		n = end == ARR ? asize : nsize;
		CHECK(guards == 0 && appends == 1 && appended_to == end, "register: once, in its own scope's list");
		CHECK(n == (size_t)IN.n0 + 1 && r == (int)n, "register: behind the earlier ones, the others stay");
		CHECK(end[n - 1].object == &NEW, "register: the new entry is the last");
		if (IN.on && !IN.own) CHECK((IN.run ? &B : &A)->garbage == end, "register: the running task keeps the list");
		CHECK(NEW.type == DATA_DEFER && (NEW.is_ptr != 0) == (IN.ptr ? true : false), "register: marked as deferred call");
		if (IN.ptr) CHECK(NEW.func == f1 && NEW.data == IN.data, "register: the function and its argument");
		else CHECK((void *)NEW._func == (void *)f1 && NEW.value == (intptr_t)IN.data, "register: the function and its argument");
		REACH("registered");
	}
	CHECK(deferred(NULL, IN.data, IN.ptr) == TASK_ERRED && appends == (IN.grd ? 0 : 1), "register: without a function nothing is deferred");
}
#endif
#ifdef H_tie
static char BLOCK[4];
void harness_tie(void) {
	array_t t, s, end; size_t n; bool r;
	VF_BEGIN();
	where(&t, &s);
	r = defer_free(BLOCK);
	end = (IN.on && !IN.n0) ? NEWARR : ARR;
	n = end == ARR ? asize : nsize;
	CHECK(r && unexpected == 0 && appends == 1 && appended_to == end && n == (size_t)IN.n0 + 1 && end[n - 1].object == BLOCK, "tie: behind what the scope holds, once");
	if (IN.on) CHECK((IN.run ? &B : &A)->garbage == end, "tie: the running task keeps the list");
	UNLOCKED();
	CHECK(!defer_free(NULL) && appends == 1, "tie: nothing for null");
	REACH("tied");
}
#endif
