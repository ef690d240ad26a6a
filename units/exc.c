/*@vf
[[unit]]
prop = "C08"
entry = "harness_block"
what = "entering a try block makes it the innermost one and leaving it restores the enclosing one exactly; an exception not handled goes on from there, as it was"
functions = ["try_start", "try_next", "try_finish", "try_rethrow", "ex_init", "ex_update", "ex_local"]
plain = true
unwind = 4
stub = ["ex_signal_setup:vf_nothing", "ex_throw:vf_throw", "try_backtrace:vf_trace"]

[[unit]]
prop = "C08"
entry = "harness_catch"
what = "a handler runs only for an exception still on its way, and only the one it names (or any); it learns its name, place and message; a handled one is not on its way any more"
functions = ["try_catching", "try_updating_err", "try_finallying"]
plain = true
each = "K=0,N=0 K=1,N=1 K=2,N=2 K=1,N=2 K=3,N=3 K=3,N=2"
unwind = 7
kind = "bounded"
bound = "names of up to 3 characters"
stub = ["str_is:vf_str_is", "tasks_is_active:vf_active", "task_exception_set:vf_set"]

[[unit]]
prop = "C08"
entry = "harness_throw"
what = "an exception goes to the innermost block with its name, place and message, after the values registered there are released; with no block left the program ends"
functions = ["ex_throw", "ex_init", "ex_unwind_stack", "ex_terminate"]
plain = true
unwind = 4
kind = "bounded"
bound = "up to 2 registered values"
stub = ["siglongjmp:vf_jump", "ex_trace_set:vf_trace_set", "str_is:vf_str_is", "exit:vf_exit", "_Exit:vf_exit", "cerr:vf_cerr", "fflush:vf_fflush", "scope_init:vf_scope_init", "scope_unwind:vf_scope_unwind", "scope_local:vf_scope_local", "snprintf:vf_snprintf"]
fponly = true
trusted = ["siglongjmp continues at the block"]

[[unit]]
prop = "C08"
entry = "harness_protect"
what = "registered values are released once, newest first, values already gone are passed over, and unregistered ones are left alone"
functions = ["ex_protect_ptr", "ex_unprotected_ptr", "ex_unwind_stack"]
plain = true
each = "N=0 N=1 N=2 N=3 N=4"
unwind = 6
kind = "bounded"
bound = "up to 4 registered values, all different or none"
fponly = true
stub = ["scope_init:vf_scope_init", "scope_unwind:vf_scope_unwind", "scope_local:vf_scope_local"]

[[unit]]
prop = "C08"
entry = "harness_caught"
what = "asking for the exception by name is answered for exactly that one, which is then handled"
functions = ["try_caught", "try_message"]
plain = true
each = "K=1,N=1 K=2,N=2 K=1,N=2 K=3,N=2"
unwind = 7
kind = "bounded"
bound = "names of up to 3 characters"
stub = ["str_is:vf_str_is", "get_scope:vf_get_scope", "scope_local:vf_scope_local"]
@*/
#include "vf.h"
#include <stdarg.h>
#include <setjmp.h>
#include "except.c"
#undef read
#undef write
#undef close
#undef open
#include "stubs.h"
#ifndef K
# define K 1
#endif
#ifndef N
# define N 1
#endif
sys_events_t sys_event;
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
EVENTS_INLINE data_types data_type(void *self) { return self == NULL ? DATA_INVALID : ((data_t *)self)->type; }
int sigfillset(sigset_t *s) { return 0; }
int pthread_sigmask(int h, const sigset_t *a, sigset_t *b) { return 0; }
#endif
VF_INPUTS( char k[K + 1]; char n[N + 1]; int state, stage, line, caught_; bool any, iff, tasks, scoped, panicked, root, unstack, rethrown; bool gone[4]; int unreg; bool dump; int sz; bool hook; )
bool vf_str_is(const char *a, const char *b) { size_t i; if (!a || !b) return a == b; for (i = 0; a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
static ex_memory_t SC;
static ex_context_t OUTER, MINE;
static const char *FILE_ = "file", *FUN = "fun", *MSG = "msg", *NAME = "name";
static char KK[K + 1], NN[N + 1];
static void names(void) {
	size_t i;
	for (i = 0; i < K; i++) { ASSUME(IN.k[i]); KK[i] = IN.k[i]; }
	for (i = 0; i < N; i++) { ASSUME(IN.n[i]); NN[i] = IN.n[i]; }
}
static bool same(void) { size_t i; if (K != N) return false; for (i = 0; i < N; i++) if (IN.k[i] != IN.n[i]) return false; return true; }
void vf_nothing(void) { }
#ifdef H_block
static int throws;
void vf_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d) {
	throws++;
	CHECK((IN.state & 1) && IN.stage + 1 >= ex_done_st, "propagate: only what was not handled");
	CHECK(e == NAME && f == FILE_ && l == IN.line && fn == FUN && m == MSG && d == MINE.backtrace, "propagate: as it was");
	CHECK(ex_local() == (IN.root ? &events_except_buffer : &OUTER), "propagate: from the enclosing block");
	REACH("propagates"); VF_STOP();
}
void vf_trace(ex_backtrace_t *b) { CHECK(IN.root, "propagate: only shown when nobody is left"); }
void harness_block(void) {
	ex_error_t err; ex_jmp_buf *j; ex_context_t *out = IN.root ? &events_except_buffer : &OUTER; bool go;
	VF_BEGIN();
	out = IN.root ? &events_except_buffer : &OUTER;
	events_except_tls = IN.root ? NULL : &OUTER;
	MINE.stack = (ex_ptr_t *)&SC; MINE.ex = MSG; MINE.unstack = 1; MINE.is_rethrown = true;
	err.is_caught = true;
	j = try_start(ex_start_st, &err, &MINE);
	CHECK(j == &MINE.buf, "enter: where to continue");
	CHECK(ex_local() == &MINE && MINE.next == out, "enter: the innermost block, the enclosing one remembered");
	CHECK(MINE.stack == NULL && MINE.ex == NULL && MINE.unstack == 0 && !MINE.is_rethrown && !err.is_caught && err.stage == ex_start_st, "enter: nothing thrown or registered");
	/* some stage later */
	RANGE(IN.stage, -1, 3); RANGE(IN.state, 0, 7);
	MINE.state = IN.state; err.stage = IN.stage;
	MINE.ex = NAME; MINE.file = FILE_; MINE.line = IN.line; MINE.function = FUN; MINE._panic = MSG;
	go = try_next(&err, &MINE);
	CHECK(err.stage == IN.stage + 1, "stages: one after the other");
	if (IN.stage + 1 < ex_done_st) { CHECK(go && ex_local() == &MINE && MINE.next == out, "stages: the block goes on"); REACH("goes on"); return; }
	CHECK(!go && !(IN.state & 1) && ex_local() == out, "leave: the enclosing block is restored");
	REACH("left");
}
#endif
#ifdef H_catch
static void *told;
bool vf_active(void) { return IN.tasks; }
void vf_set(void *p) { told = p; }
void harness_catch(void) {
	ex_error_t err; bool r; char *type;
	VF_BEGIN();
	names();
	RANGE(IN.state, 0, 7); RANGE(IN.stage, 0, 3);
	events_except_tls = &MINE; events___scope_tls = IN.scoped ? &SC : NULL;
	memset(&err, 0, sizeof err);
	MINE.next = &OUTER; MINE.state = IN.state; err.stage = IN.stage;
	MINE.ex = NN; MINE.file = FILE_; MINE.line = IN.line; MINE.function = FUN; MINE._panic = IN.panicked ? MSG : NULL;
	type = IN.any ? NULL : IN.iff ? "_if" : KK;
	ASSUME(IN.any || IN.iff || !(K == 3 && KK[0] == '_' && KK[1] == 'i' && KK[2] == 'f'));
	if (IN.stage == ex_final_st && IN.caught_) {
		r = try_finallying(&err, &MINE);
		CHECK(r && ex_local() == &OUTER && MINE.state == IN.state, "finally: runs outside the block, whatever happened");
		CHECK(err.name == NN && err.file == FILE_ && err.line == IN.line && err.function == FUN && err.is_caught == (IN.state == ex_catch_st), "finally: what happened is known");
		REACH("finally");
		return;
	}
	if (IN.caught_) { r = try_finallying(&err, &MINE); CHECK(!r && ex_local() == &MINE && MINE.state == IN.state, "finally: only in its turn"); return; }
	r = try_catching(type, &err, &MINE);
	/* in the turn of the finally part only `_if` would be asked again with the same answer, so no handler may answer there; the others were refused already */
	if (IN.stage == ex_throw_st) CHECK(r == (IN.state == ex_throw_st && (IN.any || IN.iff || same())), "handler: only the exception it names, while it is on its way");
	else if (IN.iff && !IN.any) CHECK(!r, "handler: runs once, and only before the finally part");
	else CHECK(!r || (IN.state == ex_throw_st && (IN.any || same())), "handler: only the exception it names, while it is on its way");
	CHECK(MINE.state == (r && !(IN.iff && !IN.any) ? ex_catch_st : IN.state), "handler: a handled exception is not on its way any more");
	CHECK(ex_local() == &MINE && MINE.next == &OUTER && err.stage == IN.stage, "handler: inside the block");
	if (r) {
		CHECK(err.name == NN && err.file == FILE_ && err.line == IN.line && err.function == FUN && err.backtrace == MINE.backtrace, "handler: learns its name and place");
		CHECK(IN.tasks ? told == NN : !IN.scoped || SC.err == NN, "handler: the scope learns it too");
		REACH("handled");
	}
}
#endif
#if defined(H_throw) || defined(H_protect)
static int order[5], released; static void *V[5]; static ex_ptr_t E[5];
static void *OBJ_[5];
static void rel(void *p) { int i; for (i = 0; i < 5; i++) if (p == &OBJ_[i]) { CHECK(released < 5, "release: once"); order[released++] = i; return; } CHECK(false, "release: only what was registered"); }
ex_memory_t *vf_scope_init(void) { CHECK(false, "no scope here"); return &SC; }
void vf_scope_unwind(ex_memory_t *s) { CHECK(false, "no scope here"); }
ex_memory_t *vf_scope_local(void) { return &SC; }
#endif
#ifdef H_throw
static int traced;
int vf_cerr(const char *m, ...) { return 0; }
int vf_fflush(FILE *f) { return 0; }
int vf_snprintf(char *d, size_t n, const char *f, ...) { if (n) d[0] = 0; return 0; }
void vf_trace_set(ex_context_t *e, void *c) { traced++; CHECK(e == ex_local() && c == NULL && !IN.dump, "throw: traced when it starts"); }
static void known(ex_context_t *c) { CHECK(c->ex == NAME && c->file == FILE_ && c->line == IN.line && c->function == FUN && c->_panic == (IN.panicked ? MSG : NULL), "throw: its name, place and message"); }
void vf_jump(struct __jmp_buf_tag b[1], int v) {
	CHECK(!IN.root && !IN.unstack && b == MINE.buf, "throw: to the innermost block");
	CHECK(v == (IN.state | ex_throw_st), "throw: as an exception on its way");
	known(&MINE);
	CHECK(released == IN.sz && (released < 1 || order[0] == IN.sz - 1) && (released < 2 || order[1] == 0), "throw: after the values registered in it are released, newest first");
	CHECK(MINE.stack == NULL && MINE.unstack == 0 && !MINE.is_unwind && traced == !IN.dump, "throw: nothing stays registered");
	CHECK(ex_local() == &MINE && MINE.next == &OUTER, "throw: the blocks stay as they are");
	REACH("thrown"); VF_STOP();
}
void vf_exit(int c) {
	CHECK(c == EXIT_FAILURE && (IN.root || IN.unstack), "throw: ends the program only when nobody is left, or during a release");
	if (IN.root && !IN.unstack) known(&events_except_buffer);
	REACH("ended"); VF_STOP();
}
void harness_throw(void) {
	ex_backtrace_t D; ex_context_t *c; int i;
	VF_BEGIN();
	RANGE(IN.state, 0, 7); RANGE(IN.sz, 0, 2);
	c = IN.root ? &events_except_buffer : &MINE;
	events_except_tls = c; MINE.next = &OUTER; MINE.state = IN.state;
	c->unstack = IN.unstack ? 1 : 0; c->type = DATA_EXCEPT_CONTEXT;
	released = 0;
	for (i = 0; i < 2; i++) if (i < IN.sz) { V[i] = &OBJ_[i]; E[i].type = DATA_EXCEPT_PROTECTED; E[i].ptr = &V[i]; E[i].func = rel; E[i].next = i ? &E[i - 1] : NULL; c->stack = &E[i]; }
	ex_throw(NAME, FILE_, IN.line, FUN, IN.panicked ? MSG : NULL, IN.dump ? &D : NULL);
	CHECK(false, "throw: never returns");
}
#endif
#ifdef H_protect
void harness_protect(void) {
	int i, n = 0; ex_ptr_t was;
	VF_BEGIN();
	RANGE(IN.unreg, 0, N);
	events_except_tls = &MINE; MINE.next = &OUTER; MINE.stack = NULL; MINE.is_unwind = false; MINE.type = DATA_EXCEPT_CONTEXT;
	released = 0;
	for (i = 0; i < N; i++) {
		V[i] = &OBJ_[i];
		was = ex_protect_ptr(&E[i], &V[i], rel);
		CHECK(MINE.stack == &E[i] && E[i].ptr == &V[i] && E[i].func == rel && E[i].type == DATA_EXCEPT_PROTECTED && E[i].next == (i ? &E[i - 1] : NULL), "register: in front of the others");
	}
	/* the newest are unregistered again, some values are gone */
	for (i = N - 1; i >= 0; i--) if (i >= N - IN.unreg) { ex_unprotected_ptr(&E[i]); if (IN.dump) ex_unprotected_ptr(&E[i]); }
	for (i = 0; i < N; i++) if (IN.gone[i]) V[i] = NULL;
	CHECK(MINE.stack == (N - IN.unreg > 0 ? &E[N - IN.unreg - 1] : NULL), "unregister: the others stay");
	ex_unwind_stack(&MINE);
	for (i = N - 1; i >= 0; i--) {
		if (i >= N - IN.unreg || IN.gone[i]) continue;
		CHECK(n < released && order[n] == i, "release: each once, newest first");
		n++;
	}
	CHECK(released == n, "release: nothing else");
	CHECK(MINE.stack == NULL && MINE.unstack == 0, "release: nothing stays registered");
#if N >= 2
	if (released == N) REACH("all");
#endif
	ex_unwind_stack(&MINE);
	CHECK(released == n, "release: once");
}
#endif
#ifdef H_caught
ex_memory_t *vf_scope_local(void) { return IN.scoped ? &SC : NULL; }
ex_memory_t *vf_get_scope(void) { return &SC; }
void harness_caught(void) {
	bool r;
	VF_BEGIN();
	names();
	RANGE(IN.state, 0, 7);
	events_except_tls = &MINE; MINE.state = IN.state;
	if (IN.panicked) { MINE._panic = NN; SC._panic = NN; MINE.ex = "_panic"; SC.err = (void *)"_panic"; }
	else { MINE.ex = NN; SC.err = IN.hook ? NULL : (void *)NN; }
	if (IN.hook && !IN.panicked) { CHECK(try_message() == NN, "message: the exception's"); return; }
	CHECK(try_message() == NN, "message: the exception's");
	r = try_caught(KK);
	CHECK(r == same(), "caught: exactly the exception asked for");
	CHECK(MINE.state == (r ? ex_catch_st : IN.state), "caught: it is handled then, and only then");
	CHECK(!IN.scoped || SC.is_recovered == r, "caught: the scope knows");
#if K == N
	if (r) REACH("caught");
#endif
}
#endif
