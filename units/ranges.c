/*@vf
[[unit]]
prop = "C05"
entry = "harness_range"
what = "a range holds exactly the listed numbers (or characters), in order, has room for them, and is released with its scope"
functions = ["range", "rangeing", "range_char"]
plain = true
each = "WH=0,N=0 WH=0,N=1 WH=0,N=4 WH=1,N=0,ST=1 WH=1,N=1,ST=1 WH=1,N=4,ST=1 WH=1,N=3,ST=2 WH=1,N=3,ST=7 WH=1,N=0,ST=0 WH=2,N=0 WH=2,N=1 WH=2,N=4"
unwind = 14
kind = "bounded"
bound = "up to 5 elements, any start and end, the listed steps"
stub = ["data_queue_size:vf_qs", "deferred:vf_deferred"]

[[unit]]
prop = "C05"
entry = "finding_growth"
what = "appending to an array at its capacity moves it, and the caller is left with the released one ($append, $append_string and the like, data_reserve take the array by value)"
functions = ["data_append"]
kind = "finding"
plain = true
stub = ["data_queue_size:vf_qs", "deferred:vf_deferred"]
@*/
#include "vf.h"
#include <stdarg.h>
#include "arrays.c"
#include "stubs.h"
#ifndef ST
# define ST 1
#endif
#ifndef WH
# define WH 0
#endif
#ifndef N
# define N 1
#endif
VF_INPUTS( int start, stop, steps; char text[N + 1]; int which; )
sys_events_t sys_event;
#ifdef VF_NATIVE
# include <malloc.h>
#endif
static int defers; static void *deferred_; static void *deferred_f;
size_t vf_qs(void) { return 2; }
int vf_deferred(func_t f, void *d, bool is_ptr) { defers++; deferred_f = (void *)f; deferred_ = d; return 1; }
void ex_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d) { vf_throw_hook(); }
#define ROOM (N + 8)
static array_metadata_t *LAST; static size_t asked;
static void *block(size_t n) { BOUND(n <= sizeof(array_metadata_t) + ROOM * sizeof(values_t)); asked = n; return LAST = malloc(sizeof(array_metadata_t) + ROOM * sizeof(values_t)); }
void *events_malloc(size_t n) { void *p = block(n); ASSUME(p != NULL); return p; }
/* the block moves every time */
void *events_realloc(void *p, size_t n) {
	array_metadata_t *q, *was = LAST; size_t i;
	CHECK(p == (void *)LAST && n >= sizeof(array_metadata_t), "grow: the array itself");
	q = block(n);
	ASSUME(q != NULL);
	*q = *was;
	for (i = 0; i < was->size && i < ROOM; i++) ((array_t)(q + 1))[i] = ((array_t)(was + 1))[i];
	free(was);
	return q;
}
void events_free(void *p) { free(p); }
#ifdef H_range
void harness_range(void) {
	range_t r; size_t i; long n;
	VF_BEGIN();
	IN.which = WH; 
#if WH == 0
	n = IN.start < IN.stop ? (long)IN.stop - IN.start : 0; ASSUME(n == N);
	r = range(IN.start, IN.stop);
	IN.steps = 1;
#elif WH == 1
	IN.steps = ST;
	n = ST > 0 && IN.start < IN.stop ? ((long)IN.stop - IN.start + ST - 1) / (ST ? ST : 1) : 0; ASSUME(n == N);
	r = rangeing(IN.start, IN.stop, ST);
#else
	for (i = 0; i < N; i++) ASSUME(IN.text[i]);
	IN.text[N] = 0;
	r = range_char(IN.text);
#endif
	CHECK(data_size(r) == N && data_capacity(r) >= N, "range: as many elements as listed, and room for them");
	for (i = 0; i < N; i++) {
		if (WH == 2) CHECK((char)r[i].max_size == IN.text[i], "range: exactly the listed characters in order");
		else CHECK((int)(intptr_t)r[i].object == IN.start + (int)i * IN.steps, "range: exactly the listed numbers in order");
	}
	CHECK(is_data(r) && defers == 1 && deferred_ == (void *)r && deferred_f == (void *)data_delete, "range: released with its scope");
	CHECK(asked >= sizeof(array_metadata_t) + N * sizeof(values_t), "range: room in memory");
	REACH("made");
}
#endif
#ifdef H_finding_growth
void finding_growth(void) {
	array_t a = array();
	size_t i;
	for (i = 0; i < 3; i++) $append(a, i + 1);
	CHECK(data_size(a) == 3, "an array past its capacity keeps its elements");
}
#endif
