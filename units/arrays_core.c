/*@vf
[[unit]]
prop = "C05"
entry = "harness_append"
what = "append on an array below capacity adds exactly one element at the end and touches nothing else (any capacity up to 2^20)"
functions = ["data_append"]
enforce = ["data_append/C_data_append"]
trusted = ["events_malloc/events_realloc/events_free behave as malloc/realloc/free", "is_ptr_usable(p) means p is a live heap pointer"]

[[unit]]
prop = "C05"
entry = "harness_append_item"
what = "typed append stores exactly the given value, for every item kind"
functions = ["data_append_item"]
plain = true
defs = ["CAPMAX=1024"]
each = "OP=0 OP=1 OP=2 OP=3 OP=4 OP=5 OP=6 OP=7 OP=8"
kind = "bounded"
bound = "capacity <= 2"

[[unit]]
prop = "C05"
entry = "harness_remove"
what = "remove(i) deletes exactly element i, keeps every other element in order, and ignores an index past the end"
defs = ["MEMMOVE_CONTRACT"]
trusted = ["memmove copies exactly n bytes (libc contract at the witness element)"]
functions = ["data_remove"]
enforce = ["data_remove/C_data_remove"]

[[unit]]
prop = "C05"
entry = "harness_pop"
what = "pop returns and removes the last element (empty value when there is none)"
defs = ["MEMMOVE_CONTRACT"]
trusted = ["memmove copies exactly n bytes (libc contract at the witness element)"]
functions = ["data_pop", "data_remove"]
enforce = ["data_pop/C_data_pop"]

[[unit]]
prop = "C05"
entry = "harness_shift"
what = "shift returns and removes the first element, keeping the order of the rest"
defs = ["MEMMOVE_CONTRACT"]
trusted = ["memmove copies exactly n bytes (libc contract at the witness element)"]
functions = ["data_shift", "data_remove"]
enforce = ["data_shift/C_data_shift"]

[[unit]]
prop = "C05"
entry = "harness_views"
what = "size, capacity, type tests, reset, tuple view and delete report and change exactly what they name"
functions = ["data_size", "data_capacity", "data_reset", "data_tuple", "is_data", "data_delete", "data_value", "data_type"]
plain = true

[[unit]]
prop = "C05"
entry = "harness_tuple_ro"
defs = ["VF_THROW_REACH"]
what = "a tuple refuses append, pop, shift, remove and reset"
functions = ["data_append", "data_append_item", "data_pop", "data_shift", "data_remove", "data_reset"]
plain = true
@*/
#include "vf.h"
#include "arrays.c"
#include "stubs.h"

VF_INPUTS( size_t cap; size_t n; size_t k; size_t i; values_t v; values_t w; values_t x; values_t y; int op; data_types ty; double d; int iv; char cv; short sv; bool bv; void *pv; )

#ifndef CAPMAX
# define CAPMAX ((size_t)1 << 20)
#endif
static array_t A;
static size_t N, CAP, K, I;
static data_types T;
static values_t OK_, OK1;   /* element K and K+1 before the call */

static void *last_freed;
void ex_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d) { vf_throw_hook(); }
void *events_malloc(size_t n) { return malloc(n); }
void *events_realloc(void *p, size_t n) { return realloc(p, n); }
void events_free(void *p) { last_freed = p; free(p); }

SPEC_BEGIN
static void mk(data_types type) {
	array_metadata_t *m;
	RANGE(IN.cap, 1, CAPMAX);
	RANGE(IN.n, 0, IN.cap);
	m = malloc(sizeof(array_metadata_t) + IN.cap * sizeof(values_t));
	ASSUME(m != NULL);
	A = (array_t)(m + 1);
	m->type = T = type;
	m->size = N = IN.n;
	m->capacity = CAP = IN.cap;
	K = IN.k; I = IN.i;
	/* arbitrary contents around the witness index */
	if (IN.i < IN.cap) A[IN.i] = IN.y;
	if (K < CAP) A[K] = IN.v;
	if (K + 1 < CAP && K + 1 != 0) A[K + 1] = IN.w;
	A[0] = K == 0 ? IN.v : K == (size_t)-1 ? IN.w : IN.x;
	if (N) OK_ = A[K < CAP ? K : 0];
	if (K < CAP) OK_ = A[K];
	if (K < CAP && K + 1 < CAP) OK1 = A[K + 1];
}
static bool hdr(size_t n) { return data_size(A) == n && data_capacity(A) == CAP && array_address(A)->type == T; }
static bool eq(values_t a, values_t b) { return a.max_size == b.max_size; }
/* every element below n, read at the witness index K, is what it was */
static bool kept(size_t n) { return K >= n || eq(A[K], OK_); }
static bool shifted(size_t from, size_t n) { return K >= n || (K < from ? eq(A[K], OK_) : eq(A[K], OK1)); }
static bool removed(size_t i) { return i < N ? hdr(N - 1) && shifted(i, N - 1) : hdr(N) && kept(N); }
static values_t was0, wasL;
#if !defined(VF_NATIVE) && defined(MEMMOVE_CONTRACT)
/* libc contract, specialised to the witness element K (its own quantifier):
 * [dst, dst+n) receives the bytes of [src, src+n), nothing else is written. */
void *memmove(void *dst, const void *src, size_t n) {
	values_t t;
	bool hit;
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(src, n), "memmove source readable");
	__CPROVER_assert(n == 0 || __CPROVER_w_ok(dst, n), "memmove destination writeable");
	hit = K < CAP && (char *)&A[K] >= (char *)dst && (char *)(&A[K] + 1) <= (char *)dst + n;
	if (hit) { t = *(values_t *)((char *)src + ((char *)&A[K] - (char *)dst)); A[K] = t; }
	return dst;
}
#endif
SPEC_END

CONTRACT(void C_data_append(array_t arr, void *value),
	REQUIRES(arr == A && N < CAP)
	ASSIGNS(array_address(arr)->size, arr[array_address(arr)->size])
	ENSURES(hdr(N + 1) && A[N].object == value && kept(N)))
#ifdef H_append
void harness_append(void) {
	VF_BEGIN(); mk(DATA_ARRAY);
	ASSUME(N < CAP);
	data_append(A, IN.pv);
	CHECK(hdr(N + 1), "append: size grows by one, capacity and type stay");
	CHECK(A[N].object == IN.pv, "append: the new last element is the value");
	CHECK(kept(N), "append: earlier elements keep their value");
	REACH("appended");
}
#endif

CONTRACT(void C_data_append_item(array_t arr, ...),
	REQUIRES(arr == A && N < CAP)
	ASSIGNS(array_address(arr)->size, arr[array_address(arr)->size])
	ENSURES(hdr(N + 1) && kept(N)))
#ifdef H_append_item
void harness_append_item(void) {
	VF_BEGIN(); mk(DATA_ARRAY);
	ASSUME(N < CAP);
#if OP == 0
	$append_double(A, IN.d); CHECK(A[N].precision == IN.d || IN.d != IN.d, "typed append: double"); REACH("double");
#elif OP == 1
	$append_signed(A, IN.v.long_long); CHECK(A[N].long_long == IN.v.long_long, "typed append: signed"); REACH("signed");
#elif OP == 2
	$append_unsigned(A, IN.v.max_size); CHECK(A[N].max_size == IN.v.max_size, "typed append: unsigned"); REACH("unsigned");
#elif OP == 3
	$append_func(A, (data_func_t)IN.pv); CHECK(A[N].func == (data_func_t)IN.pv, "typed append: func"); REACH("func");
#elif OP == 4
	data_append_item(A, DATA_SHORT, (int)IN.sv) /* as $append_short after C's argument promotion */; CHECK(A[N].s_short == IN.sv, "typed append: short"); REACH("short");
#elif OP == 5
	data_append_item(A, DATA_BOOL, (int)IN.bv); CHECK(A[N].boolean == !!IN.bv, "typed append: bool"); REACH("bool");
#elif OP == 6
	data_append_item(A, DATA_CHAR, (int)IN.cv); CHECK(A[N].schar == (signed char)IN.cv, "typed append: char"); REACH("char");
#elif OP == 7
	$append_string(A, (char *)IN.pv); CHECK(A[N].char_ptr == (char *)IN.pv, "typed append: string"); REACH("string");
#else
	data_append_item(A, DATA_PTR, IN.pv); CHECK(A[N].object == IN.pv, "typed append: pointer"); REACH("pointer");
#endif
	CHECK(hdr(N + 1), "typed append: size grows by one");
	CHECK(kept(N), "typed append: earlier elements keep their value");
}
#endif

CONTRACT(void C_data_remove(array_t arr, size_t i),
	REQUIRES(arr == A)
	ASSIGNS(OBJ(array_address(arr)))
	ENSURES(removed(i)))
#ifdef H_remove
void harness_remove(void) {
	VF_BEGIN(); mk(DATA_ARRAY);
	data_remove(A, I);
	CHECK(I >= N || hdr(N - 1), "remove: one element fewer");
	CHECK(I < N || hdr(N), "remove: an index past the end changes nothing");
	CHECK(removed(I), "remove: exactly element i is gone and the order is kept");
	if (I < N) REACH("removed"); else REACH("past the end");
}
#endif

CONTRACT(values_t C_data_pop(array_t arr),
	REQUIRES(arr == A)
	ASSIGNS(OBJ(array_address(arr)))
	ENSURES(N ? eq(RET, wasL) && removed(N - 1) : RET.object == NULL && hdr(0)))
#ifdef H_pop
void harness_pop(void) {
	values_t r;
	VF_BEGIN(); mk(DATA_ARRAY);
	if (N) wasL = A[N - 1];
	r = data_pop(A);
	CHECK(N || (r.object == NULL && hdr(0)), "pop: empty array gives the empty value");
	CHECK(!N || eq(r, wasL), "pop: returns the last element");
	CHECK(!N || removed(N - 1), "pop: removes the last element only");
	if (N) REACH("popped"); else REACH("empty");
}
#endif

CONTRACT(values_t C_data_shift(array_t arr),
	REQUIRES(arr == A)
	ASSIGNS(OBJ(array_address(arr)))
	ENSURES(N ? eq(RET, was0) && removed(0) : RET.object == NULL && hdr(0)))
#ifdef H_shift
void harness_shift(void) {
	values_t r;
	VF_BEGIN(); mk(DATA_ARRAY);
	was0 = A[0];
	r = data_shift(A);
	CHECK(N || (r.object == NULL && hdr(0)), "shift: empty array gives the empty value");
	CHECK(!N || eq(r, was0), "shift: returns the first element");
	CHECK(!N || removed(0), "shift: removes the first element only");
	if (N) REACH("shifted"); else REACH("empty");
}
#endif

#ifdef H_views
void harness_views(void) {
	VF_BEGIN(); mk(DATA_ARRAY);
	CHECK(data_size(NULL) == 0 && data_capacity(NULL) == 0, "the null array is empty");
	CHECK(data_size(A) == N && data_capacity(A) == CAP, "size and capacity");
	array_address(A)->type = T = IN.ty;
	CHECK(is_data(A) == (T == DATA_ARRAY || T == DATA_TUPLE || T == DATA_RANGE || T == DATA_RANGE_CHAR), "is_data tells arrays, tuples and ranges from the rest");
	CHECK(!is_data(NULL), "null is no array");
	CHECK(hdr(N) && kept(N), "queries change nothing");
	if (IN.op & 1) {
		CHECK(data_tuple(A) == A, "tuple is a view of the same elements");
		T = DATA_TUPLE;
		CHECK(hdr(N) && kept(N), "tuple keeps the elements and locks the type");
		REACH("tuple");
	} else {
		ASSUME(T != DATA_TUPLE);
		CHECK(data_reset(A) == A && hdr(0) && kept(CAP), "reset empties the array in place");
		REACH("reset");
	}
	CHECK(data_reset(NULL) == NULL, "reset of null");
	data_delete(NULL);
	data_remove(NULL, I);
	CHECK(last_freed == NULL, "delete of null frees nothing");
	data_delete(A);
	CHECK(last_freed == (void *)array_address(A), "delete frees the array");
	CHECK(data_value(&IN.v).max_size == IN.v.max_size && data_value(NULL).max_size == 0, "data_value");
	CHECK(data_type(NULL) == DATA_INVALID && data_type(&IN.ty) == IN.ty, "data_type");
	REACH("end");
}
#endif

#ifdef H_tuple_ro
void harness_tuple_ro(void) {
	VF_BEGIN(); mk(DATA_TUPLE);
	vf_may_throw = true;
	switch (IN.op) {
		case 0: data_append(A, IN.pv); break;
		case 1: data_append_item(A, DATA_PTR, IN.pv); break;
		case 2: data_pop(A); break;
		case 3: data_shift(A); break;
		case 4: data_remove(A, IN.i); break;
		default: data_reset(A); break;
	}
	CHECK(vf_threw, "a tuple must refuse the change");
}
#endif
