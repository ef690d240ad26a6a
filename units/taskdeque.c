/*@vf
[[unit]]
prop = "C06"
entry = "harness_push"
what = "push adds exactly the task at the bottom and keeps every other task at its place"
functions = ["deque_push"]
plain = true
each = "SIZE=4 SIZE=16 SIZE=64 SIZE=256"
thorough_each = "SIZE=1024"
stub = ["deque_resize:vf_resize"]
trusted = ["fewer than 2^62 pushes over the life of a deque"]

[[unit]]
prop = "C06"
entry = "harness_pushfull"
what = "push on a full deque grows it and keeps every task at its place"
functions = ["deque_push", "deque_resize"]
plain = true
each = "SIZE=1!4 SIZE=2!5 SIZE=4!7 SIZE=8!11"
thorough_each = "SIZE=16!19"
kind = "bounded"
bound = "deque sizes 1, 2, 4, 8 (16 thorough), any index position"
stub = ["events_calloc:vf_calloc", "events_free:vf_free"]

[[unit]]
prop = "C06"
entry = "harness_grow"
what = "growing keeps every task and its position, doubles the room and releases the old storage"
functions = ["deque_resize"]
plain = true
each = "SIZE=1!4 SIZE=2!5 SIZE=4!7 SIZE=8!11"
kind = "bounded"
bound = "deque sizes 1, 2, 4, 8, any fill and index position"
stub = ["events_calloc:vf_calloc", "events_free:vf_free"]

[[unit]]
prop = "C06"
entry = "harness_take"
what = "take removes exactly the most recently pushed task; an empty deque yields nothing and stays empty"
functions = ["deque_take"]
plain = true
each = "SIZE=4 SIZE=16 SIZE=64 SIZE=256"
thorough_each = "SIZE=1024"

[[unit]]
prop = "C06"
entry = "harness_steal"
what = "steal removes exactly the oldest task; an empty deque yields nothing and stays empty"
functions = ["deque_steal"]
plain = true
each = "SIZE=4 SIZE=16 SIZE=64 SIZE=256"
thorough_each = "SIZE=1024"

[[unit]]
prop = "C06"
entry = "harness_peek"
what = "peeking gives the task in the slot and changes nothing"
functions = ["deque_peek"]
plain = true
each = "SIZE=4 SIZE=16 SIZE=64 SIZE=256"
thorough_each = "SIZE=1024"

[[unit]]
prop = "C06"
entry = "harness_init"
what = "a new deque is empty, with room for the requested number of tasks"
functions = ["deque_init", "deque_take", "deque_steal", "deque_push"]
plain = true
each = "SIZE=4 SIZE=16 SIZE=64"
stub = ["events_calloc:vf_calloc"]

[[unit]]
prop = "C06"
entry = "harness_seq"
what = "any sequence of pushes, takes and steals behaves as a double-ended sequence, through growth"
functions = ["deque_push", "deque_take", "deque_steal", "deque_resize"]
plain = true
each = "SIZE=2,OPS=6!8"
thorough_each = "SIZE=2,OPS=7!9"
kind = "bounded"
bound = "sequences of 6 operations (7 thorough) on a deque of size 2"
stub = ["events_calloc:vf_calloc", "events_free:vf_free"]
@*/
#include "vf.h"
#include "deque.c"
#include "stubs.h"
#ifndef SIZE
# define SIZE 4
#endif
#ifndef OPS
# define OPS 1
#endif
VF_INPUTS( size_t t; size_t n; size_t k; int idx; tasks_t *v; tasks_t *x; size_t avail; char op[16]; )
static struct { atomic_size_t size; tasks_t *b[SIZE]; } A;
static struct { atomic_size_t size; tasks_t *b[2 * SIZE + 2]; } B;
static struct { atomic_size_t size; tasks_t *b[4 * SIZE + 4]; } C;
static struct { atomic_size_t size; tasks_t *b[8 * SIZE + 4]; } D;
static events_deque_t Q;
#ifdef H_init
# define GROWTH 1
#else
# define GROWTH 2
#endif
static int resizes, frees, allocs; static void *freed;
void vf_resize(events_deque_t *q) { resizes++; BOUND(false); }
void *vf_calloc(size_t n, size_t s) {
	allocs++;
#ifdef H_seq
	if (allocs == 1) { BOUND(n * s <= sizeof B); return &B; }
	if (allocs == 2) { BOUND(n * s <= sizeof C); return &C; }
	BOUND(allocs == 3 && n * s <= sizeof D); return &D;
#else
	CHECK(n * s >= sizeof(size_t) + GROWTH * SIZE * sizeof(tasks_t *), "grow: room for twice as many tasks");
	return &B;
#endif
}
void vf_free(void *p) { frees++; freed = p; }
static bool empty_mark(tasks_t *x) { return x == TASK_EMPTY_T; }
static bool live(size_t n) {
	/* the witness: the task at place k of the sequence */
	RANGE(IN.t, 0, (size_t)1 << 62);
	RANGE(IN.n, 0, n);
	RANGE(IN.k, 0, n - 1);
	A.size = SIZE; Q.top = IN.t; Q.bottom = IN.t + IN.n; Q.available = IN.avail;
	Q.array = (void *)&A;
	if (IN.k < IN.n) A.b[(IN.t + IN.k) % SIZE] = IN.x;
	return IN.k < IN.n;
}
static tasks_t *place(size_t k) { deque_array_t *a = (deque_array_t *)Q.array; return a->buffer[(Q.top + k) % a->size]; }
static size_t count(void) { return Q.bottom - Q.top; }
#ifdef H_push
void harness_push(void) {
	bool w;
	VF_BEGIN();
	w = live(SIZE - 1);
	deque_push(&Q, IN.v);
	CHECK(resizes == 0 && Q.top == IN.t && count() == IN.n + 1 && Q.array == (void *)&A && A.size == SIZE, "push: exactly one more");
	CHECK(place(IN.n) == IN.v, "push: at the bottom");
	if (w) CHECK(place(IN.k) == IN.x, "push: the others keep their place");
	CHECK(Q.available == IN.avail, "push: nothing else changes");
	REACH("pushed");
}
#endif
#ifdef H_pushfull
void harness_pushfull(void) {
	VF_BEGIN();
	IN.n = SIZE;
	live(SIZE);
	ASSUME(IN.n == SIZE);
	deque_push(&Q, IN.v);
	CHECK(allocs == 1 && frees == 1 && freed == &A && Q.array == (void *)&B && B.size == 2 * SIZE, "push: grows once");
	CHECK(Q.top == IN.t && count() == SIZE + 1, "push: exactly one more");
	CHECK(place(SIZE) == IN.v, "push: at the bottom");
	CHECK(place(IN.k) == IN.x, "push: the others keep their place");
	REACH("pushed");
}
#endif
#ifdef H_grow
void harness_grow(void) {
	bool w;
	VF_BEGIN();
	w = live(SIZE);
	deque_resize(&Q);
	CHECK(allocs == 1 && frees == 1 && freed == &A && Q.array == (void *)&B && B.size == 2 * SIZE, "grow: twice the room, the old storage released once");
	CHECK(Q.top == IN.t && count() == IN.n, "grow: the same number of tasks");
	if (w) CHECK(place(IN.k) == IN.x, "grow: every task keeps its place");
	REACH("grown");
}
#endif
#ifdef H_take
void harness_take(void) {
	bool w; tasks_t *r;
	VF_BEGIN();
	w = live(SIZE);
	r = deque_take(&Q);
	CHECK(Q.array == (void *)&A && A.size == SIZE && Q.available == IN.avail, "take: nothing else changes");
	if (IN.n == 0) { CHECK(empty_mark(r) && count() == 0, "take: an empty deque yields nothing and stays empty"); REACH("empty"); }
	else {
		CHECK(count() == IN.n - 1, "take: exactly one less");
		if (IN.k == IN.n - 1) CHECK(r == IN.x, "take: the most recently pushed");
		else if (w) CHECK(place(IN.k) == IN.x, "take: the others keep their place");
		if (IN.n > 1) CHECK(Q.top == IN.t, "take: from the bottom");
		REACH("taken");
	}
}
#endif
#ifdef H_steal
void harness_steal(void) {
	bool w; tasks_t *r;
	VF_BEGIN();
	w = live(SIZE);
	r = deque_steal(&Q);
	CHECK(Q.array == (void *)&A && A.size == SIZE && Q.available == IN.avail, "steal: nothing else changes");
	if (IN.n == 0) { CHECK(empty_mark(r) && count() == 0 && Q.top == IN.t, "steal: an empty deque yields nothing and stays empty"); REACH("empty"); }
	else {
		CHECK(count() == IN.n - 1 && Q.bottom == IN.t + IN.n, "steal: exactly one less, from the top");
		if (w && IN.k == 0) CHECK(r == IN.x, "steal: the oldest");
		else if (w) CHECK(place(IN.k - 1) == IN.x, "steal: the others keep their order");
		REACH("stolen");
	}
}
#endif
#ifdef H_peek
void harness_peek(void) {
	bool w; tasks_t *r;
	VF_BEGIN();
	w = live(SIZE);
	RANGE(IN.idx, 0, SIZE - 1);
	r = deque_peek(&Q, IN.idx);
	if (w && (size_t)IN.idx == (IN.t + IN.k) % SIZE) CHECK(r == IN.x, "peek: the task in the slot");
	CHECK(Q.top == IN.t && count() == IN.n && Q.array == (void *)&A && A.size == SIZE && Q.available == IN.avail, "peek: nothing changes");
	if (w) CHECK(place(IN.k) == IN.x, "peek: every task keeps its place");
	REACH("peeked");
}
#endif
#ifdef H_init
void harness_init(void) {
	VF_BEGIN();
	deque_init(&Q, SIZE);
	CHECK(count() == 0 && Q.available == 0 && Q.array == (void *)&B && B.size == SIZE && Q.type == DATA_DEQUE, "new: empty, with the requested room");
	CHECK(empty_mark(deque_take(&Q)) && count() == 0, "new: taking yields nothing");
	CHECK(empty_mark(deque_steal(&Q)) && count() == 0, "new: stealing yields nothing");
	deque_push(&Q, IN.v);
	CHECK(count() == 1 && deque_steal(&Q) == IN.v && count() == 0, "new: usable");
	REACH("made");
}
#endif
#ifdef H_seq
void harness_seq(void) {
	tasks_t *M[OPS + 1], *r; int lo = 0, hi = 0, i, j;
	VF_BEGIN();
	A.size = SIZE; Q.array = (void *)&A; Q.top = Q.bottom = 0;
	for (i = 0; i < OPS; i++) {
		if (IN.op[i] == 0) { r = (tasks_t *)(uintptr_t)(0x1000 + 16 * i); deque_push(&Q, r); M[hi++] = r; }
		else if (IN.op[i] == 1) { r = deque_take(&Q); CHECK(hi > lo ? r == M[hi - 1] : empty_mark(r), "sequence: take gives the most recently pushed, or nothing"); if (hi > lo) hi--; }
		else { r = deque_steal(&Q); CHECK(hi > lo ? r == M[lo] : empty_mark(r), "sequence: steal gives the oldest, or nothing"); if (hi > lo) lo++; }
		CHECK(count() == (size_t)(hi - lo), "sequence: the size is right");
		for (j = 0; j < hi - lo; j++) CHECK(place(j) == M[lo + j], "sequence: every task in its place");
	}
	REACH("sequence");
}
#endif
