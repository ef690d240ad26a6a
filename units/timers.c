/*@vf
[[unit]]
prop = "C01"
entry = "harness_actor"
what = "a scheduled timer is due the requested milliseconds after now and is put behind every timer due earlier; all others keep their place and time"
functions = ["events_actor_timeout", "events_actor", "events_nsec"]
plain = true
each = "N=0!4 N=1!4 N=2!5 N=3!6 N=6!9"
kind = "bounded"
bound = "up to 6 pending timers at any times; any duration, any current time"
stub = ["__thrd:vf_thrd", "events_nsec:vf_nsec", "events_calloc:VF_CALLOC"]
backend = "--z3"
trusted = ["the clock does not go back between two readings", "events_calloc returns zeroed memory (C18)"]

[[unit]]
prop = "C01"
entry = "harness_fire"
what = "a pass of the loop calls the earliest timer exactly when it is due, once, and releases it; no other timer is touched"
functions = ["events_execute", "events_repeat_actor", "events_clear_actor"]
plain = true
each = "N=0!4 N=1!4 N=2!5 N=3!6 N=6!9"
kind = "bounded"
bound = "up to 6 pending timers at any times"
stub = ["__thrd:vf_thrd", "events_poll_once_internal:vf_poll", "os_iodispatch:vf_iodispatch", "events_nsec:vf_nsec", "events_free:vf_freer", "events_calloc:vf_calloc"]
backend = "--z3"
trusted = ["polling and scheduling inside the pass do not touch the timers (their contracts are C02 to C04)"]

[[unit]]
prop = "C01"
entry = "harness_sleep"
what = "a sleeping task is put into the sleep queue by its wake-up time, behind earlier ones"
functions = ["add_timeout"]
plain = true
stub = ["__thrd:vf_thrd"]
backend = "--z3"
each = "N=0!4 N=1!4 N=2!5 N=3!6 N=6!9"
kind = "bounded"
bound = "up to 6 sleeping tasks at any times; any duration, any current time"

[[unit]]
prop = "C01"
entry = "harness_delay"
what = "a sleep suspends the running task with its wake-up time and reports the elapsed milliseconds"
functions = ["delay", "add_timeout", "events_nsec"]
plain = true
each = "N=0!4 N=2!5"
kind = "bounded"
bound = "up to 2 other sleepers; any duration, any two clock readings"
stub = ["__thrd:vf_thrd", "task_switch:vf_switch", "events_nsec:vf_nsec"]
backend = "--z3"
trusted = ["task_switch runs other tasks and returns when the task is resumed (machine stack switching, C24)"]

[[unit]]
prop = "C01"
entry = "harness_wake"
what = "the sleep system makes ready exactly the tasks whose time has come, in order, once, and leaves the others asleep"
functions = ["task_wait_system"]
plain = true
each = "N=0!4 N=1!4 N=2!5 N=3!6 N=6!9"
kind = "bounded"
bound = "up to 6 sleeping tasks at any times"
stub = ["__thrd:vf_thrd", "yield:vf_yield", "active_info:vf_active_info", "task_name:vf_task_name", "events_nsec:vf_nsec"]
backend = "--z3"
trusted = ["yield runs other tasks and returns later"]

[[unit]]
prop = "C01"
entry = "harness_nsec"
what = "the loop's clock is the system's time in nanoseconds"
functions = ["events_nsec", "events_timeofday"]
plain = true
backend = "--z3"
trusted = ["gettimeofday gives the current time"]
@*/
#include "vf.h"
#include "events.c"
#include "stubs.h"
static events_thread_t THRD;
events_thread_t *vf_thrd(void) { return &THRD; }
#include "libc_models.h"
#ifndef VF_NATIVE
/* candidates of the callback's call: never the target */
void *calloc(size_t n, size_t m) { BOUND(false); return NULL; }
void *realloc(void *p, size_t m) { BOUND(false); return NULL; }
#endif
#ifndef N
# define N 2
#endif
VF_INPUTS( uint64_t ns[3]; int ms; uint32_t ums; uint64_t al[N + 1]; bool rep; bool halt[N + 1]; bool sys; int cnt; int tc; uint64_t sec; uint32_t usec; )

/* Clock readings in nanoseconds, years 1970 to 2400, never going back. The
 * verifier run takes them for events_nsec (its contract is the unit nsec). */
static int clock_reads;
static void clock_in(void) {
	RANGE(IN.ns[0], 0, 13569465600000000000ull); RANGE(IN.ns[1], IN.ns[0], 13569465600000000000ull); RANGE(IN.ns[2], IN.ns[1], 13569465600000000000ull);
	clock_reads = 0;
}
static uint64_t ns(int k) { return IN.ns[k]; }
static int rd(void) { int k = clock_reads < 3 ? clock_reads : 2; clock_reads++; return k; }
#ifdef H_nsec
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { tv->tv_sec = IN.sec; tv->tv_usec = IN.usec; return 0; }
void harness_nsec(void) {
	VF_BEGIN();
	RANGE(IN.sec, 0, 13569465600ull); RANGE(IN.usec, 0, 999999);
	CHECK(events_nsec() == IN.sec * 1000000000ull + IN.usec * 1000ull, "clock: nanoseconds of the system's time");
	REACH("read");
}
#else
uint64_t vf_nsec(void) { return ns(rd()); }
#endif
#define FAR 14000000000000000000ull

#if defined(H_actor) || defined(H_fire)
static struct events_loop_s L;
static actor_t P0, P1, P2, P3, P4, P5, P6;
static actor_t *const PP[7] = {&P0, &P1, &P2, &P3, &P4, &P5, &P6};
#define P(i) (*PP[i])
static int cbs; static actor_t *cb_t; static void *cb_a;
static void cb(actor_t *t, void *a);
static void mk(void) {
	int i;
	memset(&L, 0, sizeof L);
	for (i = 0; i < N; i++) {
		RANGE(IN.al[i], 0, FAR);
		if (i) ASSUME(IN.al[i - 1] <= IN.al[i]);
		
		P(i).alarmtime = IN.al[i]; P(i).actor = cb; P(i).args = &P(i); P(i).loop = &L;
		P(i).prev = i ? &P(i - 1) : NULL; P(i).next = i < N - 1 ? &P(i + 1) : NULL;
	}
	L.timers->head = N ? &P(0) : NULL; L.timers->tail = N ? &P(N - 1) : NULL;
	L.active_timers = N;
}
/* the list from head is exactly the N old timers and, if given, the new one before old number at */
static bool list_is(int from, actor_t *x, int at) {
	actor_t *t = L.timers->head, *p = NULL;
	int i;
	for (i = from; i <= N; i++) {
		if (x && i == at) { if (t != x || t->prev != p) return false; p = t; t = t->next; }
		if (i < N) { if (t != &P(i) || t->prev != p || t->alarmtime != IN.al[i] || t->actor != cb || t->args != &P(i)) return false; p = t; t = t->next; }
	}
	return t == NULL && L.timers->tail == p;
}
#endif

#ifdef H_actor
static actor_t A;
void *VF_CALLOC(size_t c, size_t n) { CHECK(c * n == sizeof(actor_t), "timer record size"); memset(&A, 0, sizeof A); return &A; }
static void cb(actor_t *t, void *a) { }
void harness_actor(void) {
	actor_t *r;
	int at = 0, i;
	uint64_t when;
	VF_BEGIN();
	clock_in(); mk();
	RANGE(IN.ms, 0, INT_MAX);
	r = events_actor(&L, IN.ms, cb, &IN);
	when = ns(0) + (uint64_t)IN.ms * 1000000ull;
	CHECK(r == &A && r->alarmtime == when, "timer: due exactly the requested time from now");
	when = r->alarmtime;
	CHECK(r->actor == cb && r->args == &IN && r->loop == &L, "timer: callback, argument and loop recorded");
	for (i = 0; i < N; i++) if (IN.al[i] < when) at = i + 1;
	/* among equal times either place keeps the order by deadline; the code's is before */
	CHECK(list_is(0, r, at), "timer: put in its place by deadline, the others unchanged");
	CHECK(L.active_timers == N + 1, "timer: counted");
	REACH("scheduled");
}
#endif

#ifdef H_fire
void *vf_calloc(size_t n, size_t m) { return NULL; }
static int freed; static void *freed_p;
void vf_freer(void *p) { freed++; freed_p = p; }
int vf_poll(events_t *l, int w) { return 0; }
int vf_iodispatch(int t) { return 0; }
static void cb(actor_t *t, void *a) {
	cbs++; cb_t = t; cb_a = a;
	if (IN.rep) events_repeat_actor(t, IN.ms); else events_clear_actor(t);
}
void harness_fire(void) {
	int r;
	VF_BEGIN();
	clock_in(); mk();
	RANGE(IN.ms, 0, INT_MAX);
	THRD.task_count = 0;
	r = events_execute(&L, 0);
	CHECK(r == 0, "pass: succeeds");
	if (N == 0 || ns(0) < IN.al[0]) {
		CHECK(cbs == 0 && list_is(0, NULL, 0) && L.active_timers == N && freed == 0, "pass: nothing is called before its time");
		REACH("none due");
	}
#if N > 0
	else {
		CHECK(cbs == 1 && cb_t == &P(0) && cb_a == &P(0), "pass: the earliest due timer is called once with its argument");
		if (IN.rep) {
			uint64_t when = ns(1) + (uint64_t)IN.ms * 1000000ull;
			int at = 1, i;
			CHECK(P(0).alarmtime == when && freed == 0 && L.active_timers == N, "pass: a repeating timer is scheduled one period later");
			when = P(0).alarmtime;
			for (i = 1; i < N; i++) if (IN.al[i] < when) at = i + 1;
			/* P(0) is queued again: check the rest around it */
			IN.al[0] = when;
			{
				actor_t *t = L.timers->head, *p = NULL;
				for (i = 1; i <= N; i++) {
					if (i == at) { CHECK(t == &P(0) && t->prev == p, "pass: repeating timer in its place"); p = t; t = t->next; }
					if (i < N) { CHECK(t == &P(i) && t->prev == p && t->alarmtime == IN.al[i], "pass: others unchanged"); p = t; t = t->next; }
				}
				CHECK(t == NULL && L.timers->tail == p, "pass: list ends");
			}
			REACH("repeated");
		} else {
			CHECK(freed == 1 && freed_p == &P(0) && L.active_timers == N - 1, "pass: a finished timer is released once");
			CHECK(list_is(1, NULL, 0), "pass: the others are unchanged");
			REACH("fired");
		}
	}
#endif
}
#endif

#if defined(H_sleep) || defined(H_delay) || defined(H_wake)
static tasks_t T0, T1, T2, T3, T4, T5, T6, R, CUR;
static tasks_t *const TT[7] = {&T0, &T1, &T2, &T3, &T4, &T5, &T6};
#define T(i) (*TT[i])
static void mk(void) {
	int i;
	THRD.sleep_queue->head = N ? &T(0) : NULL; THRD.sleep_queue->tail = N ? &T(N - 1) : NULL;
	for (i = 0; i < N; i++) {
		RANGE(IN.al[i], 0, FAR);
		if (i) ASSUME(IN.al[i - 1] <= IN.al[i]);
		T(i).alarm_time = IN.al[i]; T(i).status = TASK_SLEEPING; T(i).system = false; T(i).halt = false; T(i).ready = false; T(i).sleeping = NULL;
		T(i).prev = i ? &T(i - 1) : NULL; T(i).next = i < N - 1 ? &T(i + 1) : NULL;
	}
	THRD.sleep_count = N; RANGE(IN.tc, 1, 1000); THRD.task_count = IN.tc;
	R.system = false; R.status = TASK_RUNNING; R.prev = R.next = NULL; R.magic_number = TASK_MAGIC_NUMBER;
	THRD.running = &R;
	THRD.current_handle = &CUR;
}
static bool queue_is(int from, tasks_t *x, int at) {
	tasks_t *t = THRD.sleep_queue->head, *p = NULL;
	int i;
	for (i = from; i <= N; i++) {
		if (x && i == at) { if (t != x || t->prev != p) return false; p = t; t = t->next; }
		if (i < N) { if (t != &T(i) || t->prev != p || t->alarm_time != IN.al[i] || t->status != TASK_SLEEPING) return false; p = t; t = t->next; }
	}
	return t == NULL && THRD.sleep_queue->tail == p;
}
static int place(uint64_t when) {
	int i, at = 0;
	for (i = 0; i < N; i++) if (IN.al[i] < when) at = i + 1;
	return at;
}
#endif

#ifdef H_sleep
void harness_sleep(void) {
	uint64_t when;
	VF_BEGIN();
	clock_in(); mk();
	R.system = IN.sys;
	add_timeout(&R, &R, IN.ums, ns(0));
	when = ns(0) + (uint64_t)IN.ums * 1000000ull;
	CHECK(R.alarm_time == when && R.status == TASK_SLEEPING, "sleep: wakes exactly the requested time from now");
	when = R.alarm_time;
	CHECK(queue_is(0, &R, place(when)), "sleep: put in its place by wake-up time, the others unchanged");
	CHECK(THRD.sleep_count == N + (IN.sys ? 0 : 1) && THRD.task_count == IN.tc + (!IN.sys && N == 0 ? 1 : 0), "sleep: counted");
	REACH("asleep");
}
#endif

#ifdef H_delay
static int switched;
void vf_switch(tasks_t *t) {
	uint64_t when = ns(0) + (uint64_t)IN.ums * 1000000ull;
	switched++;
	CHECK(t == &CUR, "delay: gives way to the scheduler");
	CHECK(R.alarm_time == when, "delay: wakes exactly the requested time from now");
	CHECK(queue_is(0, &R, place(R.alarm_time)), "delay: asleep in its place when it gives way");
}
void harness_delay(void) {
	uint32_t r;
	VF_BEGIN();
	clock_in(); mk();
	/* elapsed time below 49 days, what the result can hold */
	ASSUME(ns(1) - ns(0) < 4294967296000000ull);
	r = delay(IN.ums);
	CHECK(switched == 1, "delay: gives way once");
#if N == 0
	CHECK(r == (uint32_t)((ns(1) - ns(0)) / 1000000), "delay: reports the elapsed milliseconds");
#endif
	REACH("slept");
}
#endif

#ifdef H_wake
static struct _future PF; static events_deque_t Q; static struct events_loop_s L;
static int yields;
static int due;
static bool ready_is(void) {
	tasks_t *t = THRD.run_queue->head, *p = NULL;
	int i;
	for (i = 0; i < due; i++) {
		if (t != &T(i) || t->prev != p || !t->ready || t->status != TASK_NORMAL) return false;
		p = t; t = t->next;
	}
	return t == NULL && THRD.run_queue->tail == p;
}
void vf_yield(void) {
	int i;
	if (yields++ == 0) return;
	due = 0;
	for (i = 0; i < N; i++) if (IN.al[i] <= ns(0)) due = i + 1;
	CHECK(ready_is(), "wake: exactly the tasks whose time has come are ready, in order");
	CHECK(queue_is(due, NULL, 0), "wake: no task is woken before its time");
	CHECK(THRD.sleep_count == N - due && THRD.task_count == IN.tc - 1 - (N && due == N ? 1 : 0), "wake: counted");
	REACH("a pass is over");
	VF_STOP();
}
void vf_active_info(void) { }
void vf_task_name(char *f, ...) { }
void harness_wake(void) {
	VF_BEGIN();
	clock_in(); mk();
	THRD.exiting = 0; THRD.is_main = true; THRD.pool = &PF; PF.queue = &Q; THRD.loop = &L;
	atomic_flag_clear(&Q.shutdown);
	THRD.run_queue->head = THRD.run_queue->tail = NULL;
	THRD.num_others_ran = 0;
	task_wait_system(NULL);
	CHECK(false, "wake: keeps serving");
}
#endif
