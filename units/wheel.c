/*@vf
[[unit]]
prop = "C03"
entry = "harness_set"
what = "setting a timeout cancels the earlier one and marks the descriptor in exactly the slot that comes up after the given seconds, and no other descriptor is touched"
functions = ["events_set_timeout", "events_target"]
plain = true
each = "FDS=32,FD=0,RES=1 FDS=32,FD=15,RES=7 FDS=32,FD=16,RES=60 FDS=32,FD=31,RES=1"
thorough_each = "MAXFD=128,FD=127,RES=1 MAXFD=200,FD=16,RES=60"
kind = "bounded"
bound = "the listed table sizes, descriptor numbers and resolutions; any times, timeouts, slots and marks"
trusted = ["the descriptor is registered with a loop, seconds are not negative and end within the 128 slots of the wheel counted from its base time"]

[[unit]]
prop = "C03"
entry = "harness_expire"
what = "a pass notifies every marked descriptor of the elapsed slot exactly once and no other, even when a notified callback clears, renews or removes another one; the marks of the elapsed slot are gone"
functions = ["events_handle_timeout_internal", "events_set_timeout", "events_target"]
plain = true
fponly = true
cbmc = ["--no-undefined-shift-check"]
unwind = 18
unwindset = "events_handle_timeout_internal.0:17,events_handle_timeout_internal.1:3,events_handle_timeout_internal.2:3,events_handle_timeout_internal.3:3"
kind = "bounded"
bound = "a table of 32 descriptors, three of them with timeouts, any of these due; one elapsed slot; one change of any kind by the first callback"
each = "FDS=32,BASE=127,A0=3,A1=9,A2=20,X=0,ACT=0 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=0,ACT=1 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=1,ACT=1 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=2,ACT=1 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=0,ACT=2 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=2,ACT=2 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=0,ACT=3 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=1,ACT=1 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=2,ACT=1 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=1,ACT=2 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=2,ACT=2 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=1,ACT=3"
thorough_each = "FDS=32,BASE=127,A0=3,A1=9,A2=20,X=1,ACT=2 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=1,ACT=3 FDS=32,BASE=127,A0=3,A1=9,A2=20,X=2,ACT=3 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=0,ACT=0 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=0,ACT=1 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=0,ACT=2 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=0,ACT=3 FDS=32,BASE=0,A0=0,A1=15,A2=16,X=2,ACT=3"
trusted = ["callbacks do only what the unit lists: nothing, clear, renew or remove one descriptor"]

[[unit]]
prop = "C03"
entry = "harness_pass"
what = "a pass goes through exactly the slots whose time has come, each at its time, and keeps slots and times together; a descriptor marked in one of them is notified once, no other"
functions = ["events_handle_timeout_internal", "events_target"]
plain = true
fponly = true
cbmc = ["--no-undefined-shift-check"]
unwind = 18
unwindset = "events_handle_timeout_internal.0:17,events_handle_timeout_internal.1:3,events_handle_timeout_internal.2:3,events_handle_timeout_internal.3:8"
kind = "bounded"
bound = "at most 6 slots elapsed in one pass, any times"
each = "FDS=32,BASE=0,D=0,A0=0,ACT=0,RES=1 FDS=32,BASE=126,D=1,A0=15,ACT=0,RES=60 FDS=32,BASE=126,D=2,A0=16,ACT=0,RES=3 FDS=32,BASE=127,D=3,A0=31,ACT=0,RES=1000 FDS=32,BASE=64,D=5,A0=7,ACT=0,RES=1"
@*/
#include "vf.h"
#include "events.c"
#include "stubs.h"
#include "libc_models.h"
#include "noalloc.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
#ifdef FDS
# define MAXFD FDS
#endif
#ifndef MAXFD
# define MAXFD 128
#endif
#ifndef ACT
# define ACT 0
#endif
VF_INPUTS( int fd; int ofd; int secs; uint8_t base; uint8_t old; int res; int64_t now; int64_t bt; uint32_t w; uint8_t s; int16_t vword[3]; int16_t vvword[3]; bool armed; uint8_t a[3]; uint8_t d[3]; uint8_t x; uint8_t rs; bool due[3]; int64_t step[3]; )
#ifdef FDS
/* a table of two words per slot under one summary word */
# define VS 2
# define VVS 1
#else
#define VS (EVENTS_RND_UP(MAXFD, EVENTS_SIMD_BITS) / EVENTS_SHORT_BITS)
#define VVS (EVENTS_RND_UP(VS, EVENTS_SIMD_BITS) / EVENTS_SHORT_BITS)
#endif
/* descriptors of the table are kept apart */
#ifdef FD
/* the table is seen through the one record the function may touch: any other
   record would lie outside the object */
static events_fd_t ONE;
# define F ((events_fd_t *)((char *)&ONE - FD * sizeof(events_fd_t)))
#else
static events_fd_t F[MAXFD];
#endif
static short VEC[VS * EVENTS_TIMEOUT_VEC_SIZE], VVEC[VVS * EVENTS_TIMEOUT_VEC_SIZE];
static events_t L;
/* the marks as the property sees them */
#define BITOF(fd) ((unsigned short)0x8000 >> ((fd) % 16))
#define MARK(s, fd) ((VEC[(s) * VS + (fd) / 16] & BITOF(fd)) != 0)
#define SUMM(s, w) ((VVEC[(s) * VVS + (w) / 16] & BITOF(w)) != 0)
static void wheel(void) {
	atomic_init((void *_Atomic *)&sys_event.fds, (void *)F);
	sys_event.max_fd = MAXFD;
	sys_event.timeout_vec_size = VS; sys_event.timeout_vec_of_vec_size = VVS;
	L.loop_id = 1;
	L.timeout.vec = VEC; L.timeout.vec_of_vec = VVEC;
#ifdef BASE
	IN.base = BASE;
#endif
	RANGE(IN.base, 0, 127);
	L.timeout.base_idx = IN.base;
}
#ifdef H_set
void harness_set(void) {
	int k; size_t i[3], v[3]; uint8_t slot[3]; short w0; bool m0, om0;
	int64_t due;
	VF_BEGIN();
	wheel();
	IN.fd = FD;
#ifdef RES
	IN.res = RES;
#endif
	RANGE(IN.ofd, 0, MAXFD - 1); RANGE(IN.old, 0, 127); RANGE(IN.s, 0, 127); RANGE(IN.w, 0, VS - 1);
	RANGE(IN.res, 1, 1 << 20); RANGE(IN.secs, 0, 0x7fffffff); RANGE(IN.now, 0, (int64_t)1 << 40);
	RANGE(IN.bt, 0, (int64_t)1 << 40);
	ASSUME(IN.bt <= IN.now);
	due = IN.now + IN.secs - IN.bt;
	ASSUME(due < (int64_t)IN.res * 128);
	L.timeout.resolution = IN.res; L.timeout.base_time = IN.bt; L.now = IN.now;
	F[IN.fd].loop = &L; F[IN.fd].loop_id = 1;
	F[IN.fd].timeout_idx = IN.armed ? IN.old : EVENTS_TIMEOUT_IDX_UNUSED;
	/* any word of any slot, its summary bit as the invariant has it */
	VEC[IN.s * VS + IN.w] = IN.vword[0]; VVEC[IN.s * VVS + IN.w / 16] = IN.vvword[0];
	if (IN.armed && !(IN.old == IN.s && IN.w == IN.fd / 16)) { VEC[IN.old * VS + IN.fd / 16] = IN.vword[1]; if (!(IN.old == IN.s && IN.w / 16 == IN.fd / 256)) VVEC[IN.old * VVS + IN.fd / 256] = IN.vvword[1]; }
	ASSUME(SUMM(IN.s, IN.w) == (VEC[IN.s * VS + IN.w] != 0));
	if (IN.w == (uint32_t)IN.fd / 16) ASSUME(MARK(IN.s, IN.fd) == (IN.armed && IN.old == IN.s));
	if (IN.armed) ASSUME(MARK(IN.old, IN.fd) && SUMM(IN.old, IN.fd / 16));
	w0 = VEC[IN.s * VS + IN.w];
	om0 = MARK(IN.s, IN.ofd);
	events_set_timeout(IN.fd, IN.secs);
	CHECK(L.timeout.base_idx == IN.base && L.timeout.base_time == IN.bt && L.now == IN.now, "set: the clock of the wheel stays");
	if (IN.secs == 0) CHECK(F[IN.fd].timeout_idx == EVENTS_TIMEOUT_IDX_UNUSED, "set: zero seconds clears the timeout");
	else {
		size_t idx = F[IN.fd].timeout_idx; int64_t d;
		CHECK(idx < 128, "set: a slot of the wheel");
		d = (int64_t)((idx + 128 - IN.base) % 128);
		CHECK((d + 1) * IN.res > due, "set: the slot does not come up before the timeout has passed");
		CHECK(d * IN.res <= due, "set: the slot comes up within two resolutions after the timeout");
		CHECK(MARK(idx, IN.fd) && SUMM(idx, IN.fd / 16), "set: the descriptor is marked in its slot");
	}
	CHECK(SUMM(IN.s, IN.w) == (VEC[IN.s * VS + IN.w] != 0), "set: the summary says exactly which words hold marks");
	if (IN.w == (uint32_t)IN.fd / 16) {
		CHECK(MARK(IN.s, IN.fd) == (IN.secs != 0 && F[IN.fd].timeout_idx == IN.s), "set: the descriptor is marked in its slot and in no other");
		CHECK(((VEC[IN.s * VS + IN.w] ^ w0) & ~BITOF(IN.fd) & 0xffff) == 0, "set: no other descriptor's mark changes");
	} else CHECK(VEC[IN.s * VS + IN.w] == w0, "set: no other descriptor's mark changes");
	if (IN.ofd != IN.fd) CHECK(MARK(IN.s, IN.ofd) == om0, "set: no other descriptor's record changes");
	CHECK(F[IN.fd].loop == &L && F[IN.fd].loop_id == 1, "set: the registration stays");
	REACH("set");
}
#endif

#if defined(H_expire) || defined(H_pass)
#define OTHERSLOT ((BASE + 2) % 128)
#define ID(k) ((void *)(intptr_t)((k) + 1))
static int calls[3]; static bool acted, gone[3];
static void on_fd(fds_t fd, int ev, void *arg);
static void reg(int k, int fd) { F[fd].loop = &L; F[fd].loop_id = 1; F[fd].callback = on_fd; F[fd].cb_arg = ID(k); F[fd].timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED; }
static void mark(int fd, int slot) { F[fd].timeout_idx = slot; VEC[slot * VS + fd / 16] |= BITOF(fd); VVEC[slot * VVS] |= BITOF(fd / 16); }
#endif
#ifdef H_expire
static const uint8_t NUM[3] = { A0, A1, A2 };
static void on_fd(fds_t fd, int ev, void *arg) {
	int k = (int)(intptr_t)arg - 1;
	CHECK(k >= 0 && k < 3 && NUM[k] == fd, "expiry: called with the descriptor and the argument it was registered with");
	CHECK(ev == EVENTS_TIMEOUT, "expiry: reported as a timeout");
	calls[k]++;
	CHECK(!gone[k], "expiry: a descriptor cleared, renewed or removed meanwhile is not notified");
	if (ACT && !acted) {
		acted = true;
		if (ACT == 1) events_set_timeout(NUM[X], 0);
		else if (ACT == 2) events_set_timeout(NUM[X], 11);
		else { events_set_timeout(NUM[X], 0); F[NUM[X]].loop_id = 0; F[NUM[X]].loop = NULL; }
		gone[X] = true;
	}
}
void harness_expire(void) {
	int k; 
	VF_BEGIN();
	wheel();
	L.timeout.resolution = 4; L.timeout.base_time = 1000; L.now = 1004;
	for (k = 0; k < 3; k++) { IN.due[k] = IN.due[k] ? true : false; reg(k, NUM[k]); if (IN.due[k]) mark(NUM[k], BASE); else mark(NUM[k], OTHERSLOT); }
	events_handle_timeout_internal(&L);
	for (k = 0; k < 3; k++) {
		CHECK(calls[k] <= 1, "expiry: notified at most once");
		if (!IN.due[k]) {
			CHECK(calls[k] == 0, "expiry: a descriptor whose timeout has not passed is not notified");
			if (!gone[k]) CHECK(F[NUM[k]].timeout_idx == OTHERSLOT && MARK(OTHERSLOT, NUM[k]), "expiry: a descriptor whose timeout has not passed keeps it");
		} else if (!gone[k]) {
			CHECK(calls[k] == 1, "expiry: a descriptor whose timeout has passed is notified");
			CHECK(F[NUM[k]].timeout_idx == EVENTS_TIMEOUT_IDX_UNUSED, "expiry: a notified descriptor has no timeout any more");
		}
		CHECK(!MARK(BASE, NUM[k]), "expiry: the elapsed slot holds no marks any more");
		if (gone[k]) {
			if (ACT == 2) CHECK(F[NUM[k]].timeout_idx == (BASE + 3) % 128 && MARK((BASE + 3) % 128, NUM[k]) && SUMM((BASE + 3) % 128, NUM[k] / 16), "expiry: a renewed descriptor keeps its new timeout");
			else CHECK(F[NUM[k]].timeout_idx == EVENTS_TIMEOUT_IDX_UNUSED && !MARK(OTHERSLOT, NUM[k]), "expiry: a cleared descriptor has no timeout any more");
		}
	}
	CHECK(SUMM(BASE, 0) == 0 && SUMM(BASE, 1) == 0, "expiry: the summary of the elapsed slot is empty");
	CHECK(L.timeout.base_time == 1004 && L.timeout.base_idx == (BASE + 1) % 128, "expiry: the wheel moves by one slot");
	if (ACT == 0 || acted) REACH("elapsed");
}
#endif
#ifdef H_pass
static void on_fd(fds_t fd, int ev, void *arg) {
	CHECK(fd == A0 && arg == ID(0) && ev == EVENTS_TIMEOUT, "pass: the marked descriptor is notified of its timeout");
	CHECK(L.timeout.base_idx == (BASE + D) % 128, "pass: notified when its slot comes up");
	CHECK(L.timeout.base_time == IN.bt + (int64_t)D * IN.res && L.timeout.base_time + IN.res <= L.now, "pass: a slot comes up when its time has passed, not before");
	calls[0]++;
}
void harness_pass(void) {
	int64_t n;
	VF_BEGIN();
	wheel();
#ifdef RES
	IN.res = RES;
#endif
	RANGE(IN.res, 1, 1 << 20); RANGE(IN.bt, 0, (int64_t)1 << 40); RANGE(IN.now, 0, (int64_t)1 << 41);
	ASSUME(IN.bt <= IN.now && IN.now - IN.bt < (int64_t)IN.res * 7);
	L.timeout.resolution = IN.res; L.timeout.base_time = IN.bt; L.now = IN.now;
	reg(0, A0); mark(A0, (BASE + D) % 128);
	events_handle_timeout_internal(&L);
	n = (int64_t)((L.timeout.base_idx + 128 - BASE) % 128);
	CHECK(n <= 6 && L.timeout.base_time == IN.bt + n * IN.res, "pass: slots and times move together");
	CHECK(L.timeout.base_time <= L.now && L.timeout.base_time + IN.res > L.now, "pass: the wheel is brought up to the clock");
	CHECK(calls[0] == (n > D), "pass: notified exactly once when its slot has come up");
	if (n > D) CHECK(F[A0].timeout_idx == EVENTS_TIMEOUT_IDX_UNUSED && !MARK((BASE + D) % 128, A0) && !SUMM((BASE + D) % 128, A0 / 16), "pass: no timeout is left after the notification");
	else CHECK(F[A0].timeout_idx == (BASE + D) % 128 && MARK((BASE + D) % 128, A0) && SUMM((BASE + D) % 128, A0 / 16), "pass: a timeout that has not come up stays");
	CHECK(L.now == IN.now && L.timeout.resolution == IN.res, "pass: the clock stays");
	if (n > D) REACH("passed");
}
#endif
