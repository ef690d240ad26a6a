/*@vf
[[unit]]
prop = "C04"
entry = "harness_add"
what = "a descriptor is registered with its events, callback and argument, counted once and watched by the kernel for just these events; an earlier registration is replaced; what cannot be registered is refused and left unregistered"
functions = ["events_add", "events_update_internal", "events_target"]
plain = true
stub = ["events_set_timeout:vf_set_timeout", "events_add_signal:vf_add_signal", "events_signals:vf_signals", "events_get_fd:vf_get_fd"]
trusted = ["epoll_ctl adds, modifies and removes as documented; setting the timeout is C03", "a descriptor number is not at the same time a signal number in use"]

[[unit]]
prop = "C04"
entry = "harness_del"
what = "a removed descriptor is no longer registered, counted or timed; removing one that is not registered is refused and changes nothing"
functions = ["events_del", "events_update_internal", "events_target"]
plain = true
stub = ["events_set_timeout:vf_set_timeout", "events_del_signal:vf_del_signal", "events_signals:vf_signals"]

[[unit]]
prop = "C04"
entry = "harness_change"
what = "changing the events of a descriptor changes what the kernel watches for to just these; a refusal is reported and changes nothing"
functions = ["events_set_event", "events_get_event", "events_update_internal", "events_loop", "events_target"]
plain = true
stub = ["events_signals:vf_signals"]

[[unit]]
prop = "C04"
entry = "harness_poll"
what = "each report of the kernel calls exactly the callback registered for the descriptor, with its argument and the reported readiness it asked for; one that is not registered is not called and is taken out of the kernel's set, also when a callback of the same pass removed it"
functions = ["events_poll_once_internal", "events_target"]
plain = true
fponly = true
unwind = 5
each = "N=0 N=1 N=2 N=3"
kind = "bounded"
bound = "up to 3 reports in one pass over a table of 3 descriptors, any records, any reports, any change by each callback"

[[unit]]
prop = "C04"
entry = "harness_asked"
what = "the callback, its argument and the registration are reported and changed for exactly the given descriptor"
functions = ["events_get_callback", "events_set_callback", "events_is_registered", "events_target"]
plain = true

[[unit]]
prop = "C04"
entry = "harness_once"
what = "a turn of the loop takes the time, polls once, expires timeouts and reports what is still active; a failed poll is reported"
functions = ["events_once", "events_is_running"]
plain = true
stub = ["events_execute:vf_execute", "events_handle_timeout_internal:vf_expire", "tasks_schedulering:vf_sched", "__thrd:vf_thrd"]
@*/
#include "vf.h"
#include "events.c"
#include "epoll.c"
#include "stubs.h"
#include "libc_models.h"
#include "noalloc.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
#define M 3
#ifndef N
# define N 0
#endif
VF_INPUTS( int fd; int ev; int secs; int j; int maxfd; uint8_t own[3]; char evs[3]; uint8_t tidx[3]; void *arg[3]; void *newarg; size_t count, ocount; bool kin, kbusy; uint32_t kmask; bool refuse; int err;
	int n; uint32_t rep[3]; int rfd[3]; uint8_t act[3]; int afd[3]; char aev[3]; int wait; bool setarg; int64_t t[2]; int res; int r; int tasks; size_t io, timers, sigs; bool flag[4]; )
static events_fd_t F[M], WAS[M];
static events_epoll L, O;
static void cb0(fds_t fd, int ev, void *arg);
static void cb1(fds_t fd, int ev, void *arg);
/* the kernel's interest set for the descriptor under test */
static bool K_in; static uint32_t K_mask; static int K_fd, K_data, ctls, dels[M];
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
	ctls++;
	CHECK(ep == L.epfd, "kernel: the loop's own interest set");
#ifdef H_poll
	CHECK(op == EPOLL_CTL_DEL && fd >= 0 && fd < M, "kernel: polling only takes out descriptors");
	dels[fd]++;
	return 0;
#endif
	CHECK(fd == K_fd, "kernel: only the given descriptor is touched");
	if (op == EPOLL_CTL_DEL) { if (!K_in) { errno = ENOENT; return -1; } K_in = false; return 0; }
	CHECK(e->data.fd == fd, "kernel: reports name the descriptor");
	if (op == EPOLL_CTL_MOD) { if (!K_in) { errno = IN.refuse ? IN.err : ENOENT; return -1; } K_mask = e->events; return 0; }
	CHECK(op == EPOLL_CTL_ADD, "kernel: a known request");
	if (K_in) { errno = EEXIST; return -1; }
	if (IN.refuse) { errno = IN.err; return -1; }
	K_in = true; K_mask = e->events;
	return 0;
}
#define RW(e) ((e) & (EVENTS_READ | EVENTS_WRITE))
#define WANT(e) ((((e) & EVENTS_READ) ? EPOLLIN : 0u) | (((e) & EVENTS_WRITE) ? EPOLLOUT : 0u))
static int touts, cleared_while_registered; static int tout_fd, tout_secs, tout_owner;
void vf_set_timeout(fds_t fd, int secs) {
	if (secs == 0 && F[fd].loop_id != 0) F[fd].timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
	CHECK(fd == K_fd, "timeout: only of the given descriptor");
	touts++; tout_fd = fd; tout_secs = secs; tout_owner = F[fd].loop_id;
	if (secs) F[fd].timeout_idx = 7;
	if (secs == 0 && F[fd].loop_id == IN.own[fd] && F[fd].loop_id != 0) cleared_while_registered++;
}
int vf_add_signal(int sig, sig_cb proc, void *data) { CHECK(false, "add: a descriptor is not taken for a signal"); return -1; }
static sys_signal_t SIGS[1];
sys_signal_t *vf_signals(void) { return SIGS; }
void vf_del_signal(int sig, int i) { CHECK(false, "remove: a descriptor is not taken for a signal"); }
uint32_t vf_get_fd(int fd) { CHECK(false, "add: a descriptor is not taken for a watch"); return 0; }
static void world(void) {
	int k;
	RANGE(IN.maxfd, 1, M);
	sys_event.max_fd = IN.maxfd;
	atomic_init((void *_Atomic *)&sys_event.fds, (void *)F);
	L.loop.loop_id = 1; O.loop.loop_id = 2; L.epfd = 70; O.epfd = 71;
	ASSUME(IN.count < 0xffffffff && IN.ocount < 0xffffffff && IN.count >= M && IN.ocount >= M);
	L.loop.active_descriptors = IN.count; O.loop.active_descriptors = IN.ocount;
	for (k = 0; k < M; k++) {
		RANGE(IN.own[k], 0, 2); RANGE(IN.evs[k], 0, 7);
		/* a record is registered with a loop or with none */
		F[k].loop_id = IN.own[k]; F[k].loop = IN.own[k] == 0 ? NULL : IN.own[k] == 1 ? &L.loop : &O.loop;
		F[k].events = IN.evs[k]; F[k].timeout_idx = IN.own[k] ? IN.tidx[k] : EVENTS_TIMEOUT_IDX_UNUSED; F[k].callback = cb0; F[k].cb_arg = IN.arg[k];
		WAS[k] = F[k];
	}
}
static bool same(int k) {
	return F[k].loop_id == WAS[k].loop_id && F[k].loop == WAS[k].loop && F[k].events == WAS[k].events && F[k].timeout_idx == WAS[k].timeout_idx && F[k].callback == WAS[k].callback && F[k].cb_arg == WAS[k].cb_arg;
}
static void others_same(void) {
	int k;
	for (k = 0; k < M; k++) if (k != IN.fd) CHECK(same(k), "no other descriptor's record changes");
}
static void kernel(void) {
	/* what was registered before is watched for its events, and nothing else is watched that is registered */
	K_fd = IN.fd; K_in = IN.kin ? true : false; K_mask = IN.kmask;
	if (F[IN.fd].loop_id == 1 && RW(F[IN.fd].events)) { K_in = true; K_mask = WANT(F[IN.fd].events); }
	else if (F[IN.fd].loop_id == 1) K_in = false;
}
/* record and kernel in step */
#define IN_STEP(f) (F[f].loop_id != 1 || (RW(F[f].events) ? K_in && K_mask == WANT(F[f].events) : true))
#ifdef H_add
void harness_add(void) {
	int r; size_t was_mine;
	VF_BEGIN();
	world();
	RANGE(IN.ev, 0, 7);
	if (IN.fd < 0 || IN.fd >= IN.maxfd) {
		r = events_add(&L.loop, IN.fd, IN.ev, IN.secs, cb1, IN.newarg);
		CHECK(r == -1 && ctls == 0 && touts == 0 && L.loop.active_descriptors == IN.count, "add: a number outside the table is refused");
		IN.fd = -1; others_same();
		REACH("refused number");
		return;
	}
	RANGE(IN.fd, 0, M - 1);
	kernel();
	was_mine = F[IN.fd].loop_id == 1;
	r = events_add(&L.loop, IN.fd, IN.ev, IN.secs, cb1, IN.newarg);
	others_same();
	CHECK(O.loop.active_descriptors == IN.ocount - (IN.own[IN.fd] == 2), "add: the count of the loop it was taken from");
	if (IN.own[IN.fd] && IN.tidx[IN.fd] != EVENTS_TIMEOUT_IDX_UNUSED) CHECK(cleared_while_registered >= 1, "add: the timeout of an earlier registration is cancelled");
	if (r == 0) {
		CHECK(F[IN.fd].loop == &L.loop && F[IN.fd].loop_id == 1, "add: registered with the loop");
		CHECK(F[IN.fd].callback == cb1 && F[IN.fd].cb_arg == IN.newarg, "add: the given callback and argument");
		CHECK(RW(F[IN.fd].events) == RW(IN.ev), "add: the given events");
		CHECK(!F[IN.fd].is_pathwatcher && !F[IN.fd].is_iodispatch, "add: a plain descriptor");
		CHECK(L.loop.active_descriptors == IN.count + 1 - was_mine, "add: every registered descriptor is counted once");
		CHECK(tout_fd == IN.fd && tout_secs == IN.secs && tout_owner == 1, "add: the given timeout");
		CHECK(IN_STEP(IN.fd), "add: the kernel watches for exactly the given events");
		if (was_mine) REACH("registered again"); else REACH("registered");
	} else {
		CHECK(r == -1 && IN.refuse, "add: refused only when the kernel refuses");
		CHECK(F[IN.fd].loop_id == 0 && F[IN.fd].loop == NULL, "add: a refused descriptor is not registered");
		CHECK(L.loop.active_descriptors == IN.count - was_mine, "add: a refused descriptor is not counted");
		REACH("refused");
	}
}
#endif
#ifdef H_del
void harness_del(void) {
	int r;
	VF_BEGIN();
	world();
	RANGE(IN.fd, 0, IN.maxfd - 1);
	kernel();
	ASSUME(IN.own[IN.fd] != 2);
	r = events_del(IN.fd);
	others_same();
	if (IN.own[IN.fd] == 1) {
		CHECK(r == 0, "remove: done");
		CHECK(F[IN.fd].loop_id == 0 && F[IN.fd].loop == NULL, "remove: no longer registered");
		CHECK(L.loop.active_descriptors == IN.count - 1, "remove: no longer counted");
		CHECK(F[IN.fd].timeout_idx == EVENTS_TIMEOUT_IDX_UNUSED && cleared_while_registered == 1, "remove: its timeout is cancelled");
		REACH("removed");
	} else {
		CHECK(r == -1, "remove: refused when not registered");
		CHECK(L.loop.active_descriptors == IN.count && ctls == 0 && touts == 0, "remove: a refusal changes nothing");
		CHECK(same(IN.fd), "remove: a refusal changes nothing");
		REACH("not registered");
	}
}
#endif
#ifdef H_change
void harness_change(void) {
	int r;
	VF_BEGIN();
	world();
	RANGE(IN.fd, 0, IN.maxfd - 1); RANGE(IN.ev, 0, 7);
	ASSUME(IN.own[IN.fd] == 1);
	kernel();
	CHECK(events_get_event(&L.loop, IN.fd) == RW(IN.evs[IN.fd]), "change: the current events are reported");
	r = events_set_event(IN.fd, IN.ev);
	others_same();
	CHECK(L.loop.active_descriptors == IN.count && F[IN.fd].loop == &L.loop && F[IN.fd].loop_id == 1 && F[IN.fd].callback == cb0 && F[IN.fd].cb_arg == IN.arg[IN.fd] && F[IN.fd].timeout_idx == WAS[IN.fd].timeout_idx, "change: the registration stays");
	if (r == 0) {
		CHECK(RW(F[IN.fd].events) == RW(IN.ev), "change: the given events");
		CHECK(RW(IN.ev) ? K_in && K_mask == WANT(IN.ev) : !K_in, "change: the kernel watches for exactly the given events");
		CHECK(events_get_event(&L.loop, IN.fd) == RW(IN.ev), "change: the new events are reported");
		REACH("changed");
	} else {
		CHECK(r == -1 && IN.refuse && RW(IN.ev), "change: refused only when the kernel refuses");
		CHECK(same(IN.fd), "change: a refusal changes nothing");
		REACH("refused");
	}
}
#endif
#ifdef H_poll
static int expect_i, ncalls, expected;
/* what each report must lead to, judged when it is its turn */
int epoll_wait(int ep, struct epoll_event *e, int max, int ms) {
	int k;
	CHECK(ep == L.epfd && e == L.events && max >= 1 && max <= (int)(sizeof(L.events) / sizeof(L.events[0])), "poll: the loop's own set and buffer");
	CHECK(ms == IN.wait * 1000, "poll: waits no longer than asked");
	if (IN.n < 0) { errno = IN.err; return -1; }
	BOUND(max >= N);
	for (k = 0; k < N; k++) { e[k].events = IN.rep[k]; e[k].data.fd = IN.rfd[k]; }
	return N;
}
static int revents(int k) {
	int f = IN.rfd[k];
	return (((IN.rep[k] & EPOLLIN) ? EVENTS_READ : 0) | ((IN.rep[k] & EPOLLOUT) ? EVENTS_WRITE : 0));
}
static bool calls_for(int k) {
	int f = IN.rfd[k];
	if (!(F[f].loop_id == 1 && RW(F[f].events))) return false;
	return (revents(k) & F[f].events) || (IN.rep[k] & EPOLLHUP);
}
static void called(fds_t fd, int ev, void *arg, int which) {
	int want;
	/* reports that lead to no call come first */
	while (expect_i < N && !calls_for(expect_i)) expect_i++;
	CHECK(expect_i < N && fd == IN.rfd[expect_i], "poll: a callback is called only for a report of its own, registered descriptor, in order");
	want = (revents(expect_i) & F[fd].events) | ((IN.rep[expect_i] & EPOLLHUP) ? EVENTS_CLOSED : 0);
	CHECK(ev == want, "poll: called with exactly the reported readiness it asked for");
	CHECK(arg == F[fd].cb_arg && F[fd].callback == (which ? cb1 : cb0), "poll: the registered callback with its argument");
	{ int i = expect_i, a = IN.afd[i];
	  expect_i++;
	  ncalls++;
	  if (IN.act[i] == 1) { F[a].loop_id = 0; F[a].loop = NULL; F[a].events = 0; }
	  else if (IN.act[i] == 2) F[a].events = IN.aev[i];
	  else if (IN.act[i] == 3) { F[a].callback = cb1; F[a].cb_arg = IN.newarg; } }
}
static void cb0(fds_t fd, int ev, void *arg) { called(fd, ev, arg, 0); }
static void cb1(fds_t fd, int ev, void *arg) { called(fd, ev, arg, 1); }
void harness_poll(void) {
	int k, r;
	VF_BEGIN();
	IN.maxfd = M;
	world();
	RANGE(IN.wait, 0, 2000000); RANGE(IN.n, -1, 0);
	for (k = 0; k < N; k++) { RANGE(IN.rfd[k], 0, M - 1); RANGE(IN.afd[k], 0, M - 1); RANGE(IN.act[k], 0, 3); RANGE(IN.aev[k], 0, 7); }
	r = events_poll_once_internal(&L.loop, IN.wait);
	if (IN.n < 0) { CHECK(r == -1 && ncalls == 0 && ctls == 0, "poll: a failed wait is reported and calls nobody"); REACH("failed"); return; }
	while (expect_i < N && !calls_for(expect_i)) expect_i++;
	CHECK(r == 0 && expect_i == N, "poll: every report of a registered descriptor calls its callback");
	CHECK(L.loop.active_descriptors == IN.count, "poll: the count stays");
	for (k = 0; k < M; k++) if (F[k].loop_id == 1 && WAS[k].loop_id == 1 && RW(F[k].events) && RW(WAS[k].events)) {
		int i; bool changed = false;
		for (i = 0; i < N; i++) if (IN.act[i] == 2) changed = true;
		if (!changed) CHECK(dels[k] == 0, "poll: a registered descriptor stays in the kernel's set");
	}
	for (k = 0; k < N; k++) if (WAS[IN.rfd[k]].loop_id != 1) CHECK(dels[IN.rfd[k]] >= 1, "poll: one that is not registered is taken out of the kernel's set");
	if (N == 0 || ncalls) REACH("polled");
}
#else
static void cb0(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
static void cb1(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
#endif
#ifdef H_asked
void harness_asked(void) {
	void *a = NULL, *na;
	VF_BEGIN();
	world();
	RANGE(IN.fd, 0, IN.maxfd - 1);
	CHECK(events_is_registered(NULL, IN.fd) == (IN.own[IN.fd] != 0) && events_is_registered(&L.loop, IN.fd) == (IN.own[IN.fd] == 1), "asked: the registration is reported");
	CHECK(events_get_callback(&L.loop, IN.fd, IN.setarg ? &a : NULL) == cb0, "asked: the callback is reported");
	if (IN.setarg) CHECK(a == IN.arg[IN.fd], "asked: the argument is reported");
	na = IN.newarg;
	events_set_callback(&L.loop, IN.fd, cb1, IN.setarg ? &na : NULL);
	CHECK(F[IN.fd].callback == cb1 && F[IN.fd].cb_arg == (IN.setarg ? IN.newarg : IN.arg[IN.fd]), "asked: the callback is changed, the argument if given");
	F[IN.fd].callback = cb0; F[IN.fd].cb_arg = IN.arg[IN.fd];
	CHECK(same(IN.fd), "asked: nothing else changes");
	others_same();
	REACH("asked");
}
#endif
static events_thread_t THRD;
events_thread_t *vf_thrd(void) { return &THRD; }
static int execs, expires, scheds; static int64_t expired_at;
int vf_execute(events_t *l, int w) {
	CHECK(l == &L.loop && w <= IN.wait && w <= IN.res, "turn: waits no longer than asked or than the timeouts allow");
	CHECK(l->now == IN.t[0], "turn: the time is taken before polling");
	execs++; return IN.r;
}
void vf_expire(events_t *l) { CHECK(l == &L.loop && execs == 1, "turn: timeouts expire after polling"); expires++; expired_at = l->now; }
int vf_sched(bool b) { scheds++; return 0; }
#ifdef H_once
static int times;
time_t time(time_t *p) { BOUND(times < 2); return IN.t[times++]; }
void harness_once(void) {
	int r;
	VF_BEGIN();
	world();
	RANGE(IN.wait, 0, 1 << 20); RANGE(IN.res, 1, 1 << 20); RANGE(IN.tasks, 0, 100); RANGE(IN.r, -1, 0);
	RANGE(IN.io, 0, 1000); RANGE(IN.timers, 0, 1000); RANGE(IN.sigs, 0, 100); RANGE(IN.count, M, 100000);
	L.loop.active_descriptors = IN.count; L.loop.active_io = IN.io; L.loop.active_timers = IN.timers; L.loop.active_signals = IN.sigs;
	L.loop.timeout.resolution = IN.res; THRD.task_count = IN.tasks; THRD.in_callback = IN.flag[0] ? true : false; THRD.loop = IN.flag[1] ? &L.loop : NULL;
	r = events_once(&L.loop, IN.wait);
	if (IN.r != 0) { CHECK(r == -1 && expires == 0 && scheds == 0, "turn: a failed poll is reported"); REACH("failed"); return; }
	CHECK(execs == 1 && expires == 1, "turn: polls and expires once");
	CHECK(scheds == (IN.tasks && !THRD.in_callback), "turn: ready tasks run once, outside callbacks");
	CHECK(L.loop.now == (IN.wait != 0 ? IN.t[1] : IN.t[0]) && expired_at == L.loop.now, "turn: timeouts expire against the time after the wait");
	CHECK(r == (int)(IN.count + IN.io + IN.timers), "turn: reports what is still active");
	events_shutdown_set = false; events_got_signal = false;
	L.loop.active_descriptors = IN.flag[2] ? IN.count : 0;
	r = events_is_running(&L.loop);
	CHECK(r == (THRD.loop != NULL && (L.loop.active_descriptors + IN.io + IN.timers + IN.sigs + IN.tasks > 0)), "running: exactly while something is active and the loop is not stopped");
	REACH("turn");
}
#endif
