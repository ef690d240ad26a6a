/*@vf
[[unit]]
prop = "C21"
entry = "harness_register"
what = "registering leaves exactly one handler for the signal, the given one with its argument, and every other signal's handler as it was; an earlier one for the same signal is replaced; with no room left, or when the system refuses the signal, nothing changes"
functions = ["events_add_signal"]
stub = ["cerr:vf_cerr"]
plain = true
unwind = 67
trusted = ["sigaction refuses invalid signals and otherwise installs the handler; pthread_sigmask, sigemptyset and sigfillset do as documented"]

[[unit]]
prop = "C21"
entry = "harness_unregister"
what = "removing takes out exactly this signal's handler and restores the default"
functions = ["events_del_signal"]
stub = ["cerr:vf_cerr"]
plain = true
unwind = 67

[[unit]]
prop = "C21"
entry = "harness_deliver"
what = "a delivered signal calls its handler exactly once, with its argument, while signals are blocked, and calls no other; one without a handler is noted as such"
functions = ["events_sig_handler"]
stub = ["cerr:vf_cerr"]
plain = true
fponly = true
unwind = 67
trusted = ["a signal is not delivered while its handler is being run or its registration changed"]

[[unit]]
prop = "C21"
entry = "harness_reenter"
what = "a handler may remove or replace itself, and nothing else changes"
functions = ["events_sig_handler"]
stub = ["cerr:vf_cerr"]
plain = true
fponly = true
unwind = 67
each = "J=0,ACT=1 J=0,ACT=2 J=1,ACT=1 J=64,ACT=1 J=64,ACT=2"
kind = "bounded"
bound = "handlers in the first, second and last slot of the table"

[[unit]]
prop = "C21"
entry = "harness_loop_add"
what = "registering a signal with a loop leaves exactly one handler for it, counted once for that loop only, whether it was registered before or not, and leaves descriptors of the same number as they were; a refusal changes nothing"
functions = ["events_add", "events_add_signal", "events_signals", "events_target"]
plain = true
unwind = 67
stub = ["events_set_timeout:vf_set_timeout", "events_get_fd:vf_get_fd", "cerr:vf_cerr"]
each = "SIG=1 SIG=2"

[[unit]]
prop = "C21"
entry = "harness_loop_del"
what = "a signal removed from its loop has no handler, is counted no more and gets the default action; removing it again is refused"
functions = ["events_del", "events_del_signal", "events_signals", "events_target", "events_loop"]
plain = true
unwind = 67
stub = ["events_set_timeout:vf_set_timeout", "cerr:vf_cerr"]
each = "SIG=1 SIG=2"
@*/
#include "vf.h"
#include "events.c"
#include "epoll.c"
#include "os_unix.c"
#include "stubs.h"
#include "libc_models.h"
#include "noalloc.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
#define S max_event_sig
#ifndef SIG
# define SIG 1
#endif
#define M 3
#define LO -1
VF_INPUTS( int sig[S]; bool has[S]; void *arg[S]; uint8_t own[S]; int s, j; bool there, refuse, running; void *newarg; size_t c1, c2; uint8_t fdown; int maxfd; int got; int q; void *a; )
int vf_cerr(const char *msg, ...) { return 0; }
static sys_signal_t WAS[S];
static events_fd_t F[M], FWAS;
static events_t L1, L2;
static int calls0, calls1, blocked, acts, act_sig; static void (*act_to)(int);
static void cb0(fds_t fd, int ev, void *arg);
static void cb1(fds_t fd, int ev, void *arg);
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
	CHECK(how == SIG_SETMASK, "signals are blocked and unblocked as a whole");
	if (old) { blocked++; } else blocked--;
	CHECK(blocked >= 0 && blocked <= 2, "signals are blocked and unblocked in pairs");
	return 0;
}
int sigfillset(sigset_t *s) { return 0; }
int sigemptyset(sigset_t *s) { return 0; }
int sigaction(int sig, const struct sigaction *sa, struct sigaction *old) {
	CHECK(sig == IN.s, "only the given signal's action changes");
	if (sig < 1 || sig > 64 || IN.refuse) { errno = EINVAL; return -1; }
	acts++; act_sig = sig; act_to = sa->sa_handler;
	return 0;
}
void vf_set_timeout(fds_t fd, int secs) { CHECK(false, "a signal has no timeout"); }
uint32_t vf_get_fd(int fd) { CHECK(false, "a signal is no watch"); return 0; }
/* any table in which the signal under test has at most one handler, at j */
static void table(void) {
	int k;
	RANGE(IN.j, 0, S - 1);
	for (k = 0; k < S; k++) {
		events_sig[k].sig = IN.sig[k]; events_sig[k].proc = IN.has[k] ? cb0 : NULL; events_sig[k].data = IN.arg[k];
		RANGE(IN.own[k], 0, 2);
		events_sig[k].loop = IN.own[k] == 0 ? NULL : IN.own[k] == 1 ? &L1 : &L2;
		if (k == IN.j && IN.there) { events_sig[k].sig = IN.s; events_sig[k].proc = cb0; }
		else if (events_sig[k].proc) ASSUME(events_sig[k].sig != IN.s);
		WAS[k] = events_sig[k];
	}
}
#define SAMESLOT(k) (events_sig[k].sig == WAS[k].sig && events_sig[k].proc == WAS[k].proc && events_sig[k].data == WAS[k].data && events_sig[k].loop == WAS[k].loop)
/* statements about every slot are made about one arbitrary slot, IN.q */
static bool handler_only(int r) { RANGE(IN.q, 0, S - 1); return (events_sig[IN.q].proc && events_sig[IN.q].sig == IN.s) == (IN.q == r); }
static void frame(int except) { RANGE(IN.q, 0, S - 1); if (IN.q != except) CHECK(SAMESLOT(IN.q), "every other signal's handler stays as it was"); }
static bool full(void) { int k; for (k = 0; k < S; k++) if (!WAS[k].proc) return false; return true; }
#ifdef H_register
static void cb0(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
static void cb1(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
void harness_register(void) {
	int r;
	VF_BEGIN();
	table();
	r = events_add_signal(IN.s, cb1, IN.newarg);
	CHECK(blocked == 0, "register: signals are unblocked again");
	if (r < 0) {
		CHECK(r == -1 && (IN.s < 1 || IN.s > 64 || IN.refuse || (!IN.there && full())), "register: refused only for want of room or by the system");
		CHECK(acts == 0, "register: a refusal installs nothing");
		frame(-1);
		if (IN.s > 64) REACH("refused");
		return;
	}
	CHECK(r < S && IN.s >= 1 && IN.s <= 64 && !IN.refuse && (IN.there || !full()), "register: an invalid signal or one too many is refused");
	CHECK(events_sig[r].proc == cb1 && events_sig[r].data == IN.newarg && events_sig[r].sig == IN.s, "register: the given handler with its argument");
	CHECK(handler_only(r), "register: the signal has exactly one handler");
	CHECK(!WAS[r].proc || (IN.there && r == IN.j), "register: no other signal loses its handler");
	CHECK(act_to == events_sig_handler && act_sig == IN.s && acts == 1, "register: the system is told");
	frame(r);
	REACH("registered");
}
#endif
#ifdef H_unregister
static void cb0(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
static void cb1(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
void harness_unregister(void) {
	VF_BEGIN();
	table();
	ASSUME(IN.there && IN.s >= 1 && IN.s <= 64 && !IN.refuse);
	events_del_signal(IN.s, IN.j);
	CHECK(handler_only(-1), "remove: the signal has no handler");
	CHECK(act_to == SIG_DFL && act_sig == IN.s && acts == 1, "remove: the default action is restored");
	frame(IN.j);
	events_sig[IN.j] = WAS[IN.j];
	REACH("removed");
}
#endif
#if defined(H_deliver) || defined(H_reenter)
#ifndef ACT
# define ACT 0
#endif
static void *DATA;
#ifdef J
# define SLOT (&events_sig[J])
#else
# define SLOT (&WAS[0])
#endif
static void cb1(fds_t fd, int ev, void *arg) { CHECK(false, "deliver: a handler that is not registered is not called"); }
static void cb0(fds_t fd, int ev, void *arg) {
	calls0++;
	CHECK(IN.there && fd == IN.s && ev == EVENTS_SIGNAL && arg == DATA, "deliver: the signal's handler with its argument");
	CHECK(blocked == 1, "deliver: signals are blocked while a handler runs");
	CHECK(events_got_signal == IN.got, "deliver: a handled signal is not noted as unhandled");
	/* what removing and registering do to the table, by their own units */
	if (ACT == 1) SLOT->proc = NULL, SLOT->data = NULL, SLOT->sig = -1, SLOT->is_running = false;
	if (ACT == 2) SLOT->proc = cb1, SLOT->data = IN.newarg, SLOT->loop = NULL, SLOT->is_running = false;
}
#ifdef H_deliver
void harness_deliver(void) {
#else
void harness_reenter(void) {
#endif
	VF_BEGIN();
#ifdef J
	IN.j = J; IN.there = true;
#endif
	table();
	RANGE(IN.s, 1, 64); ASSUME(!IN.refuse); RANGE(IN.got, 0, 1000);
	DATA = WAS[IN.j].data;
	events_got_signal = IN.got; signal_running = false;
	events_sig_handler(IN.s);
	CHECK(blocked == 0 && !signal_running, "deliver: signals are delivered again");
	CHECK(calls0 == (IN.there ? 1 : 0), "deliver: exactly once");
	CHECK(events_got_signal == IN.got + (IN.there ? 0 : 1), "deliver: a signal without a handler is noted");
	if (IN.there && ACT == 1) CHECK(handler_only(-1), "deliver: a handler may remove itself");
	if (IN.there && ACT == 2) CHECK(handler_only(IN.j) && events_sig[IN.j].proc == cb1 && events_sig[IN.j].data == IN.newarg, "deliver: a handler may replace itself");
	if (!IN.there || ACT == 0) CHECK(IN.there ? !events_sig[IN.j].is_running && SAMESLOT(IN.j) : true, "deliver: the registration stays");
	frame(IN.there ? IN.j : -1);
#ifdef J
	REACH("changed itself");
#else
	if (!IN.there) REACH("no handler");
	if (IN.there) REACH("handled");
#endif
}
#endif
#if defined(H_loop_add) || defined(H_loop_del)
static void cb0(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
static void cb1(fds_t fd, int ev, void *arg) { CHECK(false, "no callback is called here"); }
static bool fsame(void) { return F[SIG].loop_id == FWAS.loop_id && F[SIG].events == FWAS.events && F[SIG].timeout_idx == FWAS.timeout_idx && F[SIG].callback == FWAS.callback && F[SIG].cb_arg == FWAS.cb_arg; }
/* the record's view of the signal and the table's are in step */
static void world(void) {
	IN.s = SIG;
	table();
	RANGE(IN.c1, 1, 1000); RANGE(IN.c2, 1, 1000); RANGE(IN.fdown, 0, 2);
	L1.loop_id = 1; L2.loop_id = 2; L1.active_signals = IN.c1; L2.active_signals = IN.c2;
	sys_event.max_fd = M; sys_event.num_loops = 1;
	atomic_init((void *_Atomic *)&sys_event.fds, (void *)F);
	if (IN.there) { RANGE(IN.own[IN.j], 1, 2); events_sig[IN.j].loop = WAS[IN.j].loop = IN.own[IN.j] == 1 ? &L1 : &L2; }
	F[SIG].signal_set = IN.there ? true : false; F[SIG].signal_idx = IN.j;
	/* a descriptor of the same number may be registered too */
	F[SIG].loop_id = IN.fdown; F[SIG].timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED; F[SIG].callback = cb0; F[SIG].cb_arg = IN.a;
	F[SIG].loop = IN.fdown == 0 ? (IN.there ? events_sig[IN.j].loop : NULL) : IN.fdown == 1 ? &L1 : &L2;
	FWAS = F[SIG];
}
#endif
#ifdef H_loop_add
void harness_loop_add(void) {
	int r;
	VF_BEGIN();
	world();
	r = events_add(&L1, SIG, EVENTS_SIGNAL, 0, cb1, IN.newarg);
	CHECK(fsame() && (IN.fdown == 0 || F[SIG].loop == FWAS.loop), "loop: a descriptor of the same number is not touched");
	if (r != 0) {
		CHECK(r == -1 && (IN.refuse || (!IN.there && full())), "loop: refused only for want of room or by the system");
		CHECK(L1.active_signals == IN.c1 && L2.active_signals == IN.c2 && F[SIG].signal_set == FWAS.signal_set, "loop: a refusal counts nothing");
		frame(-1);
		REACH("refused");
		return;
	}
	CHECK(handler_only(F[SIG].signal_idx), "loop: exactly one handler");
	CHECK(F[SIG].signal_set && F[SIG].signal_idx >= 0 && F[SIG].signal_idx < S, "loop: the record knows the handler");
	{
		sys_signal_t *s = &events_sig[F[SIG].signal_idx];
		CHECK(s->sig == SIG && s->proc == cb1 && s->data == IN.newarg && s->loop == &L1, "loop: the given handler, its argument and the loop");
	}
	frame(F[SIG].signal_idx);
	CHECK(L1.active_signals == IN.c1 + (IN.there && IN.own[IN.j] == 1 ? 0 : 1), "loop: counted once");
	CHECK(L2.active_signals == IN.c2 - (IN.there && IN.own[IN.j] == 2 ? 1 : 0), "loop: a loop the signal moved away from counts it no more");
	if (IN.there) REACH("again");
	if (!IN.there) REACH("first");
}
#endif
#ifdef H_loop_del
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) { CHECK(false, "a signal is not in the kernel's interest set"); return 0; }
void harness_loop_del(void) {
	int r; size_t d;
	VF_BEGIN();
	world();
	ASSUME(IN.there && !IN.refuse && IN.fdown == 0);
	events_sig[IN.j].is_running = IN.running ? true : false;
	d = L1.active_descriptors = L2.active_descriptors = 3;
	CHECK(events_loop(SIG) == WAS[IN.j].loop, "loop: a signal's loop is the one it was registered with");
	r = events_del(SIG);
	CHECK(r == 0, "loop: a registered signal is removed, its handler running or not");
	CHECK(handler_only(-1) && !F[SIG].signal_set, "loop: no handler is left");
	CHECK(act_to == SIG_DFL && act_sig == SIG && acts == 1, "loop: the default action is restored");
	frame(IN.j);
	CHECK(L1.active_signals == IN.c1 - (IN.own[IN.j] == 1) && L2.active_signals == IN.c2 - (IN.own[IN.j] == 2), "loop: its loop counts it no more");
	CHECK(L1.active_descriptors == d && L2.active_descriptors == d, "loop: descriptors are counted as before");
	r = events_del(SIG);
	CHECK(r == -1 && L1.active_signals + L2.active_signals == IN.c1 + IN.c2 - 1 && L1.active_descriptors == d && L2.active_descriptors == d, "loop: removing it again is refused");
	CHECK(acts == 1, "loop: removing it again changes no action");
	frame(IN.j);
	if (IN.running) REACH("removed while running");
	if (!IN.running) REACH("removed while idle");
}
#endif
