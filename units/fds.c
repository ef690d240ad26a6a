/*@vf
[[unit]]
prop = "C15"
entry = "harness_new"
what = "a number handed out was free, is valid once assigned, maps to what it was made for, and every other entry stays as it was; when none is free the request is refused and nothing changes"
functions = ["events_new_fd", "events_valid_fd", "events_get_fd", "events_target"]
plain = true
unwind = 6
stub = ["cerr:vf_cerr"]
kind = "bounded"
bound = "a table of 4 entries, any contents, any request"
trusted = ["locking a descriptor (fcntl) changes nothing but the lock"]

[[unit]]
prop = "C15"
entry = "harness_map"
what = "a number maps to its entry exactly while that is in use, and to itself otherwise; a stand-in is assigned what it is given"
functions = ["events_valid_fd", "events_get_fd", "events_assign_fd"]
plain = true
stub = ["cerr:vf_cerr"]

[[unit]]
prop = "C15"
entry = "harness_free"
what = "a freed number is no longer valid, maps to nothing and can be handed out again; its path is released once; the completion port and kernel descriptors of watches are not closed by it; no other entry changes"
functions = ["events_free_fd", "events_valid_fd", "events_get_fd"]
plain = true
stub = ["events_free:vf_free", "data_delete:vf_delete_array", "cerr:vf_cerr"]

[[unit]]
prop = "C15"
entry = "harness_close"
what = "closing a stand-in closes exactly the descriptor it stands for, once, none for a process or watch, and frees the number; any other number is closed as the descriptor it is"
functions = ["os_close", "events_free_fd", "events_valid_fd", "events_get_fd"]
plain = true
stub = ["events_free:vf_free", "data_delete:vf_delete_array", "cerr:vf_cerr"]

[[unit]]
prop = "C15"
entry = "harness_grow"
what = "growing the table keeps every entry and adds as many free ones"
functions = ["grow_ioTable"]
plain = true
stub = ["events_realloc:vf_realloc", "cerr:vf_cerr"]
kind = "bounded"
bound = "a table of 4 entries"

[[unit]]
prop = "C15"
entry = "harness_read"
what = "reading a stand-in reads what it stands for, into the caller's buffer; any other number is read as the descriptor it is"
functions = ["os_read", "events_valid_fd"]
plain = true
stub = ["cerr:vf_cerr"]
@*/
#include "vf.h"
#include "events.c"
#include "epoll.c"
#include "os_unix.c"
#include "stubs.h"
#include "libc_models.h"
#include "noalloc.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
int vf_cerr(const char *msg, ...) { return 0; }
#define T 4
#define M 3
VF_INPUTS( uint8_t type[T]; int fd[T]; int ev[T]; bool path[T]; bool wd[T]; int p, q, want, sfd, err; uint8_t ty; int handle; bool reg; size_t descs; size_t len; int got; int maxfd; )
static FD_TABLE TAB[2 * T], WAS[T];
static events_fd_t F[M];
static events_t L1;
static char PATHS[T][2];
static int closes, closed_fd[4], frees, arrs; static void *freed;
static int reads, read_fd; static void *read_buf; static size_t read_len;
#undef fcntl
int fcntl(int fd, int cmd, ...) { return 0; }
int close(int fd) { BOUND(closes < 4); closed_fd[closes++] = fd; return IN.err; }
ssize_t read(int fd, void *b, size_t n) { reads++; read_fd = fd; read_buf = b; read_len = n; return IN.got; }
int eventfd(unsigned n, int flags) { return IN.handle; }
void vf_free(void *p) { frees++; freed = p; }
void vf_delete_array(array_t a) { arrs++; CHECK(a == (array_t)PATHS, "free: the entry's own list"); }
void *vf_realloc(void *p, size_t n) { CHECK(p == fdTable && n == 2 * T * sizeof(FD_TABLE), "grow: to twice the size"); return TAB; }
static void world(void) {
	int k;
	ioTableSize = T; fdTable = TAB; hIoCompPort = 50;
	for (k = 0; k < T; k++) {
		RANGE(IN.type[k], 0, FD_WATCH_SYNC);
		TAB[k].type = (fd_types)IN.type[k]; TAB[k].fd = IN.fd[k]; TAB[k].event_fd = IN.ev[k]; TAB[k].path = IN.path[k] ? PATHS[k] : NULL;
		TAB[k].inotify_wd = IN.wd[k] ? (array_t)PATHS : NULL;
		WAS[k] = TAB[k];
	}
}
#define SAMEENTRY(k) (TAB[k].type == WAS[k].type && TAB[k].fd == WAS[k].fd && TAB[k].event_fd == WAS[k].event_fd && TAB[k].path == WAS[k].path && TAB[k].inotify_wd == WAS[k].inotify_wd)
static void frame(int except) { int k; for (k = 0; k < T; k++) if (k != except) CHECK(SAMEENTRY(k), "no other entry changes"); }
#define OK(p) ((p) >= 0 && (p) < T && WAS[p].type != FD_UNUSED && WAS[p].fd != TASK_ERRED)
#ifdef H_new
void harness_new(void) {
	int r, k; bool room = false;
	VF_BEGIN();
	world();
	sys_event.max_fd = M;
	atomic_init((void *_Atomic *)&sys_event.fds, (void *)F);
	RANGE(IN.descs, 0, T - 1); L1.active_descriptors = IN.descs;
	for (k = 0; k < M; k++) F[k].loop = IN.reg ? &L1 : NULL;
	RANGE(IN.ty, 1, FD_WATCH_SYNC);
	for (k = 1; k < T; k++) if (WAS[k].type == FD_UNUSED) room = true;
	errno = 0;
	r = events_new_fd((FILE_TYPE)IN.ty, IN.sfd, IN.want);
	if (r == -1) {
		CHECK(errno == EINVAL, "new: the refusal is reported");
		CHECK(IN.sfd <= 0 || !room, "new: refused only when no number is free or there is nothing to stand for");
		frame(-1);
		if (IN.sfd > 0) REACH("full");
		return;
	}
	CHECK(r >= 0 && r < T && WAS[r].type == FD_UNUSED, "new: the number was free");
	CHECK(TAB[r].type == (fd_types)IN.ty && TAB[r].fd == IN.want && TAB[r].event_fd == IN.sfd, "new: the number maps to what it was made for");
	CHECK(TAB[r].path == NULL && TAB[r].inotify_wd == NULL && TAB[r].buf == NULL && TAB[r].process->fd == r && TAB[r].process->env == NULL && TAB[r].process->detached == false, "new: nothing of an earlier use is left");
	if (IN.want != -1) CHECK(events_valid_fd(r) && events_get_fd(r) == (uint32_t)IN.want, "new: the number is valid");
	if (IN.want >= 0 && IN.want < T && WAS[IN.want].type == FD_UNUSED) CHECK(r == IN.want, "new: the desired number when it is free");
	frame(r);
	REACH("handed out");
}
#endif
#ifdef H_map
void harness_map(void) {
	bool b;
	VF_BEGIN();
	world();
	CHECK(events_valid_fd(IN.p) == OK(IN.p), "map: valid exactly while in use");
	CHECK(events_get_fd(IN.p) == (uint32_t)(OK(IN.p) ? WAS[IN.p].fd : IN.p), "map: to its entry while in use, to itself otherwise");
	frame(-1);
	b = events_assign_fd(IN.sfd, IN.p);
	CHECK(b == (IN.p >= 0 && IN.p < T), "assign: a number outside the table is refused");
	if (b) CHECK(TAB[IN.p].fd == IN.sfd && TAB[IN.p].event_fd == IN.handle && TAB[IN.p].type == WAS[IN.p].type, "assign: the number maps to what it was given");
	frame(b ? IN.p : -1);
	if (b && OK(IN.p)) REACH("mapped");
}
#endif
#ifdef H_free
void harness_free(void) {
	VF_BEGIN();
	world();
	events_free_fd(IN.p);
	CHECK(!events_valid_fd(IN.p) && events_get_fd(IN.p) == (uint32_t)IN.p, "free: the number maps to nothing");
	if (IN.p < 0 || IN.p >= T || WAS[IN.p].type == FD_UNUSED) { frame(-1); CHECK(closes == 0 && frees == 0 && arrs == 0, "free: a number not in use is left alone"); REACH("not in use"); return; }
	CHECK(TAB[IN.p].type == FD_UNUSED, "free: the number can be handed out again");
	CHECK(frees == (WAS[IN.p].path ? 1 : 0) && (!frees || freed == WAS[IN.p].path) && TAB[IN.p].path == NULL, "free: its path is released once");
	CHECK(arrs == (WAS[IN.p].type == FD_MONITOR_ASYNC && WAS[IN.p].inotify_wd ? 1 : 0), "free: its list of watches is released once");
	if (WAS[IN.p].type == FD_PIPE_ASYNC || WAS[IN.p].type == FD_MONITOR_ASYNC || WAS[IN.p].type == FD_MONITOR_SYNC) CHECK(closes == 0, "free: a shared port or a watch number is not closed");
	else CHECK(closes == 1 && closed_fd[0] == WAS[IN.p].event_fd, "free: its own event descriptor is closed, nothing else");
	frame(IN.p);
	REACH("freed");
}
#endif
#ifdef H_close
void harness_close(void) {
	int r; int k, n = 0;
	VF_BEGIN();
	world();
	r = os_close(IN.p);
	if (IN.p == -1) { CHECK(r == 0 && closes == 0, "close: nothing to close"); frame(-1); return; }
	if (!OK(IN.p)) { CHECK(r == IN.err && closes == 1 && closed_fd[0] == IN.p && frees == 0, "close: an ordinary number is closed as such"); frame(-1); REACH("ordinary"); return; }
	CHECK(!events_valid_fd(IN.p) && TAB[IN.p].type == FD_UNUSED, "close: the number is free again");
	frame(IN.p);
	if (WAS[IN.p].type == FD_CHILD || WAS[IN.p].type == FD_MONITOR_SYNC) {
		CHECK(r == 0 && closes == (WAS[IN.p].type == FD_CHILD), "close: a process or watch number is not closed as a descriptor");
		if (closes) CHECK(closed_fd[0] == WAS[IN.p].event_fd, "close: only the process's own event descriptor");
		REACH("process or watch");
		return;
	}
	CHECK(r == IN.err && closes >= 1 && closed_fd[closes - 1] == WAS[IN.p].fd, "close: what it stands for is closed, and the answer reported");
	CHECK(closes == 1 || (closes == 2 && closed_fd[0] == WAS[IN.p].event_fd), "close: nothing else is closed");
	REACH("stand-in");
}
#endif
#ifdef H_grow
void harness_grow(void) {
	int k;
	VF_BEGIN();
	world();
	memset(TAB + T, 0xff, T * sizeof(FD_TABLE));
	grow_ioTable();
	CHECK(ioTableSize == 2 * T && fdTable == TAB, "grow: twice as many");
	frame(-1);
	for (k = T; k < 2 * T; k++) CHECK(TAB[k].type == FD_UNUSED && TAB[k].path == NULL, "grow: the new entries are free");
	REACH("grown");
}
#endif
#ifdef H_read
void harness_read(void) {
	char *b = (char *)PATHS; int r;
	VF_BEGIN();
	world();
	r = os_read(IN.p, b, IN.len);
	CHECK(r == IN.got && reads == 1 && read_buf == b && read_len == IN.len, "read: once, into the caller's buffer, and the answer reported");
	CHECK(read_fd == (OK(IN.p) ? WAS[IN.p].fd : IN.p), "read: what the number stands for, or the descriptor it is");
	frame(-1);
	REACH("read");
}
#endif
