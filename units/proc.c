/*@vf
[[unit]]
prop = "C22"
entry = "harness_addenv"
what = "each name is added with its value in full, after what was there, and the text stays terminated; nothing is read or written outside"
functions = ["exec_addenv"]
plain = true
stub = ["snprintf:vf_snprintf", "events_realloc:vf_realloc"]
each = "E=0,K=1,V=0 E=0,K=1,V=2 E=4,K=2,V=1 E=3,K=1,V=3 E=0,K=3,V=4"
thorough_each = "E=5,K=4,V=6 E=6,K=1,V=1"
unwind = 24
kind = "bounded"
bound = "the listed lengths of the earlier text, the names and the values, two pairs, any characters"
trusted = ["snprintf writes the text it is asked for, cut to the size given", "events_realloc keeps the contents (C18)"]

[[unit]]
prop = "C22"
entry = "harness_env"
what = "the environment of the process is exactly the entries of the text; without any it is the parent's; the given descriptors and no others are redirected"
functions = ["exec_info", "str_split_ex", "str_has"]
plain = true
stub = ["events_new_fd:vf_new_fd", "cerr:vf_cerr", "events_calloc:vf_c", "events_free:fre"]
each = "N=0,FULL=1 N=0 N=1 N=2 N=3 N=4"
thorough_each = "N=5 N=6"
unwind = 10
timeout = 600
kind = "bounded"
bound = "texts of up to 4 characters (6 in the thorough run)"

[[unit]]
prop = "C22"
entry = "harness_exec"
what = "the program is started with its own name and exactly the arguments listed"
functions = ["exec", "str_cat_ex", "str_split_ex", "str_is_empty"]
plain = true
stub = ["os_exec_info:vf_os_exec", "exec_info:vf_exec_info", "cerr:vf_cerr", "events_calloc:vf_c", "events_free:fre"]
each = "K=1,N=0 K=2,N=1 K=1,N=3"
timeout = 600
unwind = 13
kind = "bounded"
bound = "program names of 1 or 2 characters without a comma, argument texts of up to 3 characters"

[[unit]]
prop = "C22"
entry = "harness_start"
what = "the child runs the program with its arguments, environment, directory and redirections, or ends with an error; the parent releases the lists once and records the child, or reports that there is none"
functions = ["os_exec_info", "events_free_fd"]
plain = true
stub = ["vfork:vf_vfork", "_exit:vf__exit", "events_free:vf_free2", "cerr:vf_cerr", "data_delete:vf_data_delete"]
trusted = ["vfork, dup2, execve, chdir and setsid do as documented"]

[[unit]]
prop = "C22"
entry = "harness_wait"
what = "the exit status is reported as the child gave it, or the signal that ended it; a child still running is reported as such, and kept; one that ended is released once"
functions = ["exec_wait"]
plain = true
stub = ["os_close:vf_os_close", "cerr:vf_cerr"]
unwind = 5
kind = "bounded"
bound = "up to 3 interruptions of the wait"
trusted = ["waitid does as documented"]
@*/
#include "vf.h"
#include <stdarg.h>
#include <sys/wait.h>
#ifndef K
# define K 1
#endif
#ifndef V
# define V 1
#endif
#ifndef E
# define E 0
#endif
#ifndef N
# define N 1
#endif
#ifdef H_addenv
# include "async_io.c"
#else
# include "events.c"
# include "epoll.c"
# include "os_unix.c"
#endif
#undef read
#undef write
#undef close
#undef open
#include "arrays.c"
#include "stubs.h"
#define VF_LOOP_MEM
#define VF_CAP 64
#if defined(H_addenv) || defined(H_start) || defined(H_wait)
# undef VF_CAP
#endif
#include "libc_models.h"
#if defined(H_env) || defined(H_exec)
# include "noalloc.h"
#endif
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
int vf_cerr(const char *msg, ...) { return 0; }
VF_INPUTS( char e[E + 1]; char k[2][K + 1]; char v[2][V + 1]; char t[N + 1]; bool nul; bool det, spawn, dir, haveenv, haveargv; int io[3]; int pair[6]; int pid, r[4], err, sipid, code, status, ms, chd, sid, dupfail; bool want; bool full; )
#ifdef H_addenv
static char SK[2][K + 1], SV[2][V + 1], *OLDENV;
static char *NEWEST; static size_t NSIZE;
void *vf_realloc(void *p, size_t n) {
	size_t i, o = p == OLDENV && p != NULL ? E + 1 : p ? NSIZE : 0; char *b;
	BOUND(n < 5000);
	CHECK(p == NULL || p == OLDENV || p == NEWEST, "the text so far is what grows");
	b = malloc(n); ASSUME(b != NULL);
	for (i = 0; i < o && i < n; i++) b[i] = ((char *)p)[i];
	NEWEST = b; NSIZE = n;
	return b;
}
int vf_snprintf(char *d, size_t n, const char *f, ...) {
	va_list ap; size_t o = 0, i; const char *s;
	va_start(ap, f);
	for (; *f; f++) {
		if (*f == '%') { f++; BOUND(*f == 's'); s = va_arg(ap, char *); for (i = 0; s[i]; i++, o++) if (o + 1 < n) d[o] = s[i]; }
		else { if (o + 1 < n) d[o] = *f; o++; }
	}
	va_end(ap);
	if (n) d[o < n ? o : n - 1] = 0;
	return (int)o;
}
void harness_addenv(void) {
	size_t size = E, i, j, p; char *r;
	VF_BEGIN();
	OLDENV = NULL;
	if (E > 0) {
		OLDENV = malloc(E + 1); ASSUME(OLDENV != NULL);
		for (i = 0; i < E; i++) { ASSUME(IN.e[i] != 0); OLDENV[i] = IN.e[i]; }
		OLDENV[E] = 0;
	}
	for (j = 0; j < 2; j++) {
		for (i = 0; i < K; i++) { ASSUME(IN.k[j][i] != 0); SK[j][i] = IN.k[j][i]; }
		for (i = 0; i < V; i++) { ASSUME(IN.v[j][i] != 0); SV[j][i] = IN.v[j][i]; }
	}
	r = exec_addenv(OLDENV, &size, 2, SK[0], SV[0], SK[1], SV[1]);
	CHECK(r != NULL && size == E + 2 * (K + V + 2), "environment: as long as its entries");
	p = 0;
	for (i = 0; i < E; i++) CHECK(r[p + i] == IN.e[i], "environment: what was there stays");
	p += E;
	for (j = 0; j < 2; j++) {
		for (i = 0; i < K; i++) CHECK(r[p + i] == IN.k[j][i], "environment: the name in full");
		CHECK(r[p + K] == '=', "environment: paired with its value");
		for (i = 0; i < V; i++) CHECK(r[p + K + 1 + i] == IN.v[j][i], "environment: the value in full");
		CHECK(r[p + K + V + 1] == ';', "environment: entries are separated");
		p += K + V + 2;
	}
	CHECK(r[p] == 0, "environment: terminated");
	REACH("added");
}
#else
static FD_TABLE TAB[2];
#if defined(H_env) || defined(H_exec)
void *vf_c(size_t c, size_t n) { return vf_alloc(c * n, true); }
static int frees; static void *freed;
void fre(void *p) { frees++; freed = p; }
#endif
#endif
#ifdef H_env
int eventfd(unsigned n, int f) { return 44; }
int close(int fd) { return 0; }
int vf_new_fd(FILE_TYPE type, int fd, int want) {
	CHECK(type == FD_CHILD && fd == 44 && want == -1, "start: a number for a process");
#ifdef FULL
	return -1;
#endif
	TAB[1].process->env = NULL;
	TAB[1].process->write_input[1] = TAB[1].process->read_output[1] = TAB[1].process->error[1] = inherit;
	return 1;
}
void harness_env(void) {
	static char T[N + 1]; execinfo_t *x; size_t i, a; int n; const char **e; bool eq = false;
	VF_BEGIN();
	fdTable = TAB; ioTableSize = 2;
	for (i = 0; i < N; i++) { ASSUME(IN.t[i] != 0); T[i] = IN.t[i]; if (T[i] == '=') eq = true; }
	x = exec_info(IN.nul ? NULL : T, IN.det ? true : false, IN.io[0], IN.io[1], IN.io[2]);
	for (i = 0; i < N; i++) CHECK(T[i] == IN.t[i], "environment: the text is not changed");
#ifdef FULL
	CHECK(x == NULL, "start: refused when no number is free"); REACH("full");
#else
	CHECK(x == TAB[1].process && x->fd == 1 && x->detached == (IN.det ? true : false), "start: the process's own record");
	CHECK(x->write_input[1] == (IN.io[0] ? IN.io[0] : inherit) && x->read_output[1] == (IN.io[1] ? IN.io[1] : inherit) && x->error[1] == (IN.io[2] ? IN.io[2] : inherit), "start: the given redirections");
	if (IN.nul || !eq) { CHECK(x->env == NULL, "environment: none is the parent's"); if (IN.nul) REACH("none"); return; }
	e = x->env;
	CHECK(e != NULL, "environment: its entries");
	/* the entries are the pieces of the text between the separators, without an empty last one */
	a = 0; n = 0;
	for (i = 0; i <= N; i++) {
		if (i < N && T[i] != ';') continue;
		if (i == N && i == a && n > 0) break;
		CHECK(e[n] != NULL, "environment: no entry is missing");
		{ size_t k; for (k = a; k < i; k++) CHECK(e[n][k - a] == T[k], "environment: each entry in full"); CHECK(e[n][i - a] == 0, "environment: each entry and no more"); }
		n++; a = i + 1;
	}
	CHECK(e[n] == NULL, "environment: no entry is added");
#if N >= 1
	REACH("entries");
#endif
#endif
}
#endif
#ifdef H_exec
static int started; static execinfo_t *of, REC; static char **argv; static const char *prog; static int infos;
process_t vf_os_exec(const char *filename, execinfo_t *info) { started++; of = info; argv = info->argv; prog = filename; return 9; }
execinfo_t *vf_exec_info(const char *env, bool det, filefd_t a, filefd_t b, filefd_t c) {
	CHECK(env == NULL && !det && a == inherit && b == inherit && c == inherit, "start: by default nothing is changed");
	infos++;
	return IN.full ? NULL : &REC;
}
void harness_exec(void) {
	static char P[K + 1], T[N + 1]; execinfo_t mine; size_t i, a, k; int n, r;
	VF_BEGIN();
	for (i = 0; i < K; i++) { ASSUME(IN.k[0][i] != 0 && IN.k[0][i] != ','); P[i] = IN.k[0][i]; }
	for (i = 0; i < N; i++) { ASSUME(IN.t[i] != 0); T[i] = IN.t[i]; }
	r = exec(P, IN.nul ? NULL : T, IN.want ? &mine : NULL);
	CHECK(frees == 1, "start: the working text is released");
	if (!IN.want && IN.full) { CHECK(r == -1 && started == 0, "start: refused when no number is free"); return; }
	CHECK(r == 9 && started == 1 && of == (IN.want ? &mine : &REC) && infos == !IN.want, "start: once, with the record given");
	CHECK(prog == P, "start: the program");
	for (i = 0; i < K; i++) CHECK(P[i] == IN.k[0][i] && argv[0][i] == P[i], "arguments: the program's name first");
	CHECK(argv[0][K] == 0, "arguments: the program's name and no more");
	n = 1; a = 0;
	if (!IN.nul && N > 0) for (i = 0; i <= N; i++) {
		if (i < N && T[i] != ',') continue;
		CHECK(argv[n] != NULL, "arguments: none is missing");
		for (k = a; k < i; k++) CHECK(argv[n][k - a] == T[k], "arguments: each in full");
		CHECK(argv[n][i - a] == 0, "arguments: each and no more");
		n++; a = i + 1;
	}
	CHECK(argv[n] == NULL, "arguments: none is added");
	REACH("started");
}
#endif
#ifdef H_start
static int frees, closes, dups[3], dup_of[3], execs, chdirs, sids, exits; static void *freed[2];
static char *AV[2] = {"p", NULL}; static const char *EV[2] = {"a=b", NULL};
static char *PARENT[1];
char **environ = PARENT;
pid_t vf_vfork(void) { return IN.pid; }
void vf_free2(void *p) { BOUND(frees < 2); freed[frees++] = p; }
void vf_data_delete(array_t a) { CHECK(false, "start: no list of watches"); }
int sigaction(int s, const struct sigaction *a, struct sigaction *o) { CHECK(s == SIGPIPE && a->sa_handler == SIG_DFL, "child: the default for broken pipes"); return 0; }
int dup2(int a, int b) { CHECK(b >= 0 && b <= 2 && IN.pid == 0, "child: only the standard descriptors are redirected"); if (IN.dupfail == b) return -1; dups[b]++; dup_of[b] = a; return b; }
int close(int fd) { closes++; return 0; }
void perror(const char *s) { }
int fcntl(int fd, int cmd, ...) { return 0; }
int chdir(const char *d) { chdirs++; CHECK(IN.pid == 0 && d == (char *)TAB, "child: the directory asked for"); return IN.chd ? -1 : 0; }
pid_t setsid(void) { sids++; CHECK(IN.pid == 0 && IN.det, "child: detached only when asked for"); return IN.sid ? -1 : 1; }
static execinfo_t *X;
static bool redirected(int b, int from) { return from == -1 ? dups[b] == 0 : dups[b] == 1 && dup_of[b] == from; }
int execve(const char *p, char *const a[], char *const e[]) {
	CHECK(IN.pid == 0 && p == (char *)PARENT, "child: the program asked for");
	CHECK(a == (char *const *)AV && e == (IN.haveenv ? (char *const *)EV : (char *const *)environ), "child: its arguments and environment");
	CHECK(redirected(0, X->write_input[IN.spawn ? 0 : 1]) && redirected(1, X->read_output[1]) && redirected(2, X->error[1]), "child: its redirections");
	CHECK(sids == (IN.det ? 1 : 0) && chdirs == (IN.dir ? 1 : 0), "child: its session and directory");
	execs++;
	return -1;
}
void vf__exit(int s) {
	CHECK(IN.pid == 0 && s == 255, "child: an error ends it as such");
	CHECK(execs == 1 || (IN.det && IN.sid) || (IN.dir && IN.chd) || (IN.dupfail >= 0 && IN.dupfail <= 2), "child: only an error keeps it from running the program");
	REACH("child");
	VF_STOP();
}
void harness_start(void) {
	int r;
	VF_BEGIN();
	fdTable = TAB; ioTableSize = 2; X = TAB[1].process;
	TAB[1].type = FD_CHILD; TAB[1].event_fd = 44; TAB[1].fd = -1; X->fd = 1;
	X->argv = AV; X->env = IN.haveenv ? EV : NULL; X->detached = IN.det ? true : false; X->is_spawn = IN.spawn ? true : false; X->workdir = IN.dir ? (char *)TAB : NULL;
	X->write_input[0] = IN.pair[0]; X->write_input[1] = IN.pair[1]; X->read_output[0] = IN.pair[2]; X->read_output[1] = IN.pair[3]; X->error[0] = IN.pair[4]; X->error[1] = IN.pair[5];
	RANGE(IN.pid, -1, 1 << 22);
	r = os_exec_info((char *)PARENT, X);
	CHECK(IN.pid != 0, "child: never returns");
	CHECK(frees == 1 + (IN.haveenv ? 1 : 0) && freed[0] == (void *)AV && (!IN.haveenv || freed[1] == (void *)EV) && X->argv == NULL && X->env == NULL, "parent: the lists are released once");
	if (IN.pid < 0) { CHECK(r == -1 && TAB[1].type == FD_UNUSED, "parent: a failed start is reported"); REACH("failed"); return; }
	CHECK(r == 1 && TAB[1].fd == IN.pid && X->ps == IN.pid && TAB[1].type == FD_CHILD, "parent: the number stands for the child");
	CHECK(execs == 0 && closes == 0, "parent: nothing is run or closed here");
	REACH("parent");
}
#endif
#ifdef H_wait
static int waits, closes_; static int closed;
int vf_os_close(int fd) { closes_++; closed = fd; return 0; }
int waitid(idtype_t t, id_t id, siginfo_t *s, int f) {
	int r;
	CHECK(t == P_PID && id == (id_t)IN.pid, "wait: for exactly this child");
	CHECK(f == (WEXITED | (IN.ms == 0 ? WNOHANG : 0)), "wait: without blocking only when asked");
	if (waits < 3 && IN.r[waits]) { waits++; errno = EINTR; return -1; }
	waits++;
	if (IN.err) { errno = IN.err; return -1; }
	if (IN.ms == 0 && IN.sipid == 0) { return 0; } /* none has ended: the answer is left as it was */
	s->si_pid = IN.pid; s->si_code = IN.code; s->si_status = IN.status;
	return 0;
}
void harness_wait(void) {
	int r, x = 12345;
	VF_BEGIN();
	fdTable = TAB; ioTableSize = 2;
	TAB[1].process->ps = IN.pid; TAB[1].process->detached = IN.det ? true : false;
	RANGE(IN.pid, 1, 1 << 22); RANGE(IN.status, 0, 255); ASSUME(IN.err != EINTR); ASSUME(IN.code == CLD_EXITED || IN.code == CLD_KILLED || IN.code == CLD_DUMPED); RANGE(IN.ms, 0, 1000);
	r = exec_wait(1, IN.ms, IN.want ? &x : NULL);
	if (IN.det) { CHECK(r == 0 && waits == 0 && closes_ == 0 && x == 12345, "wait: a detached child is not waited for"); return; }
	if (IN.err) { CHECK(r == -1 && errno == IN.err && closes_ == 0 && x == 12345, "wait: an error is reported"); return; }
	if (IN.ms == 0 && IN.sipid == 0) { CHECK(r == -1 && errno == ETIMEDOUT && closes_ == 0 && x == 12345, "wait: a running child is reported and kept"); REACH("running"); return; }
	CHECK(r == 0 && closes_ == 1 && closed == 1, "wait: a child that ended is released once");
	CHECK(x == (!IN.want ? 12345 : IN.code == CLD_EXITED ? IN.status : -IN.status), "wait: its status, or the signal that ended it");
	REACH("ended");
}
#endif
