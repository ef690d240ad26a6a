/*@vf
[[unit]]
prop = "C14"
entry = "harness_copyfile"
what = "copying transfers every byte once and in order, up to the end of the source, or reports the failure the system gave; both files are closed (every size)"
functions = ["copyfile"]
loops = [ { fn = "copyfile", id = 0, of = 1, assigns = "copied, result, OFF, ENDED, FAILED, ERRNO, WHY, CALLS", inv = "0 <= OFF && OFF <= SIZE && copied == OFF && (result == 0 || result == -1) && FAILED == (result == -1) && (!ENDED || copied >= file_stat.st_size || result == -1) && (!FAILED || ERRNO == WHY)" } ]
fallback = { defs = ["FB"], unwind = 8 }
timeout = 200
stub = ["open:vf_open", "creat:vf_creat", "close:vf_close", "fstat:vf_fstat", "sendfile:vf_sendfile"]
trusted = ["sendfile transfers up to the bytes asked for from the offset given and moves the offset, or none and an error"]

[[unit]]
prop = "C14"
entry = "harness_os_copyfile"
what = "copying writes every chunk read in full, in order and once, retries what was interrupted, or reports the failure the system gave; both files are closed"
functions = ["os_copyfile"]
plain = true
defs = ["FB"]
unwind = 8
kind = "bounded"
bound = "up to 6 calls of the kernel, of any size and answer"
timeout = 200
stub = ["open:vf_open", "close:vf_close", "read:vf_read", "write:vf_write"]
trusted = ["open, read, write and close do as documented"]

[[unit]]
prop = "C14"
entry = "harness_os_read"
what = "a read reports exactly what the kernel gave, from the descriptor the number stands for, into the buffer given"
functions = ["os_read", "events_valid_fd"]
plain = true
stub = ["read:vf_sysread"]
@*/
#include "vf.h"
#include <stdarg.h>
#include <sys/stat.h>
#include <fcntl.h>
#if defined(VF_NATIVE) || defined(H_os_read)
# include "events.c"
# include "epoll.c"
#else
# include "events_internal.h"
sys_events_t sys_event;
#endif
#include "os_unix.c"
#undef read
#undef write
#undef close
#undef open
#include "stubs.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
static int ERRNO;
int *__errno_location(void) { return &ERRNO; }
#else
# define ERRNO errno
#endif
#define TRIES 6
VF_INPUTS( int src, dst, cin, cout, st; long size; long r[TRIES]; int e[TRIES]; long w[TRIES]; int fd, type, real; int n; )
static long SIZE, OFF, CHUNK, POS;
static int WHY, CALLS, closed_in, closed_out;
static bool FAILED, ENDED;
static const char *P;
static const char *FROM = "from", *TO = "to";
#if defined(VF_NATIVE) || defined(FB)
static long next_r(void) { ASSUME(CALLS < TRIES); return IN.r[CALLS]; }
static int next_e(void) { return IN.e[CALLS]; }
static void count(void) { CALLS++; }
#else
static long next_r(void) { long x; return x; }
static int next_e(void) { int x; return x; }
static void count(void) { CALLS = 1; }
#endif
static void fail(int e) { ASSUME(e > 0); ERRNO = e; FAILED = true; WHY = e; }
#if defined(H_copyfile) || defined(H_os_copyfile)
static int opened;
int vf_open(const char *p, int f, ...) {
	if (p == FROM) { CHECK((f & O_ACCMODE) == O_RDONLY, "copy: the source is only read"); if (IN.src < 0) { fail(IN.e[0]); return -1; } opened |= 1; return IN.src; }
	CHECK(p == TO && (f & O_CREAT) && (f & O_EXCL), "copy: a new destination");
	if (IN.dst < 0) { fail(IN.e[0]); return -1; }
	opened |= 2;
	return IN.dst;
}
int vf_creat(const char *p, mode_t m) { CHECK(p == TO, "copy: the destination"); if (IN.dst < 0) { fail(IN.e[0]); return -1; } opened |= 2; return IN.dst; }
int vf_close(int fd) {
	CHECK((fd == IN.src && (opened & 1)) || (fd == IN.dst && (opened & 2)), "copy: closes its own files");
	if (fd == IN.src) { CHECK(!closed_in, "copy: closes once"); closed_in++; if (IN.cin) { ERRNO = IN.cin; return -1; } return 0; }
	CHECK(!closed_out, "copy: closes once");
	closed_out++;
	if (IN.cout) { if (!FAILED) { fail(IN.cout); } else ERRNO = IN.cout; return -1; }
	return 0;
}
static void begin(void) {
	RANGE(IN.src, -1, 1 << 20); RANGE(IN.dst, -1, 1 << 20); ASSUME(IN.src != IN.dst || IN.src < 0);
	/* closing a file that was only read does not fail */
	IN.cin = 0; ASSUME(IN.cout >= 0);
#ifdef FB
	RANGE(IN.size, 0, (long)1 << 40);
#else
	RANGE(IN.size, 0, (long)1 << 62);
#endif
	SIZE = IN.size; OFF = CHUNK = POS = 0; CALLS = closed_in = closed_out = opened = 0; FAILED = ENDED = false; P = NULL;
}
static void ended(int r) {
	CHECK(closed_in == !!(opened & 1) && closed_out == !!(opened & 2), "copy: both files are closed");
	CHECK(r == (FAILED ? -1 : 0), "copy: a failure is reported, and only a failure");
	if (FAILED) { CHECK(ERRNO == WHY, "copy: the failure the system gave"); REACH("failed"); return; }
}
#endif
#ifdef H_copyfile
int vf_fstat(int fd, struct stat *s) { CHECK(fd == IN.src, "copy: the size of the source"); if (IN.st) { fail(IN.e[0]); return -1; } s->st_size = SIZE; return 0; }
ssize_t vf_sendfile(int o, int i, off_t *off, size_t n) {
	long m = next_r(); int e = next_e();
	CHECK(o == IN.dst && i == IN.src, "copy: from the source to the destination");
	CHECK((off == NULL ? OFF : *off) == OFF && n > 0, "copy: every byte in order and once");
	ASSUME(m >= -1 && m <= SIZE - OFF && (m < 0 || (unsigned long)m <= n));
	count();
	if (m < 0) { fail(e); return -1; }
	if (m == 0) ENDED = true;
	OFF += m;
	if (off) *off += m;
	return m;
}
void harness_copyfile(void) {
	int r;
	VF_BEGIN();
	begin();
	r = copyfile(FROM, TO);
	ended(r);
	if (r == 0) { CHECK(ENDED || OFF == SIZE, "copy: the whole file"); REACH("copied"); }
}
#endif
#ifdef H_os_copyfile
ssize_t vf_read(int fd, void *p, size_t n) {
	long m = next_r(); int e = next_e();
	CHECK(fd == IN.src && POS == CHUNK && n > 0, "copy: a chunk is written before the next is read");
	ASSUME(m >= -1 && m <= (long)n);
	count();
	P = p;
	if (m < 0) { fail(e); return -1; }
	if (m == 0) ENDED = true;
	CHUNK = m; POS = 0;
	return m;
}
ssize_t vf_write(int fd, const void *p, size_t n) {
	long m = next_r(); int e = next_e();
	CHECK(fd == IN.dst && SAME(p, P) && (const char *)p == P + POS && n == (size_t)(CHUNK - POS), "copy: every byte in order and once");
	ASSUME(m >= -1 && m <= (long)n);
	count();
	if (m < 0) { if (e == EINTR) { ERRNO = e; return -1; } fail(e); return -1; }
	POS += m;
	return m;
}
void harness_os_copyfile(void) {
	int r;
	VF_BEGIN();
	begin();
	r = os_copyfile(FROM, TO);
	ended(r);
	if (r == 0) { CHECK(ENDED && POS == CHUNK, "copy: the whole file"); REACH("copied"); }
}
#endif
#ifdef H_os_read
static FD_TABLE TAB[3]; static int reads; static char BUF[8];
ssize_t vf_sysread(int fd, void *p, size_t n) {
	reads++;
	CHECK(fd == IN.real && p == BUF && n == (size_t)IN.n, "read: from the descriptor the number stands for");
	return IN.r[0];
}
void harness_os_read(void) {
	int r; bool valid; FD_TABLE was[3];
	VF_BEGIN();
	fdTable = TAB; ioTableSize = 3;
	RANGE(IN.n, 0, INT_MAX); RANGE(IN.r[0], -1, IN.n); RANGE(IN.fd, 0, 5);
	if (IN.fd < 3) { TAB[IN.fd].type = IN.type; TAB[IN.fd].fd = IN.real; }
	valid = IN.fd < 3 && IN.type != FD_UNUSED && IN.real != -1;
	if (!valid) ASSUME(IN.real == IN.fd || IN.fd < 3);
	if (!valid && IN.fd < 3) { if (IN.type != FD_UNUSED) IN.real = -1; IN.real = IN.fd; }
	r = os_read(IN.fd, BUF, IN.n);
	CHECK(reads == 1 && r == (int)IN.r[0], "read: reports what the kernel gave");
	if (valid) REACH("number"); else REACH("plain");
}
#endif
