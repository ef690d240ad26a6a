/*@vf
[[unit]]
prop = "C14"
entry = "harness_write"
what = "a completed write has handed the kernel every byte, in order and once, however the kernel splits it or reports it would block; a failure is the kernel's (every length)"
functions = ["async_write"]
loops = [ { fn = "async_write", id = 0, of = 2, assigns = "m, DONE, ERRNO, LAST, WANTED, CALLS, FAILED, ENDED, OVER", inv = "0 <= tot && tot < n && DONE == tot && !FAILED && !ENDED && !WANTED" },
          { fn = "async_write", id = 1, of = 2, assigns = "tot, m, DONE, ERRNO, LAST, WANTED, CALLS, FAILED, ENDED, OVER", inv = "0 <= tot && (tot <= n || (n < 0 && tot == 0)) && DONE == tot && !FAILED && !ENDED && !WANTED" } ]
fallback = { defs = ["FB"], unwind = 8 }
stub = ["write:vf_write", "os_geterror:vf_geterror", "async_wait:vf_wait"]
trusted = ["write takes up to the bytes it is given from the front, or none and an error"]

[[unit]]
prop = "C14"
entry = "harness_read"
what = "a read reports what the kernel gave: the number of bytes, the end of the stream, or the error; waiting only while it would block"
functions = ["async_read"]
loops = [ { fn = "async_read", id = 0, of = 1, assigns = "m, ERRNO, LAST, WANTED, CALLS, OVER", inv = "!WANTED && !OVER" } ]
fallback = { defs = ["FB"], unwind = 8 }
stub = ["os_read:vf_read", "os_geterror:vf_geterror", "async_wait:vf_wait"]
trusted = ["read gives up to the bytes asked for, or an error"]

[[unit]]
prop = "C14"
entry = "harness_read2"
what = "a read reports what the kernel gave: the number of bytes, the end of the stream, or the error, having waited before each try"
functions = ["async_read2"]
loops = [ { fn = "async_read2", id = 0, of = 1, assigns = "m, ERRNO, LAST, WANTED, CALLS, OVER", inv = "!WANTED && !OVER" } ]
fallback = { defs = ["FB"], unwind = 8 }
stub = ["os_read:vf_read", "os_geterror:vf_geterror", "async_wait:vf_wait"]

[[unit]]
prop = "C14"
entry = "harness_workers"
what = "a read, write or transfer handed to a worker is the one asked for, and its answer the kernel's"
functions = ["_os_read", "_os_write", "_os_sendfile", "_os_open", "_os_close"]
plain = true
stub = ["os_read:vf_wread", "write:vf_wwrite", "sendfile:vf_wsendfile", "os_open:vf_wopen", "os_close:vf_wclose"]
@*/
#include "vf.h"
#include <stdarg.h>
#include "async_io.c"
#undef read
#undef write
#undef close
#undef open
#include "stubs.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
#define TRIES 6
VF_INPUTS( int fd; int n; int r[TRIES]; int e[TRIES]; int which; int out; size_t count; long off; int flag, mode; )
static int ERRNO, LAST, CALLS, DONE;
static bool WANTED, FAILED, ENDED, OVER;
static char *BUF;
#if defined(VF_NATIVE) || defined(FB)
static int next_r(void) { ASSUME(CALLS < TRIES); return IN.r[CALLS]; }
static int next_e(void) { return IN.e[CALLS]; }
#else
static int next_r(void) { int x; return x; }
static int next_e(void) { int x; return x; }
#endif
int vf_geterror(void) { return ERRNO; }
#if defined(H_write) || defined(H_read) || defined(H_read2)
/* how the kernel answers a request of len bytes */
static int answer(int len) {
	int m = next_r(), e = next_e();
	ASSUME(m >= -1 && m <= len);
	LAST = m;
	if (m < 0) ERRNO = e;
	WANTED = m < 0 && e == EAGAIN;
	OVER = !WANTED;
#if defined(VF_NATIVE) || defined(FB)
	CALLS++;
#else
	CALLS = 1;
#endif
	return m;
}
#endif
#ifdef H_write
ssize_t vf_write(int fd, const void *p, size_t len) {
	int m;
	CHECK(fd == IN.fd, "write: to the descriptor given");
	CHECK(!WANTED, "write: waits when it would block");
	CHECK((const char *)p - BUF == DONE && len == (size_t)(IN.n - DONE), "write: every byte in order and once");
	m = answer((int)len);
	if (m > 0) DONE += m;
	else if (m < 0) FAILED = ERRNO != EAGAIN;
	else ENDED = true;
	return m;
}
void vf_wait(int fd, int mode) {
	CHECK(fd == IN.fd && mode == 'w' && WANTED, "write: waits only when it would block, to write");
	WANTED = false;
}
void harness_write(void) {
	int r;
	VF_BEGIN();
	RANGE(IN.fd, 0, 1 << 20);
	ERRNO = LAST = CALLS = DONE = 0; WANTED = FAILED = ENDED = OVER = false;
#ifdef FB
	RANGE(IN.n, -1, 5);
#endif
	BUF = malloc(IN.n > 0 ? IN.n : 1); ASSUME(BUF != NULL);
	r = async_write(IN.fd, BUF, IN.n);
	if (FAILED) { CHECK(r == -1 && ERRNO != EAGAIN, "write: a failure is the kernel's"); REACH("failed"); return; }
	CHECK(r == DONE, "write: reports what was written");
	CHECK(ENDED || r == (IN.n > 0 ? IN.n : 0), "write: completes only when all is written");
	REACH("done");
}
#endif
#if defined(H_read) || defined(H_read2)
int vf_read(int fd, char *p, size_t len) {
	CHECK(fd == IN.fd && p == BUF && len == (size_t)IN.n, "read: into the buffer given");
	CHECK(!OVER, "read: an answer is reported, not thrown away");
#ifdef H_read2
	CHECK(WANTED, "read: waits before it tries");
#else
	CHECK(!WANTED, "read: waits when it would block");
#endif
	{
		int m = answer((int)len);
#ifdef H_read2
		WANTED = false;
#endif
		return m;
	}
}
void vf_wait(int fd, int mode) {
	CHECK(fd == IN.fd && mode == 'r', "read: waits to read");
#ifdef H_read2
	WANTED = true;
#else
	CHECK(WANTED, "read: waits only when it would block");
	WANTED = false;
#endif
}
static void reading(int (*f)(int, void *, int)) {
	int r;
	VF_BEGIN();
	RANGE(IN.fd, 0, 1 << 20); RANGE(IN.n, 0, INT_MAX);
	ERRNO = LAST = CALLS = DONE = 0; WANTED = OVER = false;
	BUF = malloc(1); ASSUME(BUF != NULL);
#ifdef H_read
	r = async_read(IN.fd, BUF, IN.n);
#else
	r = async_read2(IN.fd, BUF, IN.n);
#endif
	CHECK(CALLS > 0 && r == LAST, "read: reports what the kernel gave");
	CHECK(r >= 0 || ERRNO != EAGAIN, "read: would-block is not reported");
	REACH("read");
}
void harness_read(void) { reading(NULL); }
void harness_read2(void) { reading(NULL); }
#endif
#ifdef H_workers
static int reads, writes, sends, opens, closes; static off_t OFF; static ssize_t R;
int vf_wread(int fd, char *p, size_t n) { reads++; CHECK(fd == IN.fd && p == BUF && n == (uint32_t)IN.count, "worker: the read asked for"); return IN.out; }
ssize_t vf_wwrite(int fd, const void *p, size_t n) { writes++; CHECK(fd == IN.fd && p == BUF && n == (uint32_t)IN.count, "worker: the write asked for"); return IN.out; }
ssize_t vf_wsendfile(int o, int i, off_t *off, size_t n) { sends++; CHECK(o == IN.fd && i == IN.mode && off == &OFF && n == IN.count, "worker: the transfer asked for"); return IN.off; }
int vf_wopen(const char *p, int flag, mode_t mode) { opens++; CHECK(p == BUF && flag == IN.flag && mode == (mode_t)IN.mode, "worker: the opening asked for"); return IN.out; }
int vf_wclose(int fd) { closes++; CHECK(fd == IN.fd, "worker: the closing asked for"); return IN.out; }
void harness_workers(void) {
	values_t a[4], r;
	VF_BEGIN();
	memset(a, 0, sizeof a); memset(&r, 0, sizeof r); BUF = malloc(1); ASSUME(BUF != NULL);
	a[0].integer = IN.fd;
	switch (IN.which) {
		case 0: a[1].object = BUF; a[2].max_size = (uint32_t)IN.count; r.object = _os_read(a); CHECK(reads == 1 && r.integer == IN.out, "worker: the answer is the kernel's"); REACH("read"); break;
		case 1: a[1].object = BUF; a[2].max_size = (uint32_t)IN.count; r.object = _os_write(a); CHECK(writes == 1 && r.integer == IN.out, "worker: the answer is the kernel's"); REACH("write"); break;
		case 2: a[1].integer = IN.mode; a[2].object = &OFF; a[3].max_size = IN.count; r.object = _os_sendfile(a); CHECK(sends == 1 && r.long_long == IN.off, "worker: the answer is the kernel's"); REACH("send"); break;
		case 3: a[0].object = BUF; a[1].integer = IN.flag; a[2].integer = IN.mode; r.object = _os_open(a); CHECK(opens == 1 && r.integer == IN.out, "worker: the answer is the kernel's"); REACH("open"); break;
		case 4: r.object = _os_close(a); CHECK(closes == 1 && r.integer == IN.out, "worker: the answer is the kernel's"); REACH("close"); break;
		default: break;
	}
	CHECK(reads + writes + sends + opens + closes == (IN.which >= 0 && IN.which <= 4), "worker: once");
}
#endif
