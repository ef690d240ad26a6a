/*@vf
[[unit]]
prop = "C18"
entry = "harness_install"
what = "installing allocators takes effect for all four, or for none when one is missing, which is reported"
functions = ["events_set_allocator", "events_malloc", "events_calloc", "events_realloc", "events_free"]
plain = true
fponly = true
trusted = ["an installed allocator returns what malloc, calloc, realloc and free document"]

[[unit]]
prop = "C18"
entry = "harness_wrappers"
what = "each wrapper asks the installed allocator for exactly the size wanted and returns exactly what it gave; freeing keeps errno, and takes null"
functions = ["events_malloc", "events_calloc", "events_realloc", "events_free"]
plain = true
fponly = true

[[unit]]
prop = "C18"
entry = "harness_default"
fponly = true
what = "without an installed allocator the system's is used: enough memory, zeroed by calloc, kept by realloc"
functions = ["events_malloc", "events_calloc", "events_realloc", "events_free"]
plain = true
trusted = ["malloc, calloc, realloc and free do as libc documents"]

[[unit]]
prop = "C18"
entry = "harness_memalign"
what = "aligned memory is aligned to the cache line, lies wholly inside what was allocated wherever that begins, is zeroed in full when asked for, and names what to free; failure is reported"
functions = ["events_memalign", "events_malloc"]
plain = true
fponly = true
backend = "--z3"
@*/
#include "vf.h"
#ifdef VF_NATIVE
# include "events.c"
#else
/* the verifier cannot take the address of its own malloc: wrap it */
# include "events_internal.h"
static void *sys_malloc(size_t n) { return malloc(n); }
static void *sys_calloc(size_t n, size_t m) { return calloc(n, m); }
static void *sys_realloc(void *p, size_t n) { return realloc(p, n); }
static void sys_free(void *p) { free(p); }
# define malloc sys_malloc
# define calloc sys_calloc
# define realloc sys_realloc
# define free sys_free
# include "events.c"
# undef malloc
# undef calloc
# undef realloc
# undef free
#endif
#include "epoll.c"
#include "stubs.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
VF_INPUTS( bool has[4]; size_t n, m, q; void *p, *ret; int err, ferr; uint8_t off; int rnd; bool clear, fail; char c; )
#if !defined(H_default)
static int mallocs, callocs, reallocs, frees; static size_t an, am; static void *ap;
static void *m1(size_t n) {
	mallocs++; an = n;
#ifdef H_memalign
	if (IN.fail) return NULL;
	ap = malloc(n + IN.off); ASSUME(ap != NULL);
	ap = (char *)ap + IN.off;
	return ap;
#endif
	return IN.ret;
}
static void *c1(size_t n, size_t m) { callocs++; an = n; am = m; return IN.ret; }
static void *r1(void *p, size_t n) { reallocs++; ap = p; an = n; return IN.ret; }
static void f1(void *p) { frees++; ap = p; errno = IN.ferr; }
#endif
#ifdef H_install
void harness_install(void) {
	events_allocator_t was = events_allocators; int r;
	bool all;
	VF_BEGIN();
	all = IN.has[0] && IN.has[1] && IN.has[2] && IN.has[3];
	errno = 0;
	r = events_set_allocator(IN.has[0] ? m1 : NULL, IN.has[1] ? r1 : NULL, IN.has[2] ? c1 : NULL, IN.has[3] ? f1 : NULL);
	if (!all) {
		CHECK(r == -1 && errno == EINVAL, "install: a missing one is refused");
		CHECK(events_allocators.local_malloc == was.local_malloc && events_allocators.local_realloc == was.local_realloc && events_allocators.local_calloc == was.local_calloc && events_allocators.local_free == was.local_free, "install: then none takes effect");
		REACH("refused");
		return;
	}
	CHECK(r == 0 && events_allocators.local_malloc == m1 && events_allocators.local_realloc == r1 && events_allocators.local_calloc == c1 && events_allocators.local_free == f1, "install: all take effect");
	REACH("installed");
}
#endif
#ifdef H_wrappers
void harness_wrappers(void) {
	VF_BEGIN();
	events_set_allocator(m1, r1, c1, f1);
	CHECK(events_malloc(IN.n) == IN.ret && mallocs == 1 && an == IN.n, "malloc: what the installed one gave for exactly this size");
	CHECK(events_calloc(IN.n, IN.m) == IN.ret && callocs == 1 && an == IN.n && am == IN.m, "calloc: what the installed one gave for exactly this size");
	CHECK(events_realloc(IN.p, IN.m) == IN.ret && reallocs == 1 && ap == IN.p && an == IN.m, "realloc: what the installed one gave for exactly this block and size");
	errno = IN.err;
	events_free(IN.p);
	CHECK(frees == 1 && ap == IN.p, "free: the installed one, once, exactly this block");
	CHECK(errno == IN.err, "free: keeps errno");
	CHECK(mallocs == 1 && callocs == 1 && reallocs == 1, "one call of the allocator for each");
	REACH("called");
}
#endif
#ifdef H_default
void harness_default(void) {
	char *a, *b;
	VF_BEGIN();
	RANGE(IN.n, 1, 1 << 20); RANGE(IN.q, 0, IN.n - 1);
	a = events_calloc(1, IN.n); ASSUME(a != NULL);
	CHECK(a[IN.q] == 0, "calloc: zeroed");
	a[IN.q] = IN.c;
	b = events_realloc(a, IN.n + 1); ASSUME(b != NULL);
	CHECK(b[IN.q] == IN.c, "realloc: keeps the contents");
	b[IN.n] = 1;
	errno = IN.err;
	events_free(b);
	events_free(NULL);
	CHECK(errno == IN.err, "free: keeps errno");
	a = events_malloc(IN.n); ASSUME(a != NULL);
	a[0] = 1; a[IN.n - 1] = 1;
	events_free(a);
	REACH("used");
}
#endif
#ifdef H_memalign
int rand(void) { return IN.rnd; }
void harness_memalign(void) {
	void *o = NULL; char *r; size_t a;
	VF_BEGIN();
	RANGE(IN.n, 1, (size_t)1 << 40); RANGE(IN.q, 0, IN.n - 1); RANGE(IN.rnd, 0, RAND_MAX); RANGE(IN.off, 0, 63);
	events_set_allocator(m1, r1, c1, f1);
	r = events_memalign(IN.n, &o, IN.clear);
	CHECK(mallocs == 1, "aligned: one block");
	if (IN.fail) { CHECK(r == NULL, "aligned: failure is reported"); REACH("failed"); return; }
	CHECK(o == ap, "aligned: the block to free");
	a = (size_t)((uintptr_t)r - (uintptr_t)o);
	CHECK(a <= an && an - a >= IN.n, "aligned: wholly inside the block");
	CHECK(((uintptr_t)r & (EVENTS_CACHE_LINE_SIZE - 1)) == 0, "aligned: to the cache line");
	if (IN.clear) CHECK(((char *)o)[a + IN.q] == 0, "aligned: zeroed in full");
	REACH("aligned");
}
#endif
