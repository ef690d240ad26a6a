/*@vf
[[unit]]
prop = "C07"
entry = "harness_scopeunwind"
what = "unwinding a scope runs each deferred call once, last registered first, with its argument, and releases each allocation once; a second unwind does nothing"
functions = ["scope_unwind"]
plain = true
fponly = true
each = "N=0!3 N=1!4 N=2!5 N=3!6"
kind = "bounded"
bound = "up to 3 entries of any kinds"
stub = ["is_data:vf_is_data", "data_size:vf_size", "data_delete:vf_delete", "events_free:vf_free", "data_type:vf_data_type", "ex_unprotected_ptr:vf_unprotect"]
trusted = ["is_data and data_type tell live arrays and tagged objects apart", "data_size and data_delete as proved under C05", "a protected scope holds the deferred call fence() registered"]

[[unit]]
prop = "C07"
entry = "harness_scoperegister"
what = "a call deferred in a scope is appended behind the earlier ones, with its function and argument"
functions = ["scope_deferred", "fence"]
plain = true
fponly = true
unwind = 6
stub = ["get_scope:vf_get_scope", "events_malloc:vf_malloc", "data_append:vf_append", "data_lock:vf_lock", "is_data:vf_is_data", "data_size:vf_size", "ex_protect_ptr:vf_protect"]
trusted = ["the lock is free (one thread)", "data_append as proved under C05"]
@*/
#include "vf.h"
#include "except.c"
#include "stubs.h"
#include "libc_models.h"
#include "noalloc.h"
#include "defer.h"
static ex_memory_t S; static int unprotects, protects; static char ERRD; static void *pptr; static func_t pfn; static ex_ptr_t *pcell;
void vf_unprotect(ex_ptr_t *p) { unprotects++; if (p != S.protector) unexpected++; }
#ifdef H_scopeunwind
void harness_scopeunwind(void) {
	int i; bool any = false;
	VF_BEGIN();
	entries(N);
	for (i = 0; i < N; i++) if (IN.kind[i] == K_PTR || IN.kind[i] == K_VALUE) any = true;
	S.defer_arr = ARR; S.err = IN.err ? &ERRD : NULL; S.is_protected = IN.prot && any;
	S.protector->func = call; S.protector->ptr = NULL;
	scope_unwind(&S);
	all_done();
	CHECK(S.defer_arr == NULL, "unwind: the scope keeps no list");
	CHECK(S.is_recovered == !IN.err, "unwind: recovered exactly when no error is pending");
	i = ran + freed + deletes + unprotects;
	scope_unwind(&S);
	CHECK(i == ran + freed + deletes + unprotects && unexpected == 0, "unwind: a second unwind runs and frees nothing");
	REACH("unwound");
}
#else
ex_memory_t *vf_get_scope(void) { return &S; }
void *vf_malloc(size_t n) { if (n < sizeof(defer_t)) unexpected++; return IN.grd ? NULL : (void *)&NEW; }
ex_ptr_t vf_protect(ex_ptr_t *c, void *p, void (*f)(void *)) { protects++; pcell = c; pptr = p; pfn = f; return *c; }
static void f1(void *p) { }
void harness_scoperegister(void) {
	int r; void *p;
	VF_BEGIN();
	RANGE(IN.n0, 0, 4);
	entries(0); asize = IN.n0; S.defer_arr = ARR;
	if (IN.grd) { r = scope_deferred(&S, f1, IN.data); CHECK(r <= 0 && appends == 0, "register: without memory nothing is deferred"); REACH("no memory"); return; }
	if (IN.own) {
		p = fence(IN.data, f1);
		CHECK(p == IN.data, "fence: gives the pointer back");
		if (!IN.data) { CHECK(appends == 0 && protects == 0, "fence: nothing for null"); REACH("null"); return; }
		CHECK(protects == 1 && pcell == S.protector && pptr == IN.data && pfn == f1 && S.is_protected, "fence: protected with its function");
	} else {
		r = scope_deferred(&S, f1, IN.data);
		CHECK(r == IN.n0 + 1, "register: the number of entries is reported");
	}
	UNLOCKED();
	CHECK(unexpected == 0 && appends == 1 && asize == (size_t)IN.n0 + 1 && ARR[asize - 1].object == &NEW, "register: behind the earlier ones, once");
	CHECK(NEW.type == DATA_DEFER && NEW.is_ptr && NEW.func == f1 && NEW.data == IN.data, "register: the function and its argument");
	REACH("registered");
}
#endif
