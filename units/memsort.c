/*@vf
[[unit]]
prop = "C16"
entry = "harness_sort"
what = "memsort leaves the same elements in the order of the comparison, compares only elements of the buffer, and writes nothing outside it"
functions = ["memsort"]
plain = true
each = "N=0,Z=1 N=1,Z=1 N=2,Z=1 N=3,Z=1 N=4,Z=1 N=5,Z=2 N=2,Z=3 N=3,Z=2 N=4,Z=4 N=8,Z=1,LOWK"
unwind = 11
kind = "bounded"
bound = "up to 5 elements of 1 to 4 bytes with arbitrary content (8 elements with keys 0 and 1)"

[[unit]]
prop = "C16"
entry = "harness_sort"
name = "sort-reversed"
what = "memsort sorts long reversed and shuffled buffers, which use every gap of its sequence"
functions = ["memsort"]
plain = true
each = "N=50,Z=1,CONC=0 N=50,Z=1,CONC=7 N=50,Z=1,CONC=13"
unwind = 60
kind = "bounded"
bound = "three concrete buffers of 50 elements"
@*/
#include "vf.h"
#include "arrays.c"
#include "stubs.h"
VF_INPUTS( unsigned char e[N * Z + 1]; unsigned char before, after; unsigned q; int hi; )
#ifndef VF_NATIVE
/* byte copies of small constant size */
void *memcpy(void *d, const void *s, size_t n) { size_t i; for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#endif
static unsigned char B[N * Z + 2];
static int arg;
static int cmp(const void *a, const void *b, void *u) {
	const unsigned char *x = a, *y = b;
	CHECK(u == &arg, "the comparison gets the caller's argument");
#ifdef VF_NATIVE
	CHECK(x >= B + 1 && x + Z <= B + 1 + N * Z && (x - B - 1) % Z == 0, "the comparison gets an element of the buffer");
#else
	CHECK(SAME(x, B) && __CPROVER_POINTER_OFFSET(x) >= 1 && (__CPROVER_POINTER_OFFSET(x) - 1) % Z == 0 && __CPROVER_POINTER_OFFSET(x) + Z <= 1 + N * Z, "the comparison gets an element of the buffer");
#endif
	return x[0] > y[0] ? IN.hi : x[0] < y[0] ? -IN.hi : 0;
}
void harness_sort(void) {
	int i, j, n = 0, m = 0;
	VF_BEGIN();
	B[0] = IN.before; B[N * Z + 1] = IN.after;
	for (i = 0; i < N * Z; i++) {
#ifdef LOWK
		ASSUME(IN.e[i] < 2);
#endif
#ifdef CONC
		IN.e[i] = CONC ? (unsigned char)(i * CONC % 53) : (unsigned char)(N - i);
#endif
		B[1 + i] = IN.e[i];
	}
	ASSUME(IN.hi == 1 || IN.hi == 256 || IN.hi == 65536 || IN.hi == 0x40000000);
	memsort(B + 1, N, Z, cmp, &arg);
	CHECK(B[0] == IN.before && B[N * Z + 1] == IN.after, "sort: nothing outside the buffer is touched");
	for (i = 0; i + 1 < N; i++) CHECK(B[1 + i * Z] <= B[1 + (i + 1) * Z], "sort: neighbours are in order");
	/* any element (whole content) occurs as often as before */
	RANGE(IN.q, 0, N ? N - 1 : 0);
#ifdef CONC
	IN.q = 3;
#endif
	for (i = 0; i < N; i++) {
		bool a = true, b = true;
		for (j = 0; j < Z; j++) {
			if (IN.e[i * Z + j] != IN.e[IN.q * Z + j]) a = false;
			if (B[1 + i * Z + j] != IN.e[IN.q * Z + j]) b = false;
		}
		n += a; m += b;
	}
	CHECK(n == m, "sort: the same elements as before, as often");
	REACH("sorted");
}
