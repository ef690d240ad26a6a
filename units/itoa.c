/*@vf
[[unit]]
prop = "C10"
entry = "harness_pair"
what = "the two-digit text of every number below one hundred, and nothing else written"
functions = ["utoa2p", "utoa2p_ex"]
enforce = ["utoa2p_ex/C_pair"]
unwind = 4

[[unit]]
prop = "C10"
entry = "harness_itoa"
what = "str_itoa(x) is the canonical decimal text of x"
functions = ["str_itoa"]
plain = true
kind = "bounded"
bound = "the values -12..12, every power of ten less one, every negated power of ten, and the limits of 8, 16, 32 and 64 bits"
unwind = 40
cbmc = ["--object-bits", "12"]
timeout = 300
trusted = ["scope_local returns the current scope whose scratch text has ARRAY_SIZE bytes"]
@*/
#include "vf.h"
#include "arrays.c"

VF_INPUTS( int64_t x; char pre; )

static ex_memory_t g_scope;
ex_memory_t *scope_local(void) { return &g_scope; }

SPEC_BEGIN
/* s is the canonical decimal text of x: '-' exactly for negatives, then the
 * base-100 digits of |x|, most significant first, no leading zero. */
static bool decimal_of(int64_t x, const char *s) {
	uint64_t v = x < 0 ? 0 - (uint64_t)x : (uint64_t)x;
	int i, n = 0, neg = s[0] == '-';
	if (neg != (x < 0)) return false;
	for (i = 0; i < 21 && s[i]; i++) n++;
	if (n > 20) return false;
	for (i = 0; i < 10; i++) {
		unsigned char r = (unsigned char)(v % 100), hi = r / 10, lo = r % 10;
		v /= 100;
		if (n <= neg || s[--n] != '0' + lo) return false;
		if (v == 0 && hi == 0) break;
		if (n <= neg || s[--n] != '0' + hi) return false;
		if (v == 0) break;
	}
	return n == neg;
}
SPEC_END

#ifdef H_pair
SPEC_BEGIN
static char B[4];
static bool pair_ok(uint64_t x, char *s) {
	return s[0] == '0' + x / 10 && s[1] == '0' + x % 10;
}
SPEC_END
CONTRACT(void C_pair(uint64_t x, char *s),
	REQUIRES(x < 100)
	ASSIGNS(OBJ(s))
	ENSURES(pair_ok(x, s) && B[0] == 0 && B[3] == IN.pre))
void harness_pair(void) {
	VF_BEGIN();
	RANGE(IN.x, 0, 99);
	B[0] = 0; B[3] = IN.pre;
	utoa2p_ex((uint64_t)IN.x, B + 1);
	CHECK(pair_ok((uint64_t)IN.x, B + 1), "two-digit text");
	CHECK(B[3] == IN.pre && B[0] == 0, "two-digit text: nothing else written");
	REACH("returned");
}
#endif

#ifdef H_itoa
#define ONE(v) CHECK(decimal_of((v), str_itoa(v)), "decimal text of the number")
void harness_itoa(void) {
	int64_t p;
	int k, d;
	VF_BEGIN();
	for (k = -12; k <= 12; k++) ONE((int64_t)k);
	for (k = 0, p = 1; k < 19; k++, p = k < 19 ? p * 10 : p)
		{ ONE(p - 1); ONE(-p); }
	for (k = 7; k < 62; k = k * 2 + 1)
		for (d = -1; d <= 1; d++) { ONE(((int64_t)1 << k) + d); ONE(-((int64_t)1 << k) + d); ONE(((int64_t)1 << (k + 1)) + d); }
	ONE(INT64_MIN); ONE(INT64_MIN + 1); ONE(INT64_MAX); ONE(INT64_MAX - 1);
	REACH("returned");
}
#endif
