/*@vf
[[unit]]
prop = "C09"
entry = "harness_enc"
what = "encoding any text gives its padded base64 form, terminated, inside the destination"
functions = ["str_encode64", "str_base64_len"]
enforce = ["str_encode64/C_str_encode64"]
defs = ["FB"]
unwind = 9
kind = "bounded"
bound = "texts of up to 7 bytes, every destination size"
trusted = ["strlen as libc documents"]

[[unit]]
prop = "C09"
entry = "harness_is"
what = "a text with a character outside the alphabet is not accepted as base64, an empty one neither (every length up to 2^16)"
functions = ["str_is_base64"]
enforce = ["str_is_base64/C_str_is_base64"]
loops = [ { fn = "str_is_base64", id = 0, of = 1, assigns = "i", dec = "len - i", inv = "i <= len && len == LENGTH && (Q < i ==> OKCH)" } ]
fallback = { defs = ["FB"], unwind = 9 }
timeout = 200

[[unit]]
prop = "C09"
entry = "harness_small"
what = "is_base64 accepts exactly texts over the alphabet; decoding refuses other texts, lengths that are no multiple of four and too small destinations, and otherwise gives exactly the bytes"
functions = ["str_is_base64", "str_decode64"]
plain = true
each = "N=0!3 N=1!4 N=2!5 N=3!6 N=4!7 N=5!8 N=8!11 N=9!12"
kind = "bounded"
bound = "texts of 0 to 5, 8 and 9 characters, every destination size"

[[unit]]
prop = "C09"
entry = "harness_round"
what = "decoding the encoded form gives back the same bytes, for every destination size that is accepted"
functions = ["str_encode64", "str_decode64"]
plain = true
each = "N=1!11 N=2!11 N=3!11 N=4!13 N=5!13 N=6!13 N=7!17"
kind = "bounded"
bound = "texts of 1 to 7 bytes"
@*/
#include "vf.h"
#include "arrays.c"
#include "stubs.h"

#ifdef FB
# define MAXN 7
#else
# define MAXN 65536
#endif
#ifndef N
# define LEN IN.n
#else
# define LEN N
#endif
VF_INPUTS( size_t n; size_t q; size_t lim; char s[12]; char w; char a; char b; char c; )

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
SPEC_BEGIN
static char al(int v) {
	return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/';
}
static int val(char c) {
	return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52
		: c == '+' ? 62 : c == '/' ? 63 : c == '=' ? 0 : -1;
}
/* character q of the base64 form of s (n bytes) */
static char enc(const char *s, size_t n, size_t q) {
	size_t g = q / 4 * 3;
	int left = n - g >= 3 ? 3 : (int)(n - g);
	int x = (unsigned char)s[g], y = left > 1 ? (unsigned char)s[g + 1] : 0, z = left > 2 ? (unsigned char)s[g + 2] : 0;
	switch (q % 4) {
		case 0: return al(x >> 2);
		case 1: return al((x & 3) << 4 | y >> 4);
		case 2: return left > 1 ? al((y & 15) << 2 | z >> 6) : '=';
		default: return left > 2 ? al(z & 63) : '=';
	}
}
SPEC_END
static char *S, *D;

#if defined(H_enc) || defined(H_is)
size_t Q; char W; bool OKCH;
#ifndef N
# define N LENGTH
static size_t LENGTH;
#endif
#ifdef VF_NATIVE
/* one text with the wanted group at the wanted place */
static void text(void) { size_t i; LENGTH = IN.n; S = malloc(IN.n + 1); for (i = 0; i < IN.n; i++) S[i] = 'x'; S[IN.n] = 0; }
#else
size_t strlen(const char *s) { __CPROVER_assert(s == S, "BOUND: strlen of the text"); return IN.n; }
static void text(void) { LENGTH = IN.n; S = malloc(IN.n + 1); ASSUME(S != NULL); S[IN.n] = 0; }
#endif
#endif

#ifdef H_enc
SPEC_BEGIN
static size_t need(void) { return (IN.n + 2) / 3 * 4; }
static bool enc_ok(char *r) {
	if (IN.n == 0 || IN.lim < need() + 1) return r == NULL;
	return r == D && D[need()] == '\0' && (IN.q >= need() || D[IN.q] == W);
}
SPEC_END
CONTRACT(char *C_str_encode64(const char *src, char *dst, size_t dst_len),
	ASSIGNS(OBJ(dst))
	ENSURES(enc_ok(RET)))
void harness_enc(void) {
	size_t g;
	VF_BEGIN();
	RANGE(IN.n, 0, MAXN); RANGE(IN.lim, 0, MAXN * 2);
	text();
	D = malloc(IN.lim); ASSUME(D != NULL);
	RANGE(IN.q, 0, MAXN * 2);
	Q = IN.q;
	g = Q / 4 * 3;
	/* the group of the witness character is arbitrary */
	if (g < IN.n) { ASSUME(IN.a); S[g] = IN.a; }
	if (g + 1 < IN.n) { ASSUME(IN.b); S[g + 1] = IN.b; }
	if (g + 2 < IN.n) { ASSUME(IN.c); S[g + 2] = IN.c; }
	ASSUME(IN.n == 0 || S[0] != 0);
	W = IN.n && Q < need() ? enc(S, IN.n, Q) : 0;
	CHECK(enc_ok(str_encode64(S, D, IN.lim)), "encode: the padded base64 form, terminated; too small a destination is refused");
	REACH("encoded");
}
#endif

#ifdef H_is
SPEC_BEGIN
static bool is_ok(bool r) {
	if (IN.n == 0) return !r;
	return IN.q >= IN.n || OKCH || !r;
}
SPEC_END
CONTRACT(bool C_str_is_base64(const char *src),
	ASSIGNS()
	ENSURES(is_ok(RET)))
void harness_is(void) {
	VF_BEGIN();
	RANGE(IN.n, 0, MAXN);
	text();
	RANGE(IN.q, 0, MAXN);
	Q = IN.q;
	if (Q < IN.n) { ASSUME(IN.a); S[Q] = IN.a; OKCH = val(IN.a) >= 0; } else OKCH = true;
	ASSUME(IN.n == 0 || S[0] != 0);
	CHECK(is_ok(str_is_base64(S)), "a text with a foreign character is not base64");
	REACH("answered");
}
#endif

#if defined(H_small) || defined(H_round)
#ifndef VF_NATIVE
/* the texts are built here, so their lengths are known */
static size_t slen = N, elen = (N + 2) / 3 * 4;
static char *E;
size_t strlen(const char *s) {
	size_t i;
	if (s == S) return slen;
	if (s == E) return elen;
	for (i = 0; s[i]; i++) ;
	return i;
}
#else
static char *E;
#endif
static void text(void) {
	int i;
	S = malloc(N + 1); ASSUME(S != NULL);
	for (i = 0; i < N; i++) { ASSUME(IN.s[i]); S[i] = IN.s[i]; }
	S[N] = 0;
}
#endif

#ifdef H_small
void harness_small(void) {
	char *r;
	int i, pad;
	bool all = true;
	VF_BEGIN();
	text();
	for (i = 0; i < N; i++) if (val(IN.s[i]) < 0) all = false;
	CHECK(str_is_base64(S) == (N > 0 && all), "base64 texts are exactly the non-empty ones over the alphabet");
	RANGE(IN.lim, 0, 64);
	D = malloc(IN.lim); ASSUME(D != NULL);
	r = str_decode64(S, D, IN.lim);
	for (i = 0; i < N; i++) CHECK(S[i] == IN.s[i], "decode: source unchanged");
	if (N == 0 || !all || N % 4) { CHECK(r == NULL, "decode: malformed text is refused"); }
	if (IN.lim < (size_t)N / 4 * 3 + 1) CHECK(r == NULL, "decode: a destination too small for the bytes is refused");
	if (IN.lim >= (size_t)(N + 2) / 3 * 4 + 1 && N && N % 4 == 0 && all) {
		/* padding only at the very end: the standard form */
		bool std = true;
		for (i = 0; i < N - 2; i++) if (IN.s[i] == '=') std = false;
		if (N >= 2 && IN.s[N - 2] == '=' && IN.s[N - 1] != '=') std = false;
		if (std) {
			CHECK(r == D, "decode: a well-formed text is decoded");
			pad = (N >= 1 && IN.s[N - 1] == '=') + (N >= 2 && IN.s[N - 2] == '=');
			for (i = 0; i < N / 4 * 3 - pad; i++) {
				int g = i / 3 * 4, w;
				w = i % 3 == 0 ? val(S[g]) << 2 | val(S[g + 1]) >> 4 : i % 3 == 1 ? (val(S[g + 1]) & 15) << 4 | val(S[g + 2]) >> 2 : (val(S[g + 2]) & 3) << 6 | val(S[g + 3]);
				CHECK((unsigned char)r[i] == w, "decode: each byte");
			}
			CHECK(r[N / 4 * 3 - pad] == 0, "decode: terminated after the last byte");
#if N == 4 || N == 8
			REACH("decoded");
#endif
		}
	}
	REACH("done");
}
#endif

#ifdef H_round
void harness_round(void) {
	char *r;
	int i;
	VF_BEGIN();
	text();
	E = malloc((N + 2) / 3 * 4 + 1); ASSUME(E != NULL);
	r = str_encode64(S, E, (N + 2) / 3 * 4 + 1);
	CHECK(r == E, "encode: the destination it needs suffices");
	for (i = 0; i < (N + 2) / 3 * 4; i++) CHECK(E[i] == enc(IN.s, N, i), "encode: each character");
	CHECK(E[(N + 2) / 3 * 4] == 0, "encode: terminated");
	RANGE(IN.lim, 0, 64);
	D = malloc(IN.lim); ASSUME(D != NULL);
	r = str_decode64(E, D, IN.lim);
	CHECK(r == NULL || r == D, "decode: refused or given");
	if (IN.lim >= ((N + 2) / 3 * 4 + 2) / 3 * 4 + 1) CHECK(r == D, "decode: a large enough destination is accepted");
	if (r) {
		for (i = 0; i < N; i++) CHECK(r[i] == IN.s[i], "round trip: each byte");
		CHECK(r[N] == 0, "round trip: length");
		REACH("round trip");
	}
}
#endif
