/*@vf
[[unit]]
prop = "C10"
entry = "harness_lcpy"
what = "str_lcpy copies at most len-1 characters, always terminates, writes nothing else"
functions = ["str_lcpy"]
enforce = ["str_lcpy/C_str_lcpy"]
each = "N=0 N=1 N=2 N=5 N=9"
unwind = 12
kind = "bounded"
bound = "text of 0,1,2,5 or 9 characters, any limit"
trusted = ["C-locale ctype tables and libc string functions as modelled in units/libc_models.h", "events_calloc returns zeroed memory of at least the size asked for"]

[[unit]]
prop = "C10"
entry = "harness_trim"
what = "trim removes exactly the leading and trailing blanks, in place, and touches nothing outside the text"
functions = ["trim", "ltrim", "rtrim"]
plain = true
each = "N=0 N=1 N=2 N=3 N=5"
unwind = 9
kind = "bounded"
bound = "text of up to 5 characters"

[[unit]]
prop = "C10"
entry = "harness_dup"
what = "str_dup, str_dup_ex, str_trim and str_trim_at give a fresh, terminated copy of exactly the characters asked for"
functions = ["str_dup", "str_dup_ex", "str_trim", "str_trim_at", "str_memdup_ex", "str_cpy"]
plain = true
each = "N=0 N=1 N=4"
unwind = 8
kind = "bounded"
bound = "text of 0, 1 or 4 characters"

[[unit]]
prop = "C10"
entry = "harness_pad"
what = "str_pad gives the text padded to the requested length on the requested sides"
functions = ["str_pad"]
plain = true
each = "N=0 N=1 N=3"
unwind = 14
kind = "bounded"
bound = "text of up to 3 characters, padding of 1 to 3, result of up to 9"

[[unit]]
prop = "C10"
entry = "harness_repeat"
what = "str_repeat gives exactly the requested number of copies"
functions = ["str_repeat"]
plain = true
each = "N=0,K=2 N=1,K=0 N=1,K=1 N=1,K=3 N=2,K=0 N=2,K=3 N=3,K=2 N=3,K=4"
unwind = 16
kind = "bounded"
bound = "text of up to 3 characters, up to 4 copies"

[[unit]]
prop = "C10"
entry = "harness_swap"
what = "str_swap_ex replaces every occurrence, left to right, and nothing else"
functions = ["str_swap_ex", "str_cpy"]
plain = true
each = "N=0,M=1 N=1,M=1 N=3,M=0 N=3,M=1 N=4,M=2 N=2,M=3"
unwind = 12
kind = "bounded"
bound = "text of up to 4 characters, needle of up to 3, replacement of up to 2"

[[unit]]
prop = "C10"
entry = "harness_split"
what = "str_split_ex and mem_split_ex give exactly the pieces between the delimiters, terminated by null, and leave the source unchanged"
functions = ["str_split_ex", "mem_split_ex"]
plain = true
each = "N=0,M=1!3 N=1,M=1!4 N=2,M=1!5 N=3,M=1!6 N=4,M=2!6 N=3,M=0!6 N=4,M=1!7"
unwind = 12
kind = "bounded"
bound = "text of up to 5 characters, delimiter of up to 2"

[[unit]]
prop = "C10"
entry = "harness_explode"
what = "str_explode gives exactly the pieces between the delimiters (none when the delimiter is absent)"
functions = ["str_explode"]
stub = ["data_append_item:vf_append_item", "data_append:vf_append", "array:vf_array"]
trusted = ["array() gives an empty array and data_append, data_append_item add the value at its end (their contracts are proved under C05)"]
plain = true
each = "N=0,M=1!4 N=1,M=1!4 N=3,M=1!6 N=4,M=2!7 N=2,M=2!5"
unwind = 12
kind = "bounded"
bound = "text of up to 4 characters, delimiter of up to 2"

[[unit]]
prop = "C10"
entry = "harness_find"
what = "position, containment and counting agree with the first occurrence and with greedy counting"
functions = ["str_pos", "str_has", "mempos", "mempos_str", "mem_subcount", "str_subcount", "str_memnstr"]
plain = true
each = "N=0,M=1!4 N=1,M=1!4 N=4,M=1!7 N=4,M=2!7 N=5,M=3!8 N=2,M=3!6"
unwind = 12
kind = "bounded"
bound = "text of up to 5 characters, pattern of up to 3"

[[unit]]
prop = "C10"
entry = "harness_either"
what = "str_has_either answers whether some window matches one of the two patterns at each place"
functions = ["str_has_either"]
plain = true
each = "N=0,M=1 N=3,M=1 N=4,M=2 N=4,M=3"
unwind = 8
kind = "bounded"
bound = "text of up to 4 characters, patterns of up to 3"

[[unit]]
prop = "C10"
entry = "harness_case"
what = "case-insensitive comparison, exact comparison and case mapping are exactly the C-locale ones"
functions = ["str_case_equal", "str_is_case", "str_is", "str_is_empty", "str_toupper", "str_tolower"]
plain = true
each = "N=0,M=0 N=1,M=1 N=3,M=3 N=3,M=2 N=2,M=3"
unwind = 8
kind = "bounded"
bound = "texts of up to 3 characters"

[[unit]]
prop = "C10"
entry = "harness_cat"
what = "str_cat_ex concatenates its arguments"
functions = ["str_cat_ex"]
plain = true
each = "N=0,M=0 N=1,M=2 N=2,M=0 N=2,M=2"
unwind = 10
kind = "bounded"
bound = "two arguments of up to 2 characters each"

[[unit]]
prop = "C10"
entry = "harness_argv"
what = "str_cat_argv joins the arguments from start on with the separator, every time it is called"
functions = ["str_cat_argv", "_str_append"]
plain = true
each = "N=0,M=0,K=0 N=1,M=2,K=1 N=2,M=0,K=2 N=2,M=2,K=0 N=1,M=1,K=3"
unwind = 10
kind = "bounded"
bound = "three arguments of up to 2 characters each"
@*/
#include "vf.h"
#ifndef VF_NATIVE
# define EVENTS_SMALL_ARGS 1
#endif
#include "arrays.c"
#include "stubs.h"
#define VF_LOOP_MEM
#ifndef CAP
# define CAP 64
#endif
#define VF_CAP CAP
#ifndef H_lcpy
# define VF_KNOWN
#endif
#include "libc_models.h"

#ifndef N
# define N 3
#endif
#ifndef M
# define M 2
#endif
VF_INPUTS( char s[N + 1]; char t[M + 1]; char u[3]; size_t lim; int k; int i; int j; int ty; bool flag; )

static int ndefer, nfree;
static void *deferred_ptr;
void ex_throw(const char *e, const char *f, int l, const char *fn, const char *m, ex_backtrace_t *d) { vf_throw_hook(); }
void *events_calloc(size_t c, size_t n) { return vf_alloc(c * n, true); }
void *events_malloc(size_t n) { return vf_alloc(n, false); }
void *events_realloc(void *p, size_t n) { return realloc(p, n); }
void events_free(void *p) { nfree++; vf_free(p); }
bool defer_free(void *p) { ndefer++; deferred_ptr = p; return p != NULL; }
int deferred(func_t f, void *d, bool p) { ndefer++; deferred_ptr = d; return 1; }
size_t thrd_cpu_count(void) { return 2; }

SPEC_BEGIN
static char *S, *T, *U;
static char *str_of(const char *tx, int n) {
	int i;
	char *p = malloc(n + 1);
	ASSUME(p != NULL);
	for (i = 0; i < n; i++) { ASSUME(tx[i] != '\0'); p[i] = tx[i]; }
	p[n] = '\0';
#ifdef VF_KNOWN
	vf_known(p, n);
#endif
	return p;
}
static bool same(const char *p, const char *tx, int n) {
	int i;
	for (i = 0; i < n; i++) if (p[i] != tx[i]) return false;
	return p[n] == '\0';
}
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* t occurs in s (length n) at i */
static bool at(const char *s, int n, int i, const char *t, int m) {
	int j;
	if (i + m > n) return false;
	for (j = 0; j < m; j++) if (s[i + j] != t[j]) return false;
	return true;
}
SPEC_END

#ifdef H_lcpy
SPEC_BEGIN
#define LIM 12
static char D[LIM + 1], D0[LIM + 1];
static bool lcpy_ok(char *dst, size_t len) {
	size_t i, n = len == 0 ? 0 : len - 1 < N ? len - 1 : N;
	for (i = 0; i <= LIM; i++) {
		if (len && i < n) { if (dst[i] != IN.s[i]) return false; }
		else if (len && i == n) { if (dst[i] != '\0') return false; }
		else if (dst[i] != D0[i]) return false;
	}
	return true;
}
SPEC_END
CONTRACT(void C_str_lcpy(char *dest, const char *src, size_t len),
	ASSIGNS(OBJ(dest))
	ENSURES(lcpy_ok(dest, len)))
void harness_lcpy(void) {
	int i;
	VF_BEGIN();
	S = str_of(IN.s, N);
	for (i = 0; i <= LIM; i++) D[i] = D0[i] = 'x';
	RANGE(IN.lim, 0, (size_t)1 << 62);
	str_lcpy(D, S, IN.lim);
	CHECK(lcpy_ok(D, IN.lim), "bounded copy: the text cut at the limit, terminated, nothing else written");
	CHECK(same(S, IN.s, N), "bounded copy: source unchanged");
	REACH("copied");
}
#endif

#ifdef H_trim
SPEC_BEGIN
static bool trim_ok(char *r) {
	int a = 0, b = N, i;
	while (a < N && blank(IN.s[a])) a++;
	while (b > a && blank(IN.s[b - 1])) b--;
	if (r < S || r > S + N) return false;
	for (i = 0; i < b - a; i++) if (r[i] != IN.s[a + i]) return false;
	return r[b - a] == '\0';
}
SPEC_END
void harness_trim(void) {
	VF_BEGIN();
	S = str_of(IN.s, N);
	CHECK(trim_ok(trim(S)), "trim: the text without leading and trailing blanks");
	REACH("trimmed");
}
#endif

#ifdef H_dup
void harness_dup(void) {
	char *r;
	VF_BEGIN();
	S = str_of(IN.s, N);
	switch (IN.k) {
		case 0: r = str_dup(S); CHECK(same(r, IN.s, N) && ndefer == 1 && deferred_ptr == r, "duplicate: same text, released with the scope"); break;
		case 1: r = str_dup_ex(S); CHECK(same(r, IN.s, N) && ndefer == 0, "duplicate: same text, owned by the caller"); break;
		case 2: RANGE(IN.i, 0, N); r = str_trim(S, IN.i); CHECK(same(r, IN.s, IN.i) && ndefer == 1, "prefix copy"); break;
		default: RANGE(IN.i, 0, N); RANGE(IN.j, 0, N); ASSUME(IN.i + IN.j <= N);
			r = str_trim_at(S, IN.i, IN.j); CHECK(same(r, IN.s + IN.i, IN.j) && ndefer == 1, "substring copy"); break;
	}
	CHECK(r != S && same(S, IN.s, N), "duplicate: a fresh copy, source unchanged");
	REACH("done");
}
#endif

#ifdef H_pad
void harness_pad(void) {
	char *r, *pad = NULL;
	int i, m = 1, left = 0, n;
	str_pad_type ty;
	VF_BEGIN();
	S = str_of(IN.s, N);
	RANGE(IN.k, -2, 9); RANGE(IN.j, 0, 3); RANGE(IN.ty, 0, 3);
	ty = IN.ty == 0 ? 0 : IN.ty == 1 ? STR_PAD_LEFT : IN.ty == 2 ? STR_PAD_RIGHT : STR_PAD_BOTH;
	if (IN.j) { ASSUME(IN.u[0] && IN.u[1] && IN.u[2]); m = IN.j; pad = str_of(IN.u, m); }
	r = str_pad(S, IN.k, pad, ty);
	CHECK(same(S, IN.s, N), "pad: source unchanged");
	n = IN.k - N;
	if (IN.k <= N) { CHECK(r == S, "pad: nothing to add gives the text itself"); REACH("as is"); }
	else {
		left = IN.ty == 1 ? n : IN.ty == 3 ? n / 2 : 0;
		for (i = 0; i < 9; i++) if (i < IN.k) {
			char want = i < left ? (IN.j ? IN.u[i % m] : ' ') : i < left + N ? IN.s[i - left] : (IN.j ? IN.u[(i - left - N) % m] : ' ');
			CHECK(r[i] == want, "pad: each character of the result");
		}
		CHECK(r[IN.k] == '\0', "pad: the result has the requested length");
		CHECK(ndefer == 1 && deferred_ptr == r, "pad: the result is released with the scope");
		REACH("padded");
	}
}
#endif

#ifdef H_repeat
void harness_repeat(void) {
	char *r;
	int i;
	VF_BEGIN();
	S = str_of(IN.s, N);
	IN.k = K;
	r = str_repeat(S, K);
	for (i = 0; i < 4 * N; i++) if (i < IN.k * N) CHECK(r[i] == IN.s[i % (N ? N : 1)], "repeat: each character of the result");
	CHECK(r[IN.k * N] == '\0', "repeat: exactly the requested number of copies");
	CHECK(same(S, IN.s, N), "repeat: source unchanged");
	REACH("done");
}
#endif

#ifdef H_swap
void harness_swap(void) {
	char *r;
	int i = 0, o = 0, cnt = 0, w;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	RANGE(IN.k, 0, 2); w = IN.k;
	U = str_of(IN.u, w);
	r = str_swap_ex(S, T, U);
	CHECK(same(S, IN.s, N) && same(T, IN.t, M) && same(U, IN.u, w), "replace: sources unchanged");
	for (i = 0; i < N; i++) if (M && at(IN.s, N, i, IN.t, M)) { cnt++; i += M - 1; }
	if (!cnt) { CHECK(r == NULL, "replace: nothing to replace gives null"); return; }
	CHECK(r != NULL, "replace: occurrences are replaced");
	for (i = 0; i < N; ) {
		if (at(IN.s, N, i, IN.t, M)) {
			if (w > 0) CHECK(r[o] == IN.u[0], "replace: replacement text");
			if (w > 1) CHECK(r[o + 1] == IN.u[1], "replace: replacement text");
			o += w; i += M;
		} else { CHECK(r[o] == IN.s[i], "replace: other text is kept"); o++; i++; }
	}
	CHECK(r[o] == '\0', "replace: nothing more");
#if M > 0 && N >= M
	REACH("replaced");
#endif
}
#endif

#ifdef H_split
SPEC_BEGIN
/* pieces of IN.s by IN.t, against the vector r */
static bool pieces_ok(char **r, int count) {
	int i = 0, w = 0, o = 0;
	for (i = 0; i < N; ) {
		if (at(IN.s, N, i, IN.t, M)) {
			if (w >= count || r[w][o] != '\0') return false;
			w++; o = 0; i += M;
		} else {
			if (w >= count || r[w][o] != IN.s[i]) return false;
			o++; i++;
		}
	}
	if (w >= count || r[w][o] != '\0') return false;
	return count == w + 1 && r[w + 1] == NULL;
}
SPEC_END
void harness_split(void) {
	char **r;
	int count = -7;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	if (IN.flag) r = str_split_ex(S, T, &count); else r = (char **)mem_split_ex(S, N, T, &count);
	CHECK(same(S, IN.s, N) && same(T, IN.t, M), "split: sources unchanged");
	if (N == 0 || M == 0) { CHECK(r == NULL, "split: an empty text or delimiter gives null"); return; }
	CHECK(r != NULL && pieces_ok(r, count), "split: exactly the pieces, in order, with their count");
#if N > 0 && M > 0
	REACH("split");
#endif
}
#endif

#ifdef H_explode
#ifdef VF_NATIVE
# define PIECE(r, i) (r)[i].char_ptr
# define PIECES(r) data_size(r)
#else
static char *vals[N + 2];
static size_t nvals;
static values_t vf_arr[2];
array_t vf_array(void) { return vf_arr; }
void vf_append(array_t a, void *v) {
	CHECK(a == vf_arr, "explode: appends to its own array");
	BOUND(nvals < N + 2);
	__CPROVER_assume(nvals < N + 2);
	vals[nvals++] = v;
}
void vf_append_item(array_t a, ...) {
	va_list ap;
	data_types n;
	va_start(ap, a);
	n = va_arg(ap, data_types);
	CHECK(n == DATA_STRING, "explode: pieces are text");
	vf_append(a, va_arg(ap, char *));
	va_end(ap);
}
# define PIECE(r, i) vals[i]
# define PIECES(r) nvals
#endif
void harness_explode(void) {
	array_t r;
	int i, w = 0, o = 0, cnt = 0;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	for (i = 0; i < N; i++) if (at(IN.s, N, i, IN.t, M)) { cnt++; i += M - 1; }
	r = str_explode(S, T);
	CHECK(same(S, IN.s, N), "explode: source unchanged");
	if (N == 0) { CHECK(r == NULL, "explode: empty text gives null"); return; }
	CHECK(r != NULL && PIECES(r) == (cnt ? cnt + 1 : 0), "explode: number of pieces");
	if (!cnt) return;
	for (i = 0; i < N; ) {
		if (at(IN.s, N, i, IN.t, M)) { CHECK(PIECE(r, w)[o] == '\0', "explode: piece ends at the delimiter"); w++; o = 0; i += M; }
		else { CHECK(PIECE(r, w)[o] == IN.s[i], "explode: piece text"); o++; i++; }
	}
	CHECK(PIECE(r, w)[o] == '\0', "explode: last piece");
#if N >= M && N > 0
	REACH("exploded");
#endif
}
#endif

#ifdef H_find
void harness_find(void) {
	int i, first = -1, cnt = 0;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	for (i = 0; i < N; i++) if (first < 0 && at(IN.s, N, i, IN.t, M)) first = i;
	for (i = 0; i < N; i++) if (at(IN.s, N, i, IN.t, M)) { cnt++; i += M - 1; }
	CHECK(str_pos(S, T) == first, "position: first occurrence or -1");
	CHECK(str_has(S, T) == (first >= 0), "containment");
	CHECK(mempos((unsigned char *)S, N, (unsigned char *)T, M) == first, "position in bytes");
	CHECK(mempos_str(S, N, T) == first, "position of text in bytes");
	CHECK(str_subcount(S, T) == cnt, "count: non-overlapping occurrences");
	CHECK(mem_subcount(S, N, T) == cnt, "count in bytes");
	CHECK(str_pos(NULL, T) < 0 && str_pos(S, NULL) < 0, "position: null is not found");
	CHECK(same(S, IN.s, N) && same(T, IN.t, M), "find: sources unchanged");
	REACH("done");
}
#endif

#ifdef H_either
void harness_either(void) {
	int i, d, w;
	bool want = false;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	RANGE(IN.k, 0, 2); w = IN.k;
	U = str_of(IN.u, w);
	for (i = 0; i + M <= N; i++) {
		bool all = true;
		for (d = 0; d < M; d++) if (!(IN.s[i + d] == IN.t[d] || (d < w && IN.s[i + d] == IN.u[d]))) all = false;
		if (all) want = true;
	}
	CHECK(str_has_either(S, T, U) == want, "either: some window matches one pattern at each place");
	CHECK(!str_has_either(NULL, T, U) && !str_has_either(S, NULL, U), "either: null never matches");
	REACH("done");
}
#endif

#ifdef H_case
void harness_case(void) {
	int i;
	size_t l;
	bool eq = true, ex = N == M;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	l = IN.lim;
	/* equal ignoring case, up to l characters or the end of both */
	for (i = 0; i <= (N < M ? N : M); i++) {
		int a = i < N ? (unsigned char)IN.s[i] : 0, b = i < M ? (unsigned char)IN.t[i] : 0;
		if ((size_t)i < l && low(a) != low(b)) eq = false;
		if (a != b) ex = false;
	}
	CHECK(str_case_equal(S, T, l) == (l != 0 && eq), "compare ignoring case, limited");
	eq = true;
	for (i = 0; i <= (N < M ? N : M); i++) {
		int a = i < N ? (unsigned char)IN.s[i] : 0, b = i < M ? (unsigned char)IN.t[i] : 0;
		if (low(a) != low(b)) eq = false;
	}
	CHECK(str_is_case(S, T) == eq, "compare ignoring case");
	CHECK(str_is(S, T) == ex, "compare exactly");
	CHECK(!str_is(NULL, T) && !str_is(S, NULL) && !str_is_case(NULL, T) && !str_is_case(S, NULL), "compare: null equals nothing");
	CHECK(str_is_empty(S) == (N == 0) && str_is_empty(NULL), "emptiness");
	CHECK(same(S, IN.s, N) && same(T, IN.t, M), "compare: sources unchanged");
	CHECK(str_toupper(S) == S && str_tolower(T) == T, "case mapping works in place");
	for (i = 0; i < N; i++) CHECK((unsigned char)S[i] == up((unsigned char)IN.s[i]), "upper case");
	for (i = 0; i < M; i++) CHECK((unsigned char)T[i] == low((unsigned char)IN.t[i]), "lower case");
	CHECK(S[N] == '\0' && T[M] == '\0', "case mapping keeps the length");
	REACH("done");
}
#endif

#ifdef H_cat
void harness_cat(void) {
	char *r;
	int i;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	r = str_cat_ex(2, S, T);
	CHECK(r != NULL, "concatenate: gives a text");
	for (i = 0; i < N; i++) CHECK(r[i] == IN.s[i], "concatenate: first text");
	CHECK(same(r + N, IN.t, M), "concatenate: second text, and no more");
	CHECK(str_cat_ex(0) == NULL, "concatenate: no arguments give null");
	CHECK(same(S, IN.s, N) && same(T, IN.t, M), "concatenate: arguments unchanged");
	REACH("done");
}
#endif

#ifdef H_argv
void harness_argv(void) {
	char *r, *argv[3];
	char sep[2] = { ',', 0 };
	int i, o, pass;
	VF_BEGIN();
	S = str_of(IN.s, N); T = str_of(IN.t, M);
	U = malloc(2); ASSUME(U != NULL); U[0] = 'p'; U[1] = 0; vf_known(U, 1);
	argv[0] = U; argv[1] = S; argv[2] = T;
	for (pass = 0; pass < 2; pass++) {
		int st = pass ? K : 0;
		r = str_cat_argv(3, argv, st, sep);
		o = 0;
		if (st <= 0) { CHECK(r[o] == 'p' && r[o + 1] == ',', "join: first argument"); o += 2; }
		if (st <= 1) { for (i = 0; i < N; i++) CHECK(r[o + i] == IN.s[i], "join: second argument"); o += N; CHECK(r[o] == ',', "join: separator"); o++; }
		if (st <= 2) { CHECK(same(r + o, IN.t, M), "join: last argument, and no more"); }
		if (st == 3) CHECK(r[0] == '\0', "join: no arguments give the empty text");
	}
	CHECK(same(S, IN.s, N) && same(T, IN.t, M), "join: arguments unchanged");
	REACH("done");
}
#endif
