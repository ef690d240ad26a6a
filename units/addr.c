/*@vf
[[unit]]
prop = "C19"
entry = "harness_any"
what = "a text is taken exactly when it is four octets and a port, a bare port, or a name that resolves and a port; the address and port are those written, and only the name before the first colon is resolved; any other text is refused"
functions = ["async_parse_addr", "str_lcpy"]
plain = true
stub = ["async_inet_pton:vf_pton", "sscanf:vf_sscanf", "__isoc23_strtoul:vf_strtoul"]
each = "N=0 N=1 N=2 N=3 N=5 N=7 N=9 N=12"
thorough_each = "N=0 N=1 N=2 N=3 N=4 N=5 N=6 N=7 N=8 N=9 N=10 N=11 N=12 N=14 N=16"
unwind = 24
kind = "bounded"
bound = "texts of the listed lengths (12 and less; 16 and less when thorough) of any characters but white space and signs"
trusted = ["sscanf and strtoul do as documented (models of the conversions used); the resolver is asked through async_inet_pton"]

[[unit]]
prop = "C19"
entry = "harness_dotted"
what = "every address of four octets and a port, of any digits, is read as exactly those numbers, or refused when one is too large"
functions = ["async_parse_addr"]
plain = true
stub = ["async_inet_pton:vf_pton", "sscanf:vf_sscanf", "__isoc23_strtoul:vf_strtoul"]
each = "A=1,B=1,C=1,D=1,P=1 A=3,B=3,C=3,D=3,P=5 A=2,B=3,C=1,D=2,P=4 A=3,B=1,C=2,D=1,P=2 A=1,B=2,C=3,D=3,P=3 A=4,B=1,C=1,D=1,P=2 A=1,B=1,C=1,D=4,P=2 A=1,B=1,C=1,D=1,P=6"
unwind = 24
kind = "bounded"
bound = "the listed numbers of digits in each part, any digits"

[[unit]]
prop = "C19"
entry = "harness_port"
what = "a text of digits alone is read as that port on any address, or refused when too large"
functions = ["async_parse_addr"]
plain = true
stub = ["async_inet_pton:vf_pton", "sscanf:vf_sscanf", "__isoc23_strtoul:vf_strtoul"]
each = "N=1 N=2 N=3 N=4 N=5 N=6 N=7"
unwind = 24
kind = "bounded"
bound = "texts of up to 7 digits"
@*/
#include "vf.h"
#include <stdarg.h>
#include "async_io.c"
#undef read
#undef write
#undef close
#undef open
#include "arrays.c"
#include "stubs.h"
#include "libc_models.h"
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
#ifndef N
# define N 1
#endif
#ifndef A
# define A 1
# define B 1
# define C 1
# define D 1
# define P 1
#endif
#ifdef H_dotted
# define LEN (A + B + C + D + P + 4)
#else
# define LEN N
#endif
VF_INPUTS( char t[LEN + 1]; bool res4, res6; uint32_t ip; bool fam; )
static char TEXT[LEN + 1];
static u_saddr_t DST;
static int asked; static size_t asked_len;
int vf_pton(int af, const char *src, void *dst, size_t n, int resolve) {
	size_t i; bool brk = TEXT[0] == '[' && af == AF_INET6 && !resolve;
	for (i = 0; src[i]; i++) CHECK(i + brk < LEN && src[i] == TEXT[i + brk], "name: exactly the text before the colon");
	asked++; asked_len = i;
	if (af == AF_INET) {
		CHECK(dst == (void *)&DST.sin && n == sizeof(DST.sin), "name: resolved into the caller's address");
		if (!IN.res4) return 0;
		DST.sin.sin_family = AF_INET; DST.sin.sin_addr.s_addr = IN.ip;
		return 1;
	}
	CHECK(af == AF_INET6 && dst == (void *)&DST.sin6 && n == sizeof(DST.sin6), "name: resolved into the caller's address");
	if (!IN.res6) return 0;
	DST.sin6.sin6_family = AF_INET6;
	return 1;
}
/* the conversions async_parse_addr uses: %u and %<width>u, %n, %<width>[^]], literal characters */
int vf_sscanf(const char *s, const char *f, ...) {
	va_list ap; int got = 0; size_t i = 0, w, d; unsigned v; char *o; unsigned *u; int *n; bool neg; uint64_t x;
	va_start(ap, f);
	for (; *f; f++) {
		if (*f != '%') { if (s[i] != *f) break; i++; continue; }
		f++;
		w = 0;
		while (*f >= '0' && *f <= '9') { w = w * 10 + (size_t)(*f - '0'); f++; }
		if (*f == 'n') { n = va_arg(ap, int *); *n = (int)i; continue; }
		if (*f == 'u') {
			if (w == 0) w = LEN + 1;
			x = 0;
			for (d = 0; d < w && s[i] >= '0' && s[i] <= '9'; d++, i++) x = x > 0xffffffffffu ? x : x * 10 + (uint64_t)(s[i] - '0');
			if (d == 0) break;
			u = va_arg(ap, unsigned *); *u = (unsigned)x; got++;
			continue;
		}
		f += 3; /* [^]] */
		o = va_arg(ap, char *);
		for (d = 0; d < w && s[i] && s[i] != ']'; d++, i++) o[d] = s[i];
		if (d == 0) break;
		o[d] = 0; got++;
	}
	va_end(ap);
	return got;
}
unsigned long vf_strtoul(const char *s, char **e, int base) {
	size_t i = 0; unsigned long x = 0;
	BOUND(base == 10);
	while (s[i] >= '0' && s[i] <= '9') { x = x * 10 + (unsigned long)(s[i] - '0'); i++; }
	if (e) *e = (char *)s + i;
	return x;
}
#define DIG(c) ((c) >= '0' && (c) <= '9')
/* a number of 1..max digits from text position i; -1 if there is none */
static long number(size_t *i, int max) {
	long v = 0; int n = 0;
	while (*i < LEN && DIG(TEXT[*i]) && n < max) { v = v * 10 + (TEXT[*i] - '0'); (*i)++; n++; }
	return n ? v : -1;
}
static long q[4], port;
static bool four(void) {
	size_t i = 0; int k;
	for (k = 0; k < 4; k++) {
		q[k] = number(&i, 3);
		if (q[k] < 0 || i >= LEN || TEXT[i] != (k < 3 ? '.' : ':')) return false;
		i++;
	}
	port = number(&i, 5);
	return port >= 0 && i == LEN;
}
static void world(void) {
	size_t i;
	for (i = 0; i < LEN; i++) {
		ASSUME(IN.t[i] != 0 && IN.t[i] != ' ' && !(IN.t[i] >= 9 && IN.t[i] <= 13) && IN.t[i] != '+' && IN.t[i] != '-');
		TEXT[i] = IN.t[i];
	}
	TEXT[LEN] = 0;
	DST.sin.sin_port = 77; DST.sin.sin_addr.s_addr = 99;
}
static void unchanged(void) { size_t i; for (i = 0; i < LEN; i++) CHECK(TEXT[i] == IN.t[i], "the text is not changed"); CHECK(TEXT[LEN] == 0, "the text is not changed"); }
static bool four_in_range(void) { return q[0] <= 255 && q[1] <= 255 && q[2] <= 255 && q[3] <= 255 && port <= 65535; }
static void is_four(int r, int v) {
	uint8_t *o = (uint8_t *)&DST.sin.sin_addr.s_addr, *p = (uint8_t *)&DST.sin.sin_port;
	CHECK((r == 1) == four_in_range(), "address: taken exactly when every number is in range");
	if (r != 1) { CHECK(r == 0 && v == 0, "address: refused"); return; }
	CHECK(v == 4 && DST.sin.sin_family == AF_INET, "address: of version four");
	CHECK(o[0] == q[0] && o[1] == q[1] && o[2] == q[2] && o[3] == q[3], "address: exactly those octets");
	CHECK(p[0] * 256 + p[1] == port, "address: exactly that port");
}
#ifdef H_dotted
void harness_dotted(void) {
	size_t i; int v = 9, r;
	static const char shape[] = { A, B, C, D, P }; size_t k = 0, n = 0;
	VF_BEGIN();
	for (i = 0; i < LEN; i++) {
		if (n < (size_t)shape[k]) { RANGE(IN.t[i], '0', '9'); n++; }
		else { ASSUME(IN.t[i] == (k < 3 ? '.' : ':')); k++; n = 0; }
	}
	world();
	r = async_parse_addr(TEXT, &DST, &v);
	unchanged();
#if A > 3 || B > 3 || C > 3 || D > 3 || P > 5
	CHECK(r == 0 || asked, "address: too many digits are no number");
	REACH("too long");
#else
	CHECK(four(), "four");
	CHECK(!asked, "address: nothing is resolved");
	is_four(r, v);
	if (r) REACH("taken");
#endif
}
#endif
#ifdef H_port
void harness_port(void) {
	size_t i; int v = 9, r; long x = 0; uint8_t *p = (uint8_t *)&DST.sin.sin_port;
	VF_BEGIN();
	for (i = 0; i < LEN; i++) RANGE(IN.t[i], '0', '9');
	world();
	for (i = 0; i < LEN; i++) x = x * 10 + (TEXT[i] - '0');
	r = async_parse_addr(TEXT, &DST, &v);
	unchanged();
	CHECK(!asked, "port: nothing is resolved");
	CHECK((r == 1) == (x <= 65535) && (r == 0 || r == 1), "port: taken exactly when in range");
	if (r) CHECK(v == 4 && DST.sin.sin_family == AF_INET && DST.sin.sin_addr.s_addr == INADDR_ANY && p[0] * 256 + p[1] == x, "port: exactly that port on any address");
	REACH("port");
}
#endif
#ifdef H_any
void harness_any(void) {
	size_t i, c; int v = 9, r; bool digits = LEN > 0, f; long x;
	VF_BEGIN();
	world();
	r = async_parse_addr(TEXT, &DST, &v);
	unchanged();
	CHECK(r == 0 || r == 1, "taken or refused");
#if N < 3
	REACH("read");
#endif
	CHECK(r == 1 || v == 0, "refused: no version");
	if (four()) { is_four(r, v); CHECK(!asked, "address: nothing is resolved"); return; }
	for (i = 0; i < LEN; i++) if (!DIG(TEXT[i])) digits = false;
	if (digits) return; /* harness_port */
	for (c = 0; c < LEN && TEXT[c] != ':'; c++) ;
	if (TEXT[0] == '[') return; /* version six addresses: only that nothing is overrun */
	if (c == LEN) {
		CHECK(!asked, "no name: nothing is resolved");
		CHECK(r == (TEXT[0] == 'x'), "no port: refused, but for a socket path");
		return;
	}
	i = c + 1;
	x = number(&i, 5);
	f = x >= 0 && x <= 65535 && i == LEN;
	CHECK((r == 1) == (f && (IN.res4 || IN.res6)), "name: taken exactly when it resolves and the port is a port");
	if (asked) CHECK(asked_len == c, "name: exactly the text before the colon");
	if (r) CHECK(v == (IN.res4 ? 4 : 6), "name: the version that resolved");
	if (r && IN.res4) { uint8_t *p = (uint8_t *)&DST.sin.sin_port; CHECK(DST.sin.sin_addr.s_addr == IN.ip && p[0] * 256 + p[1] == x, "name: its address and exactly that port");
#if N >= 3
		REACH("name taken");
#endif
	}
	if (r && !IN.res4) { uint8_t *p = (uint8_t *)&DST.sin6.sin6_port; CHECK(p[0] * 256 + p[1] == x, "name: exactly that port"); }
}
#endif
