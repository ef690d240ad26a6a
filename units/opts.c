/*@vf
[[unit]]
prop = "C23"
entry = "harness_find"
what = "an option is found exactly when it is one of the arguments (or, for a single one, the part of an argument before its first =), the first of them; its value is the next argument, the argument itself, or the text behind the =; in ordered use the search goes on behind it; the arguments stay as they are"
functions = ["getopt_has", "getopts", "getopt_arguments_set", "getopt_message_set"]
plain = true
stub = ["str_is:vf_str_is", "str_has:vf_str_has", "cerr:vf_cerr"]
each = "ARGS=0,L=1,F=1 ARGS=1,L=3,F=2 ARGS=2,L=3,F=1 ARGS=2,L=3,F=2,IX=1 ARGS=3,L=3,F=1,IX=2 ARGS=3,L=2,F=2,IX=3 ARGS=2,L=4,F=2 ARGS=1,L=5,F=3 ARGS=3,L=2,F=1"
thorough_each = "ARGS=3,L=4,F=3 ARGS=2,L=7,F=3!11 ARGS=4,L=3,F=2 ARGS=2,L=5,F=4!9"
unwind = 8
kind = "bounded"
bound = "up to 4 arguments of up to 5 characters (5 and 7 when thorough), every content"
trusted = ["str_is does as promised (C10)"]

[[unit]]
prop = "C23"
entry = "harness_first"
what = "asking for no option in particular gives the first argument, and in ordered use the one after the last taken"
functions = ["getopt_has", "getopts"]
plain = true
stub = ["str_is:vf_str_is", "str_has:vf_str_has", "cerr:vf_cerr"]
each = "ARGS=0,L=1,F=1 ARGS=3,L=3,F=1 ARGS=3,L=3,F=1,IX=2 ARGS=3,L=3,F=1,IX=4"
unwind = 8
kind = "bounded"
bound = "up to 3 arguments of up to 3 characters"
@*/
#include "vf.h"
#include <stdarg.h>
#include "getopt.c"
#ifndef ARGS
# define ARGS 1
# define L 1
# define F 1
#endif
/* IX: ordered use, the search starts there; else unordered use */
#ifdef IX
# define ORDERED true
#else
# define ORDERED false
# define IX 1
#endif
sys_events_t sys_event;
#ifndef VF_NATIVE
const data_values_t data_values_empty[1] = {0};
#endif
VF_INPUTS( char a[5 * (L + 1)]; char f[F + 1]; bool single; int required; )
/* one object for each argument */
static char T0[L + 1], T1[L + 1], T2[L + 1], T3[L + 1], T4[L + 1], FLAG[F + 1], PROG[5] = "prog"; static char *ARGV[ARGS + 2];
static char **CURRENT;
#define T(i) ((i) == 0 ? T0 : (i) == 1 ? T1 : (i) == 2 ? T2 : (i) == 3 ? T3 : T4)
static size_t len(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
static bool eq(const char *a, const char *b) { size_t i; for (i = 0; a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
bool vf_str_is(const char *a, const char *b) { return a && b && eq(a, b); }
bool vf_str_has(const char *t, char *p) {
	size_t i, j, n = len(t), m = len(p);
	for (i = 0; i + m <= n; i++) { for (j = 0; j < m && t[i + j] == p[j]; j++) ; if (j == m) return true; }
	return false;
}
int vf_cerr(const char *m, ...) { return 0; }
static bool help(const char *s) { return eq(s, "-h") || eq(s, "--h") || eq(s, "?") || eq(s, "help"); }
static long cut(const char *s) { size_t i; for (i = 0; s[i]; i++) if (s[i] == '=') return (long)i; return -1; }
static bool before(const char *s, long c) { long i; if (c < 0 || len(FLAG) != (size_t)c) return false; for (i = 0; i < c; i++) if (s[i] != FLAG[i]) return false; return true; }
static int argc;
static void begin(void) {
	int i, j;
	RANGE(IN.required, 0, 3);
	argc = ARGS + 1;
	ARGV[0] = PROG;
	for (i = 0; i < ARGS; i++) { for (j = 0; j < L; j++) T(i)[j] = IN.a[i * (L + 1) + j]; T(i)[L] = 0; ARGV[i + 1] = i < ARGS ? T(i) : NULL; }
	for (j = 0; j < F; j++) { ASSUME(IN.f[j] && IN.f[j] != '='); FLAG[j] = IN.f[j]; }
	ASSUME(!help(FLAG));
	command_line_set = false; command_line_index = IX;
	getopt_arguments_set(argc, ARGV);
	getopt_message_set("usage", IN.required, ORDERED);
	command_line_option = NULL;
}
static void unchanged(void) {
	int i, j; bool same = eq(PROG, "prog");
	for (i = 0; i < ARGS; i++) { for (j = 0; j < L; j++) if (T(i)[j] != IN.a[i * (L + 1) + j]) same = false; if (ARGV[i + 1] != (i < ARGS ? T(i) : NULL)) same = false; }
	CHECK(same && ARGV[0] == PROG, "arguments: never changed");
}
#ifdef H_find
void harness_find(void) {
	int i, at = 0, from = 1; bool r, asked = false; char *value = NULL; long c;
	VF_BEGIN();
	begin();
	from = command_line_index;
	if (argc > IN.required) for (i = 1; i <= ARGS; i++) {
		if (i < from || at || asked) continue;
		c = IN.single ? cut(T(i - 1)) : -1;
		if (eq(T(i - 1), FLAG)) { at = i; value = IN.single ? T(i - 1) : ARGV[i + 1]; }
		else if (before(T(i - 1), c)) { at = i; value = T(i - 1) + c + 1; }
		else if (help(T(i - 1))) asked = true;
	}
	r = getopt_has(FLAG, IN.single);
	unchanged();
	CHECK(r == (at != 0), "option: found exactly when it was given");
	if (r) {
		CHECK(at == 0 || (value == NULL ? getopts() == NULL : getopts() != NULL && eq(getopts(), value)), "option: exactly the text given for it");
		CHECK(command_line_index == (!ORDERED ? 1 : IN.single ? at + 1 : at + 2), "option: ordered search goes on behind it");
		
#if ARGS
		REACH("found");
#endif
	;
	} else CHECK(command_line_index == from, "option: not found, nothing moves");
}
#endif
#ifdef H_first
void harness_first(void) {
	bool r; int from;
	VF_BEGIN();
	begin();
	from = command_line_index;
	r = getopt_has(NULL, IN.single);
	unchanged();
	CHECK(r == (argc > IN.required && from < argc), "first: when there is one");
	if (r) { CHECK(getopts() == ARGV[from], "first: exactly it"); CHECK(command_line_index == (ORDERED ? from + 1 : 1), "first: ordered search goes on behind it"); 
#if IX <= ARGS
		REACH("taken");
#endif
	; }
}
#endif
