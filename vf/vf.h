/* vf.h - one harness, two readers.
 *
 * Read by goto-cc the macros are CBMC code contracts / assumptions /
 * assertions and the inputs are unconstrained; read by gcc (-DVF_NATIVE) the
 * same harness runs the same real code on one concrete input, which is how a
 * verifier counterexample is replayed.
 *
 * A harness starts with the inputs:     VF_INPUTS( int64_t x; char b[9]; );
 * and has one   void harness_xxx(void)  per unit, beginning with VF_BEGIN().
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#ifndef VF_NATIVE
#  define VF_INPUTS(...) struct vf_in { __VA_ARGS__ }; struct vf_in IN;
#  define VF_BEGIN()   do { struct vf_in vf_any; IN = vf_any; } while (0)
#  define ASSUME(c)    __CPROVER_assume(c)
#  define CHECK(c, m)  __CPROVER_assert(c, "CHECK: " m)
#  define REACH(m)     __CPROVER_assert(0, "REACH: " m)
/* a limit of the unit, not of the code: failing it leaves the unit undecided */
#  define BOUND(c)     __CPROVER_assert(c, "BOUND: a limit of this unit is exceeded")
#  define RANGE(x, lo, hi) __CPROVER_assume((x) >= (lo) && (x) <= (hi))
#  define CONTRACT(decl, ...) decl __VA_ARGS__ ;
#  define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#  define ENSURES(...)  __CPROVER_ensures(__VA_ARGS__)
#  define ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
#  define FREES(...)    __CPROVER_frees(__VA_ARGS__)
#  define OBJ(p)        __CPROVER_object_whole(p)
#  define OBJFROM(p)    __CPROVER_object_from(p)
#  define OLD(x)        __CPROVER_old(x)
#  define RET           __CPROVER_return_value
#  define SAME(p, q)    (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(q))
#  define VF_STOP()     __CPROVER_assume(0)
/* specification code is not itself an object of the proof */
#  define SPEC_BEGIN _Pragma("CPROVER check push") \
	_Pragma("CPROVER check disable \"pointer\"") _Pragma("CPROVER check disable \"bounds\"") \
	_Pragma("CPROVER check disable \"signed-overflow\"") _Pragma("CPROVER check disable \"pointer-primitive\"") \
	_Pragma("CPROVER check disable \"undefined-shift\"") _Pragma("CPROVER check disable \"div-by-zero\"")
#  define SPEC_END _Pragma("CPROVER check pop")
#else
#  include <stdio.h>
#  include <stdlib.h>
#  include <string.h>
#  include <unistd.h>
#  define VF_INPUTS(...) struct vf_in { __VA_ARGS__ }; struct vf_in IN; \
	void *vf_in_ptr = &IN; size_t vf_in_len = sizeof(struct vf_in); \
	VF_SETTER
#ifdef VF_SETFILE
#  define VF_SETTER void vf_set(void) { VF_SETS }
#  define VF_B(lhs, ...) { unsigned char t[] = { __VA_ARGS__ }; memcpy(&lhs, t, sizeof t); }
#  include VF_SETFILE
#else
#  define VF_SETTER void vf_set(void) { }
#endif
extern int vf_search;
#  define VF_BEGIN()   do { } while (0)
#  define ASSUME(c)    do { if (!(c)) _exit(77); } while (0)
#  define VF_STOP()    _exit(77)
#  define CHECK(c, m)  do { if (!(c)) { fprintf(stderr, "CHECK FAILED: %s\n", m); fflush(stderr); _exit(66); } } while (0)
#  define REACH(m)     do { } while (0)
#  define BOUND(c)     do { if (!(c)) _exit(77); } while (0)
#  define RANGE(x, lo, hi) do { if (!((x) >= (lo) && (x) <= (hi))) { \
	if (vf_search) (x) = (lo) + ((uint64_t)(x) % ((uint64_t)(hi) - (uint64_t)(lo) + 1)); else _exit(77); } } while (0)
#  define CONTRACT(decl, ...)
#  define SPEC_BEGIN
#  define SPEC_END
#  define SAME(p, q) 1
#endif
#endif
