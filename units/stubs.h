/* Trusted stand-ins for callees outside the unit, shared by the verifier run
 * and the native replay.  Each is an assumption recorded in the evidence. */
#ifndef STUBS_H
#define STUBS_H
/* a throw leaves the function; the unit says whether one is allowed here */
static bool vf_may_throw;
static bool vf_threw;
#ifndef VF_NATIVE
#ifdef VF_THROW_REACH
static void vf_throw_reached(void) { REACH("exception raised"); }
#else
static void vf_throw_reached(void) { }
#endif
#endif
static void vf_throw_hook(void) {
	vf_threw = true;
	CHECK(vf_may_throw, "an exception was raised where none is allowed");
#ifdef VF_NATIVE
	_exit(0);
#else
	vf_throw_reached();
	__CPROVER_assume(0);
#endif
}
#endif
