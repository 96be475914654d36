/*
 * Contract notation shared by all units.
 *
 * A unit is compiled twice from the same text:
 *  - VF_CBMC: for the verifier. Contracts are CBMC contract clauses, inputs are unconstrained.
 *  - otherwise: native replay of one counterexample against the real code. Inputs come from
 *    the verifier's trace (vf_inputs.inc) and contract clauses are evaluated at run time.
 *
 * A contract is an X-macro  C(REQ, ENS, RET):  REQ(name, condition)  ENS(name, condition)
 */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef VF_CBMC
#define VF_REQ(name, ...) __CPROVER_requires(__VA_ARGS__)
#ifdef VF_NAMES /* preprocess-only run that lists the clause names in order */
#define VF_ENS(name, ...) VF_NAME_MARK name ;
#else
#define VF_ENS(name, ...) __CPROVER_ensures(__VA_ARGS__)
#endif
#define VF_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#ifdef VF_PLAIN
/* bounded runs without contract instrumentation: requires are assumed, ensures asserted around the call */
#undef VF_ASSIGNS
#define VF_ASSIGNS(...)
#define VF_PREQ(name, ...) __CPROVER_assume(__VA_ARGS__);
#define VF_PENS(name, ...) __CPROVER_assert(__VA_ARGS__, "VF_ASSERT " #name);
#define VF_PNOP(name, ...)
#define VF_CONTRACT(C)
#define VF_PRE(C) do { C(VF_PREQ, VF_PNOP, 0) } while (0)
#define VF_POST(C, ret) do { C(VF_PNOP, VF_PENS, ret) } while (0)
#else
#define VF_CONTRACT(C) C(VF_REQ, VF_ENS, __CPROVER_return_value)
#define VF_PRE(C)
#define VF_POST(C, ret)
#endif
/* makes the verifier's pointer primitives known to loop contracts */
static inline bool vf_primitives(const void* p, const void* q) {
	return __CPROVER_same_object(p, q) && __CPROVER_POINTER_OFFSET(p) == 0;
}
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(name, ...) __CPROVER_assert(__VA_ARGS__, "VF_ASSERT " #name)
/* condition under which the unit's model of the surroundings applies; if it fails the unit gives no answer */
#define VF_FITS(name, ...) __CPROVER_assert(__VA_ARGS__, "VF_FITS " #name)
/* input condition that must be satisfiable, or the run is vacuous */
#define VF_COVER(name, ...) __CPROVER_assert(!(__VA_ARGS__), "VF_COVER " #name)
#define VF_REACH(name) __CPROVER_assert(0, "VF_REACH " #name)
#define VF_INPUTS(type) type IN;
/* an uninitialised local is unconstrained for the verifier */
#define VF_LOAD() do { __typeof__(IN) vf_any; IN = vf_any; } while (0)
#else
#include <stdio.h>
#include <stdlib.h>
static int vf_failures;
static inline void vf_pre_fail(const char* name) {
	printf("VF-PRECONDITION-NOT-MET %s\n", name);
	fflush(stdout);
	_Exit(77);
}
static inline void vf_fail(const char* name) {
	printf("VF-FAILED %s\n", name);
	fflush(stdout);
	vf_failures++;
}
#define VF_NREQ(name, ...) \
	if (!(__VA_ARGS__)) vf_pre_fail(#name);
#define VF_NENS(name, ...) \
	if (!(__VA_ARGS__)) vf_fail(#name);
#define VF_NOP(name, ...)
#define VF_ASSIGNS(...)
#define VF_CONTRACT(C)
#define VF_PRE(C) do { C(VF_NREQ, VF_NOP, 0) } while (0)
#define VF_POST(C, ret) do { C(VF_NOP, VF_NENS, ret) } while (0)
#define VF_ASSUME(c) do { if (!(c)) vf_pre_fail(#c); } while (0)
#define VF_ASSERT(name, ...) do { if (!(__VA_ARGS__)) vf_fail(#name); } while (0)
#define VF_FITS(name, ...)
#define VF_COVER(name, ...)
#define VF_REACH(name)
#define VF_INPUTS(type) type IN;
/* vf_inputs.inc: assignments to IN taken from the verifier's trace */
#define VF_LOAD() vf_load_inputs()
static void vf_load_inputs(void);
#endif

#define VF_BIT(x, n) ((bool)(((x) >> (n)) & 1))
