/* cpuinfo_initialize / cpuinfo_deinitialize under any history of calls:
 *  UNIT_STEP: contract of one call made after any earlier calls (statics start with any value),
 *  otherwise: the first three requests from the real initial state.
 * Both run with the run-once primitive
 * following its specification: the routine runs if and only if the control object was never used before.
 * A routine that another thread is running is finished before pthread_once returns (POSIX), so a call
 * from another thread that arrives during detection is the same as one that arrives after it. */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <pthread.h>
#include <stdlib.h>

typedef struct {
	bool detected;      /* whether platform detection succeeds */
	bool deinit[3];     /* call de-initialise before the i-th request */
	uint32_t published;
	bool used;          /* UNIT_STEP: an earlier call ran detection */
} inputs_t;
VF_INPUTS(inputs_t)

static void publish(void);
static bool intact(void);
static struct cpuinfo_processor* published;
static struct { uint32_t runs, once_calls; bool inside; void* control; } G;
static int vf_once(pthread_once_t* control, void (*routine)(void)) {
	static const pthread_once_t fresh = PTHREAD_ONCE_INIT;
	G.once_calls++;
#ifdef UNIT_STEP
	G.control = control;
	if (!IN.used) {
		G.inside = true;
		routine();
		G.inside = false;
	}
#else
	if (G.control == NULL) {
		VF_ASSERT(static_initialiser, *control == fresh);
		G.control = control;
		G.inside = true;
		routine();
		G.inside = false;
	}
	VF_ASSERT(one_control_object, G.control == (void*)control);
#endif
	return 0;
}
#define pthread_once vf_once

#ifdef UNIT_STEP
/* whatever happened before, the state is: detection ran once and succeeded or not, or it never ran */
#define STEP(REQ, ENS, RET) \
	REQ(history, G.runs == (IN.used ? 1u : 0u) && cpuinfo_is_initialized == (IN.used && IN.detected) && \
		G.once_calls == 0 && !G.inside && (!cpuinfo_is_initialized || intact())) \
	ENS(result_is_outcome, (RET) == (IN.detected != 0)) \
	ENS(detection_ran_once, G.runs == 1) \
	ENS(run_once_primitive_used, G.once_calls == 1) \
	ENS(initialised_if_detected, cpuinfo_is_initialized == (IN.detected != 0)) \
	ENS(data_intact, !IN.detected || intact())
bool CPUINFO_ABI cpuinfo_initialize(void) VF_CONTRACT(STEP)
	VF_ASSIGNS(G, cpuinfo_is_initialized, cpuinfo_processors_count, cpuinfo_processors);
#endif
#include <api.c>
#include <init.c>
void cpuinfo_vlog_fatal(const char* format, __builtin_va_list args) {}

static struct cpuinfo_processor* published;
static void prepare(void) {
	published = malloc(sizeof(struct cpuinfo_processor));
	VF_ASSUME(published != NULL);
	published->linux_id = 7;
}
static void publish(void) {
	cpuinfo_processors = published;
}
static bool intact(void) {
	return cpuinfo_processors_count == IN.published && cpuinfo_processors == published && published->linux_id == 7;
}
static void detect(void) {
	G.runs++;
	VF_ASSERT(detection_inside_run_once, G.inside);
	if (IN.detected) {
		cpuinfo_processors_count = IN.published;
		publish();
		cpuinfo_is_initialized = true;
	}
}
/* the back end of the target platform is the only one that exists here */
#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
void cpuinfo_x86_linux_init(void) { detect(); }
#elif CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64
void cpuinfo_arm_linux_init(void) { detect(); }
#else
void cpuinfo_riscv_linux_init(void) { detect(); }
#endif

#ifdef UNIT_STEP
void harness(void) {
	VF_LOAD();
	prepare();
	G.runs = IN.used ? 1 : 0;
	G.once_calls = 0;
	G.inside = false;
	cpuinfo_is_initialized = IN.used && IN.detected;
	cpuinfo_processors_count = 0;
	if (cpuinfo_is_initialized) {
		cpuinfo_processors_count = IN.published;
		publish();
	}
	VF_COVER(fails, !IN.detected && !IN.used);
	VF_COVER(again, IN.detected && IN.used);
	const bool r = cpuinfo_initialize();
	VF_POST(STEP, r);
	cpuinfo_deinitialize();
	VF_ASSERT(deinitialise_keeps_state, cpuinfo_is_initialized == (IN.detected != 0));
	VF_ASSERT(deinitialise_keeps_data, !IN.detected || intact());
	VF_REACH(end);
}
#else
void harness(void) {
	VF_LOAD();
	prepare();
	int i;
	VF_COVER(fails, !IN.detected);
	for (i = 0; i < 3; i++) {
		if (IN.deinit[i]) {
			const bool before = cpuinfo_is_initialized;
			cpuinfo_deinitialize();
			VF_ASSERT(deinitialise_keeps_state, cpuinfo_is_initialized == before);
		}
		const bool ok = cpuinfo_initialize();
		VF_ASSERT(result_is_outcome, ok == (IN.detected != 0));
		VF_ASSERT(detection_ran_once, G.runs == 1);
		VF_ASSERT(run_once_primitive_used, G.once_calls == (uint32_t)i + 1);
		VF_ASSERT(data_intact, !IN.detected || intact());
	}
	cpuinfo_deinitialize();
	VF_ASSERT(data_intact_at_end, !IN.detected || intact());
	VF_ASSERT(still_initialised, cpuinfo_is_initialized == (IN.detected != 0));
	VF_REACH(end);
}
#endif
