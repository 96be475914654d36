/* Upper bound on the cache size: the largest-level cache that is known, and on ARM also the largest
 * last-level cache the core's documentation allows. */
#include "vf.h"
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>

typedef struct {
	bool has[5]; /* l1i l1d l2 l3 l4 */
	struct cpuinfo_cache cache[5];
	uint32_t uarch;
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_core core;
static struct cpuinfo_processor processor;

static uint32_t spec_detected(void) {
	uint32_t i;
	for (i = 4; i >= 1; i--)
		if (IN.has[i]) return IN.cache[i].size;
	return 0;
}
/* largest last-level cache the core can have (KB); 0: always what was detected */
static uint32_t spec_worst_kb(uint32_t uarch) {
	switch (uarch) {
		case cpuinfo_uarch_xscale: case cpuinfo_uarch_arm11:
		case cpuinfo_uarch_scorpion: case cpuinfo_uarch_krait: case cpuinfo_uarch_kryo:
		case cpuinfo_uarch_exynos_m1: case cpuinfo_uarch_exynos_m2: case cpuinfo_uarch_exynos_m3:
			return 0;
		case cpuinfo_uarch_cortex_a5: return 512;
		case cpuinfo_uarch_cortex_a7: case cpuinfo_uarch_cortex_a8: case cpuinfo_uarch_cortex_a9:
		case cpuinfo_uarch_cortex_a35: return 1024;
		case cpuinfo_uarch_cortex_a53: case cpuinfo_uarch_cortex_a57: return 2048;
		case cpuinfo_uarch_cortex_a12: case cpuinfo_uarch_cortex_a17: case cpuinfo_uarch_cortex_a73: return 8192;
		case cpuinfo_uarch_cortex_a15: case cpuinfo_uarch_cortex_a72: return 4096;
		default: return 4096;
	}
}
#define MAX2(a, b) ((a) > (b) ? (a) : (b))
#ifdef UNIT_ARM
#define EXPECT MAX2(spec_detected(), spec_worst_kb(IN.uarch) * 1024)
#define FUNCTION cpuinfo_arm_compute_max_cache_size
#else
#define EXPECT spec_detected()
#define FUNCTION cpuinfo_compute_max_cache_size
#endif
#define MAX_CACHE(REQ, ENS, RET) \
	ENS(bound_on_detected, RET >= spec_detected()) \
	ENS(exact, RET == EXPECT)

uint32_t FUNCTION(const struct cpuinfo_processor* processor) VF_CONTRACT(MAX_CACHE) VF_ASSIGNS();

#ifdef UNIT_ARM
#include <arm/cache.c>
#endif
#include <cache.c>

void harness(void) {
	VF_LOAD();
	core.uarch = (enum cpuinfo_uarch)IN.uarch;
	processor.core = &core;
	processor.cache.l1i = IN.has[0] ? &IN.cache[0] : NULL;
	processor.cache.l1d = IN.has[1] ? &IN.cache[1] : NULL;
	processor.cache.l2 = IN.has[2] ? &IN.cache[2] : NULL;
	processor.cache.l3 = IN.has[3] ? &IN.cache[3] : NULL;
	processor.cache.l4 = IN.has[4] ? &IN.cache[4] : NULL;
	VF_COVER(l4, IN.has[4]);
	VF_COVER(none, !IN.has[4] && !IN.has[3] && !IN.has[2] && !IN.has[1]);
	uint32_t r = FUNCTION(&processor);
	VF_POST(MAX_CACHE, r);
	VF_REACH(end);
}
