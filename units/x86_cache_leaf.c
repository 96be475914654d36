/* Deterministic cache leaves: Intel leaf 4 (UNIT_INTEL) and AMD leaf 0x8000001D (UNIT_AMD).
 * Field layout per the manuals:
 *   EAX[4:0] type (0 none, 1 data, 2 instruction, 3 unified), EAX[7:5] level, EAX[25:14] sharing threads - 1,
 *   EAX[31:26] package cores - 1 (leaf 4 only), EBX[11:0] line - 1, EBX[21:12] partitions - 1,
 *   EBX[31:22] ways - 1, ECX sets - 1, EDX[1] inclusive, EDX[2] complex indexing (leaf 4 only). */
#include "vf.h"
#include <cpuinfo.h>
#include <x86/api.h>
#include <x86/cpuid.h>

typedef struct {
	struct cpuid_regs regs;
	struct cpuinfo_x86_caches cache;
	uint32_t cores_max;
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_x86_caches C;
static uint32_t CORES;

#define TYPE (IN.regs.eax & 31)
#define LEVEL ((IN.regs.eax >> 5) & 7)
#define PRESENT (TYPE != 0)
#ifdef UNIT_INTEL
#define LEVELS 4
#define COMPLEX (VF_BIT(IN.regs.edx, 2) ? CPUINFO_CACHE_COMPLEX_INDEXING : 0)
#else
#define LEVELS 3
#define COMPLEX 0
#endif
/* smallest number of bits that can number n things */
static uint32_t spec_bits(uint32_t n) {
	uint32_t b = 0;
	while (b < 13 && (UINT32_C(1) << b) < n) b++;
	return b;
}
static bool spec_is(struct cpuinfo_x86_cache c) {
	const uint32_t ways = (IN.regs.ebx >> 22) + 1, parts = ((IN.regs.ebx >> 12) & 0x3FF) + 1,
		       line = (IN.regs.ebx & 0xFFF) + 1, sets = IN.regs.ecx + 1;
	return c.associativity == ways && c.partitions == parts && c.line_size == line && c.sets == sets &&
		c.size == ways * parts * line * sets && c.apic_bits == spec_bits(((IN.regs.eax >> 14) & 0xFFF) + 1) &&
		c.flags == (uint32_t)((VF_BIT(IN.regs.edx, 1) ? CPUINFO_CACHE_INCLUSIVE : 0) | COMPLEX |
			(TYPE == 3 ? CPUINFO_CACHE_UNIFIED : 0));
}
static bool spec_same(struct cpuinfo_x86_cache a, struct cpuinfo_x86_cache b) {
	return a.size == b.size && a.associativity == b.associativity && a.sets == b.sets && a.partitions == b.partitions &&
		a.line_size == b.line_size && a.flags == b.flags && a.apic_bits == b.apic_bits;
}
#define HAS_L1I (LEVEL == 1 && (TYPE == 2 || TYPE == 3))
#define HAS_L1D (LEVEL == 1 && (TYPE == 1 || TYPE == 3))
#define HAS(n) (LEVEL == (n) && (n) <= LEVELS && (TYPE == 1 || TYPE == 3))
#define LEAF(REQ, ENS, RET) \
	ENS(present, RET == PRESENT) \
	ENS(l1i, HAS_L1I ? spec_is(C.l1i) : spec_same(C.l1i, IN.cache.l1i)) \
	ENS(l1d, HAS_L1D ? spec_is(C.l1d) : spec_same(C.l1d, IN.cache.l1d)) \
	ENS(l2, HAS(2) ? spec_is(C.l2) : spec_same(C.l2, IN.cache.l2)) \
	ENS(l3, HAS(3) ? spec_is(C.l3) : spec_same(C.l3, IN.cache.l3)) \
	ENS(l4, HAS(4) ? spec_is(C.l4) : spec_same(C.l4, IN.cache.l4)) \
	ENS(others, C.trace.uops == IN.cache.trace.uops && C.trace.associativity == IN.cache.trace.associativity && \
		C.prefetch_size == IN.cache.prefetch_size) \
	ENS(package_cores, CORES == (PRESENT && LEVELS == 4 ? (IN.regs.eax >> 26) + 1 : IN.cores_max))

#ifdef UNIT_INTEL
bool cpuinfo_x86_decode_deterministic_cache_parameters(
	struct cpuid_regs regs, struct cpuinfo_x86_caches* cache, uint32_t* package_cores_max)
	VF_CONTRACT(LEAF) VF_ASSIGNS(C, CORES);
#else
bool cpuinfo_x86_decode_cache_properties(struct cpuid_regs regs, struct cpuinfo_x86_caches* cache)
	VF_CONTRACT(LEAF) VF_ASSIGNS(C);
#endif

#include <x86/cache/deterministic.c>

void harness(void) {
	VF_LOAD();
#ifdef SMALL
	/* fallback when the four-factor product cannot be decided over all values */
	VF_ASSUME((IN.regs.ebx & 0xFFF) < 8 && ((IN.regs.ebx >> 12) & 0x3FF) < 8 && (IN.regs.ebx >> 22) < 8 && IN.regs.ecx < 16);
#endif
	C = IN.cache;
	CORES = IN.cores_max;
	VF_COVER(none, !PRESENT);
	VF_COVER(l3, HAS(3) && TYPE == 3);
	VF_COVER(odd, LEVEL == 7 && TYPE == 9);
#ifdef UNIT_INTEL
	bool r = cpuinfo_x86_decode_deterministic_cache_parameters(IN.regs, &C, &CORES);
#else
	bool r = cpuinfo_x86_decode_cache_properties(IN.regs, &C);
#endif
	VF_POST(LEAF, r);
	VF_REACH(end);
}
