/* cpuinfo_x86_detect_topology.
 * Legacy (leaf 1): APIC ID = EBX[31:24]; with HTT, AMD CmpLegacy gives cores per package in leaf 0x80000008
 * ECX[7:0]+1 (or EBX[23:16]), otherwise EBX[23:16] logical processors share log2 bits between threads and the
 * core bits found in leaf 4. x2APIC (leaf 0xB): EAX[4:0] of a level counts all APIC ID bits below the next
 * level, so a level's own field starts at the previous level's shift. UNIT_LEGACY has no loop and covers every
 * input without leaf 0xB; UNIT_X2APIC walks at most LEVELS levels. */
#include "vf.h"
#include "vf_cpuid.h"

#ifndef LEVELS
#define LEVELS 6
#endif
typedef struct {
	uint32_t max_base, max_ext, core_bits, apic_id;
	struct cpuid_regs leaf1, ext1, ext8, leafB[LEVELS + 1];
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_x86_topology T;
static struct ghost { bool undeclared; uint32_t nextB; } G;

static struct cpuid_regs vf_cpuid(uint32_t eax, uint32_t ecx) {
	const struct cpuid_regs zero = {0, 0, 0, 0};
	if (eax < UINT32_C(0x80000000) ? eax > IN.max_base : eax > IN.max_ext) G.undeclared = true;
	switch (eax) {
		case 1: return IN.leaf1;
		case 0xB: return ecx <= LEVELS ? IN.leafB[ecx] : zero;
		case UINT32_C(0x80000001): return IN.ext1;
		case UINT32_C(0x80000008): return IN.ext8;
	}
	return zero;
}
static uint64_t vf_xgetbv(uint32_t r) { return 0; }

/* smallest number of bits that can number n things */
static uint32_t spec_bits(uint32_t n) {
	uint32_t b = 0;
	while (b < 9 && (UINT32_C(1) << b) < n) b++;
	return b;
}
#define HTT VF_BIT(IN.leaf1.edx, 28)
#define X2APIC (VF_BIT(IN.leaf1.ecx, 21) && IN.max_base >= 0xB)
#define CMP (IN.max_ext >= UINT32_C(0x80000001) && VF_BIT(IN.ext1.ecx, 1))
#define LOGICAL ((IN.leaf1.ebx >> 16) & 0xFF)
#define TYPE(i) ((IN.leafB[i].ecx >> 8) & 0xFF)
#define SHIFT(i) (IN.leafB[i].eax & 31)

static struct cpuinfo_x86_topology spec(void) {
	struct cpuinfo_x86_topology t = {0, 0, 0, 0, IN.core_bits};
	if (HTT) {
		t.apic_id = IN.leaf1.ebx >> 24;
		if (CMP) {
			if (IN.max_ext >= UINT32_C(0x80000008)) {
				t.core_bits_length = spec_bits(1 + (IN.ext8.ecx & 0xFF));
			} else if (LOGICAL != 0) {
				t.core_bits_length = spec_bits(LOGICAL);
			}
		} else if (LOGICAL != 0) {
			const uint32_t all = spec_bits(LOGICAL);
			t.thread_bits_length = all > IN.core_bits ? all - IN.core_bits : 0;
			t.core_bits_offset = t.thread_bits_length;
		}
	}
	if (X2APIC) {
		uint32_t below = 0;
		t = (struct cpuinfo_x86_topology){IN.leafB[0].edx, 0, 0, 0, 0};
		for (unsigned i = 0; i < LEVELS; i++) {
			if (TYPE(i) == 0) break;
			const uint32_t next = SHIFT(i) > below ? SHIFT(i) : below;
			if (TYPE(i) == 1) {
				t.thread_bits_offset = below;
				t.thread_bits_length = next - below;
			} else if (TYPE(i) == 2) {
				t.core_bits_offset = below;
				t.core_bits_length = next - below;
			}
			below = next;
		}
	}
	return t;
}
/* each level type listed once, widths never shrinking; other data are malformed */
static bool well_formed(void) {
	unsigned smt = 0, core = 0;
	uint32_t below = 0;
	if (!X2APIC) return true;
	for (unsigned i = 0; i < LEVELS; i++) {
		if (TYPE(i) == 0) break;
		smt += TYPE(i) == 1;
		core += TYPE(i) == 2;
		if (SHIFT(i) < below) return false;
		below = SHIFT(i);
	}
	return smt <= 1 && core <= 1;
}
static bool levels_end(void) {
	for (unsigned i = 0; i <= LEVELS; i++)
		if (TYPE(i) == 0) return true;
	return false;
}
static bool one_id(void) {
	for (unsigned i = 1; i <= LEVELS; i++)
		if (IN.leafB[i].edx != IN.leafB[0].edx) return false;
	return true;
}
#define THREAD_END (T.thread_bits_offset + T.thread_bits_length)
#define CORE_END (T.core_bits_offset + T.core_bits_length)
#define TOPOLOGY(REQ, ENS, RET) \
	REQ(core_bits_of_leaf4, IN.core_bits <= 6) \
	REQ(enumeration_ends, levels_end()) \
	REQ(x2apic_id_same_in_all_levels, one_id()) \
	ENS(apic_id, T.apic_id == spec().apic_id) \
	ENS(thread_offset, !well_formed() || T.thread_bits_offset == spec().thread_bits_offset) \
	ENS(thread_length, !well_formed() || T.thread_bits_length == spec().thread_bits_length) \
	ENS(core_offset, !well_formed() || T.core_bits_offset == spec().core_bits_offset) \
	ENS(core_length, !well_formed() || T.core_bits_length == spec().core_bits_length) \
	ENS(fields_fit, T.thread_bits_offset < 32 && T.thread_bits_length < 32 && THREAD_END < 32 && \
		T.core_bits_offset < 32 && T.core_bits_length < 32 && CORE_END < 32) \
	ENS(fields_disjoint, T.thread_bits_length == 0 || T.core_bits_length == 0 || \
		THREAD_END <= T.core_bits_offset || CORE_END <= T.thread_bits_offset) \
	ENS(only_declared_leaves, !G.undeclared)

void cpuinfo_x86_detect_topology(
	uint32_t max_base_index, uint32_t max_extended_index, struct cpuid_regs leaf1, struct cpuinfo_x86_topology* topology)
	VF_CONTRACT(TOPOLOGY) VF_ASSIGNS(T, G);

#include <x86/topology.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(TOPOLOGY);
#ifdef UNIT_LEGACY
	VF_ASSUME(!X2APIC);
	VF_COVER(cmp, HTT && CMP);
	VF_COVER(intel, HTT && !CMP && LOGICAL == 255);
#else
	VF_ASSUME(X2APIC);
	VF_COVER(levels, TYPE(LEVELS - 1) != 0);
	VF_COVER(usual, well_formed() && TYPE(0) == 1 && TYPE(1) == 2 && TYPE(2) == 0 && SHIFT(0) == 1 && SHIFT(1) == 6);
#endif
	T = (struct cpuinfo_x86_topology){0, 0, 0, 0, IN.core_bits};
	G = (struct ghost){0};
	cpuinfo_x86_detect_topology(IN.max_base, IN.max_ext, IN.leaf1, &T);
	VF_POST(TOPOLOGY, 0);
	VF_REACH(end);
}
