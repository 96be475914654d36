/* cpuinfo_x86_detect_cache: which leaves are read and in which order their data reach the decoders.
 * The decoders have contracts of their own and are replaced by stubs that record what they were given.
 * Bounds: leaf 2 asks for at most NITER passes; the deterministic leaves list at most NSUB-1 caches. */
#include "vf.h"
#include "vf_cpuid.h"

#ifndef NITER
#define NITER 2
#endif
#ifndef NSUB
#define NSUB 6
#endif
typedef struct {
	uint32_t max_base, max_ext, core_bits;
	bool amd_ext;
	enum cpuinfo_vendor vendor;
	struct cpuid_regs leaf2[NITER], leaf4[NSUB], leaf1d[NSUB];
	uint8_t n4, n1d; /* number of sub-leaves describing a cache */
	uint32_t cores[NSUB];
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_x86_caches C;
static struct cpuinfo_tlb T[13];
static struct cpuinfo_x86_model_info INFO;
static uint32_t BITS;
static struct ghost {
	unsigned read2, desc, n4, n1d;
	uint8_t bytes[NITER * 15];
	bool args_ok, order_ok;
	bool seen4, seen1d, bad_sub;
} G;

static struct cpuid_regs vf_cpuid(uint32_t eax, uint32_t ecx) {
	const struct cpuid_regs zero = {0, 0, 0, 0};
	switch (eax) {
		case 2: {
			const unsigned i = G.read2++;
			return i < NITER ? IN.leaf2[i] : zero;
		}
		case 4:
			if (ecx != G.n4) G.bad_sub = true;
			return ecx < NSUB ? IN.leaf4[ecx] : zero;
		case UINT32_C(0x8000001D):
			if (ecx != G.n1d) G.bad_sub = true;
			return ecx < NSUB ? IN.leaf1d[ecx] : zero;
	}
	G.bad_sub = true;
	return zero;
}
static uint64_t vf_xgetbv(uint32_t r) { return 0; }
static bool same_regs(struct cpuid_regs a, struct cpuid_regs b) {
	return a.eax == b.eax && a.ebx == b.ebx && a.ecx == b.ecx && a.edx == b.edx;
}
void cpuinfo_x86_decode_cache_descriptor(
	uint8_t descriptor, enum cpuinfo_vendor vendor, const struct cpuinfo_x86_model_info* model_info,
	struct cpuinfo_x86_caches* cache, struct cpuinfo_tlb* itlb_4KB, struct cpuinfo_tlb* itlb_2MB,
	struct cpuinfo_tlb* itlb_4MB, struct cpuinfo_tlb* dtlb0_4KB, struct cpuinfo_tlb* dtlb0_2MB,
	struct cpuinfo_tlb* dtlb0_4MB, struct cpuinfo_tlb* dtlb_4KB, struct cpuinfo_tlb* dtlb_2MB,
	struct cpuinfo_tlb* dtlb_4MB, struct cpuinfo_tlb* dtlb_1GB, struct cpuinfo_tlb* stlb2_4KB,
	struct cpuinfo_tlb* stlb2_2MB, struct cpuinfo_tlb* stlb2_1GB, uint32_t* prefetch_size) {
	if (!(vendor == IN.vendor && model_info == &INFO && cache == &C && itlb_4KB == &T[0] && itlb_2MB == &T[1] &&
	      itlb_4MB == &T[2] && dtlb0_4KB == &T[3] && dtlb0_2MB == &T[4] && dtlb0_4MB == &T[5] && dtlb_4KB == &T[6] &&
	      dtlb_2MB == &T[7] && dtlb_4MB == &T[8] && dtlb_1GB == &T[9] && stlb2_4KB == &T[10] && stlb2_2MB == &T[11] &&
	      stlb2_1GB == &T[12] && prefetch_size == &C.prefetch_size))
		G.args_ok = false;
	if (G.n4 != 0 || G.n1d != 0) G.order_ok = false;
	if (descriptor == 0) return; /* decoding a null descriptor changes nothing */
	if (G.desc < NITER * 15) G.bytes[G.desc] = descriptor;
	G.desc++;
}
bool cpuinfo_x86_decode_deterministic_cache_parameters(
	struct cpuid_regs regs, struct cpuinfo_x86_caches* cache, uint32_t* package_cores_max) {
	const unsigned i = G.n4++;
	if (cache != &C || i >= NSUB || !same_regs(regs, IN.leaf4[i])) G.args_ok = false;
	if (i >= IN.n4) return false;
	*package_cores_max = IN.cores[i];
	return true;
}
bool cpuinfo_x86_decode_cache_properties(struct cpuid_regs regs, struct cpuinfo_x86_caches* cache) {
	const unsigned i = G.n1d++;
	if (cache != &C || i >= NSUB || !same_regs(regs, IN.leaf1d[i])) G.args_ok = false;
	return i < IN.n1d;
}

static uint32_t reg_of(struct cpuid_regs r, unsigned i) {
	return i == 0 ? r.eax : i == 1 ? r.ebx : i == 2 ? r.ecx : r.edx;
}
#define ITERS (IN.leaf2[0].eax & 0xFF)
#define LEAF2 (IN.max_base >= 2)
#define LEAF4 (IN.max_base >= 4 && IN.vendor != cpuinfo_vendor_amd && IN.vendor != cpuinfo_vendor_hygon)
#define LEAF1D (IN.amd_ext && IN.max_ext >= UINT32_C(0x8000001D))
/* the non-zero bytes of every pass except byte 0, in order */
static bool spec_descriptors(void) {
	unsigned n = 0;
	for (unsigned it = 0; it < NITER; it++) {
		for (unsigned i = 1; i < 16; i++) {
			const uint8_t b = (uint8_t)(reg_of(IN.leaf2[it], i / 4) >> (8 * (i % 4)));
			if (LEAF2 && it < ITERS && b != 0) {
				if (n >= G.desc || G.bytes[n] != b) return false;
				n++;
			}
		}
	}
	return G.desc == n;
}
static uint32_t spec_bits(uint32_t n) {
	uint32_t b = 0;
	while (b < 32 && (UINT64_C(1) << b) < n) b++;
	return b;
}
#define DETECT(REQ, ENS, RET) \
	REQ(passes, ITERS <= NITER) \
	REQ(sub_leaves, IN.n4 < NSUB && IN.n1d < NSUB) \
	ENS(descriptors, spec_descriptors()) \
	ENS(arguments, G.args_ok) \
	ENS(descriptors_before_leaves, G.order_ok) \
	ENS(leaf4_walk, G.n4 == (LEAF4 ? IN.n4 + 1u : 0u)) \
	ENS(leaf1d_walk, G.n1d == (LEAF1D ? IN.n1d + 1u : 0u)) \
	ENS(leaves_read, !G.bad_sub) \
	ENS(core_bits, BITS == (LEAF4 && IN.n4 != 0 ? spec_bits(IN.cores[IN.n4 - 1]) : IN.core_bits))

void cpuinfo_x86_detect_cache(
	uint32_t max_base_index, uint32_t max_extended_index, bool amd_topology_extensions, enum cpuinfo_vendor vendor,
	const struct cpuinfo_x86_model_info* model_info, struct cpuinfo_x86_caches* cache,
	struct cpuinfo_tlb* itlb_4KB, struct cpuinfo_tlb* itlb_2MB, struct cpuinfo_tlb* itlb_4MB,
	struct cpuinfo_tlb* dtlb0_4KB, struct cpuinfo_tlb* dtlb0_2MB, struct cpuinfo_tlb* dtlb0_4MB,
	struct cpuinfo_tlb* dtlb_4KB, struct cpuinfo_tlb* dtlb_2MB, struct cpuinfo_tlb* dtlb_4MB,
	struct cpuinfo_tlb* dtlb_1GB, struct cpuinfo_tlb* stlb2_4KB, struct cpuinfo_tlb* stlb2_2MB,
	struct cpuinfo_tlb* stlb2_1GB, uint32_t* log2_package_cores_max)
	VF_CONTRACT(DETECT) VF_ASSIGNS(C, T, BITS, G);

#include <x86/cache/init.c>

void harness(void) {
	VF_LOAD();
	for (unsigned i = 0; i < NSUB; i++) VF_ASSUME(IN.cores[i] >= 1 && IN.cores[i] <= 64); /* contract of the leaf 4 decoder */
	G = (struct ghost){.args_ok = true, .order_ok = true};
	BITS = IN.core_bits;
	VF_PRE(DETECT);
	VF_COVER(intel, LEAF4 && IN.n4 == NSUB - 1 && ITERS == NITER);
	VF_COVER(amd, LEAF1D && !LEAF4 && IN.n1d == 3);
	cpuinfo_x86_detect_cache(
		IN.max_base, IN.max_ext, IN.amd_ext, IN.vendor, &INFO, &C, &T[0], &T[1], &T[2], &T[3], &T[4], &T[5], &T[6], &T[7],
		&T[8], &T[9], &T[10], &T[11], &T[12], &BITS);
	VF_POST(DETECT, 0);
	VF_REACH(end);
}
