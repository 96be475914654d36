/* cpuinfo_x86_init_processor: which CPUID leaf feeds which decoder. The cache, topology and
 * instruction-set decoders are replaced by stubs that record their arguments (they have contracts of
 * their own); vendor, signature and microarchitecture decoders are the real ones. */
#include "vf.h"
#include "vf_cpuid.h"
#include <string.h>

typedef struct {
	struct cpuid_regs leaf0, leaf1, ext0, ext1, brand[3], other;
	struct cpuinfo_x86_processor before;
	struct cpuinfo_x86_isa isa;
} inputs_t;
VF_INPUTS(inputs_t)

static struct cpuid_regs vf_cpuid(uint32_t eax, uint32_t ecx) {
	switch (eax) {
		case 0: return IN.leaf0;
		case 1: return IN.leaf1;
		case UINT32_C(0x80000000): return IN.ext0;
		case UINT32_C(0x80000001): return IN.ext1;
		case UINT32_C(0x80000002): return IN.brand[0];
		case UINT32_C(0x80000003): return IN.brand[1];
		case UINT32_C(0x80000004): return IN.brand[2];
	}
	return IN.other;
}
static uint64_t vf_xgetbv(uint32_t r) { return 0; }

/* ghost record of the calls made */
static struct ghost {
	unsigned cache, topology, isa;
	uint32_t cache_max_base, cache_max_ext, topo_max_base, topo_max_ext, isa_max_base, isa_max_ext;
	bool amd_ext;
	int cache_vendor, isa_vendor, isa_uarch;
	struct cpuid_regs topo_leaf1, isa_basic, isa_ext;
	uint32_t info_family, info_model;
	bool pointers_ok;
} G;
static struct cpuinfo_x86_processor P;

#include <x86/vendor.c>
#include <x86/info.c>
#include <x86/uarch.c>

void cpuinfo_x86_detect_cache(
	uint32_t max_base_index, uint32_t max_extended_index, bool amd_topology_extensions, enum cpuinfo_vendor vendor,
	const struct cpuinfo_x86_model_info* model_info, struct cpuinfo_x86_caches* cache,
	struct cpuinfo_tlb* itlb_4KB, struct cpuinfo_tlb* itlb_2MB, struct cpuinfo_tlb* itlb_4MB,
	struct cpuinfo_tlb* dtlb0_4KB, struct cpuinfo_tlb* dtlb0_2MB, struct cpuinfo_tlb* dtlb0_4MB,
	struct cpuinfo_tlb* dtlb_4KB, struct cpuinfo_tlb* dtlb_2MB, struct cpuinfo_tlb* dtlb_4MB,
	struct cpuinfo_tlb* dtlb_1GB, struct cpuinfo_tlb* stlb2_4KB, struct cpuinfo_tlb* stlb2_2MB,
	struct cpuinfo_tlb* stlb2_1GB, uint32_t* log2_package_cores_max) {
	G.cache++;
	G.cache_max_base = max_base_index;
	G.cache_max_ext = max_extended_index;
	G.amd_ext = amd_topology_extensions;
	G.cache_vendor = vendor;
	G.info_family = model_info->family;
	G.info_model = model_info->model;
	G.pointers_ok = cache == &P.cache && itlb_4KB == &P.tlb.itlb_4KB && itlb_2MB == &P.tlb.itlb_2MB &&
		itlb_4MB == &P.tlb.itlb_4MB && dtlb0_4KB == &P.tlb.dtlb0_4KB && dtlb0_2MB == &P.tlb.dtlb0_2MB &&
		dtlb0_4MB == &P.tlb.dtlb0_4MB && dtlb_4KB == &P.tlb.dtlb_4KB && dtlb_2MB == &P.tlb.dtlb_2MB &&
		dtlb_4MB == &P.tlb.dtlb_4MB && dtlb_1GB == &P.tlb.dtlb_1GB && stlb2_4KB == &P.tlb.stlb2_4KB &&
		stlb2_2MB == &P.tlb.stlb2_2MB && stlb2_1GB == &P.tlb.stlb2_1GB &&
		log2_package_cores_max == &P.topology.core_bits_length;
}
void cpuinfo_x86_detect_topology(
	uint32_t max_base_index, uint32_t max_extended_index, struct cpuid_regs leaf1, struct cpuinfo_x86_topology* topology) {
	G.topology++;
	G.topo_max_base = max_base_index;
	G.topo_max_ext = max_extended_index;
	G.topo_leaf1 = leaf1;
	G.pointers_ok = G.pointers_ok && topology == &P.topology;
}
struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
	const struct cpuid_regs basic_info, const struct cpuid_regs extended_info, uint32_t max_base_index,
	uint32_t max_extended_index, enum cpuinfo_vendor vendor, enum cpuinfo_uarch uarch) {
	G.isa++;
	G.isa_max_base = max_base_index;
	G.isa_max_ext = max_extended_index;
	G.isa_basic = basic_info;
	G.isa_ext = extended_info;
	G.isa_vendor = vendor;
	G.isa_uarch = uarch;
	return IN.isa;
}

static bool same_regs(struct cpuid_regs a, struct cpuid_regs b) {
	return a.eax == b.eax && a.ebx == b.ebx && a.ecx == b.ecx && a.edx == b.edx;
}
static uint32_t reg_of(struct cpuid_regs r, unsigned i) {
	return i == 0 ? r.eax : i == 1 ? r.ebx : i == 2 ? r.ecx : r.edx;
}
static uint8_t brand_byte(unsigned i) {
	return (uint8_t)(reg_of(IN.brand[i / 16], (i % 16) / 4) >> (8 * (i % 4)));
}
static bool spec_brand(void) {
	for (unsigned i = 0; i < 48; i++) {
		if ((uint8_t)P.brand_string[i] != brand_byte(i)) return false;
	}
	return true;
}
static bool brand_kept(void) {
	for (unsigned i = 0; i < 48; i++) {
		if (P.brand_string[i] != IN.before.brand_string[i]) return false;
	}
	return true;
}
static struct cpuid_regs ext_info(void) {
	struct cpuid_regs zero = {0, 0, 0, 0};
	return IN.ext0.eax >= UINT32_C(0x80000001) ? IN.ext1 : zero;
}
#define MAX_EXT (IN.ext0.eax >= UINT32_C(0x80000000) ? IN.ext0.eax : 0)
#define HAS1 (IN.leaf0.eax >= 1)
/* the callees' own contracts are in x86_ident.c */
static uint32_t spec_uarch(void) {
	const struct cpuinfo_x86_model_info ghost_info = cpuinfo_x86_decode_model_info(IN.leaf1.eax);
	return cpuinfo_x86_decode_uarch(cpuinfo_x86_decode_vendor(IN.leaf0.ebx, IN.leaf0.ecx, IN.leaf0.edx), &ghost_info);
}
extern struct cpuinfo_x86_isa cpuinfo_isa;
CPUINFO_INTERNAL uint32_t cpuinfo_x86_clflush_size;

#define INIT(REQ, ENS, RES) \
	ENS(vendor, P.vendor == cpuinfo_x86_decode_vendor(IN.leaf0.ebx, IN.leaf0.ecx, IN.leaf0.edx)) \
	ENS(signature, !HAS1 || P.cpuid == IN.leaf1.eax) \
	ENS(uarch, !HAS1 || P.uarch == spec_uarch()) \
	ENS(clflush, !HAS1 || cpuinfo_x86_clflush_size == ((IN.leaf1.ebx >> 8) & 0xFF) * 8) \
	ENS(decoders_called_once, G.cache == HAS1 && G.topology == HAS1 && G.isa == HAS1) \
	ENS(limits, !HAS1 || (G.cache_max_base == IN.leaf0.eax && G.topo_max_base == IN.leaf0.eax && \
		G.isa_max_base == IN.leaf0.eax && G.cache_max_ext == MAX_EXT && G.topo_max_ext == MAX_EXT && G.isa_max_ext == MAX_EXT)) \
	ENS(leaf1_passed, !HAS1 || (same_regs(G.topo_leaf1, IN.leaf1) && same_regs(G.isa_basic, IN.leaf1))) \
	ENS(extended_leaf_passed, !HAS1 || same_regs(G.isa_ext, ext_info())) \
	ENS(amd_topology_bit, !HAS1 || G.amd_ext == VF_BIT(ext_info().ecx, 22)) \
	ENS(model_passed, !HAS1 || (G.info_family == ((IN.leaf1.eax >> 8) & 15) + ((IN.leaf1.eax >> 20) & 255) && \
		G.info_model == (((IN.leaf1.eax >> 4) & 15) | ((IN.leaf1.eax >> 12) & 0xF0)))) \
	ENS(vendor_passed, !HAS1 || (G.cache_vendor == (int)P.vendor && G.isa_vendor == (int)P.vendor && G.isa_uarch == (int)P.uarch)) \
	ENS(outputs_passed, !HAS1 || G.pointers_ok) \
	ENS(isa_published, !HAS1 || (cpuinfo_isa.avx == IN.isa.avx && cpuinfo_isa.sse3 == IN.isa.sse3 && \
		cpuinfo_isa.lwp == IN.isa.lwp && cpuinfo_isa.rdtscp == IN.isa.rdtscp)) \
	ENS(brand, MAX_EXT < UINT32_C(0x80000004) || spec_brand()) \
	ENS(brand_untouched, MAX_EXT >= UINT32_C(0x80000004) || brand_kept())

void cpuinfo_x86_init_processor(struct cpuinfo_x86_processor* processor)
	VF_CONTRACT(INIT) VF_ASSIGNS(P, G, cpuinfo_isa, cpuinfo_x86_clflush_size);

#include <x86/init.c>

void harness(void) {
	VF_LOAD();
	P = IN.before;
	G = (struct ghost){0};
	VF_COVER(no_leaf1, !HAS1);
	VF_COVER(brand, MAX_EXT >= UINT32_C(0x80000004) && HAS1);
	cpuinfo_x86_init_processor(&P);
	VF_POST(INIT, 0);
	VF_REACH(end);
}
