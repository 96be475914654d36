/* cpuinfo_x86_decode_cache_descriptor: the whole one-byte descriptor table. The rows below are the
 * descriptors of the Intel SDM (CPUID leaf 2), Application Note 485 and the Cyrix/Geode manuals:
 *   CACHE(descriptor, which, size in KB, ways, line size)  TLB(descriptor, which, entries, ways, pages)
 */
#include "vf.h"
#include <cpuinfo.h>
#include <x86/api.h>

#define P4KB 0x1000
#define P2MB 0x200000
#define P4MB 0x400000
#define P1GB 0x40000000
#define ROWS(CACHE, TLB, TRACE) \
	TLB(0x01, itlb_4KB, 32, 4, P4KB) \
	TLB(0x02, itlb_4MB, 2, 2, P4MB) \
	TLB(0x03, dtlb_4KB, 64, 4, P4KB) \
	TLB(0x04, dtlb_4MB, 8, 4, P4MB) \
	TLB(0x05, dtlb_4MB, 32, 4, P4MB) \
	CACHE(0x06, l1i, 8, 4, 32) \
	CACHE(0x08, l1i, 16, 4, 32) \
	CACHE(0x09, l1i, 32, 4, 64) \
	CACHE(0x0A, l1d, 8, 2, 32) \
	TLB(0x0B, itlb_4MB, 4, 4, P4MB) \
	CACHE(0x0C, l1d, 16, 4, 32) \
	CACHE(0x0D, l1d, 16, 4, 64) \
	CACHE(0x0E, l1d, 24, 6, 64) \
	CACHE(0x1D, l2, 128, 2, 64) \
	CACHE(0x21, l2, 256, 8, 64) \
	CACHE(0x22, l3, 512, 4, 64) \
	CACHE(0x23, l3, 1024, 8, 64) \
	CACHE(0x24, l2, 1024, 16, 64) \
	CACHE(0x25, l3, 2048, 8, 64) \
	CACHE(0x29, l3, 4096, 8, 64) \
	CACHE(0x2C, l1d, 32, 8, 64) \
	CACHE(0x30, l1i, 32, 8, 64) \
	CACHE(0x39, l2, 128, 4, 64) \
	CACHE(0x3A, l2, 192, 6, 64) \
	CACHE(0x3B, l2, 128, 2, 64) \
	CACHE(0x3C, l2, 256, 4, 64) \
	CACHE(0x3D, l2, 384, 6, 64) \
	CACHE(0x3E, l2, 512, 4, 64) \
	CACHE(0x41, l2, 128, 4, 32) \
	CACHE(0x42, l2, 256, 4, 32) \
	CACHE(0x43, l2, 512, 4, 32) \
	CACHE(0x44, l2, 1024, 4, 32) \
	CACHE(0x45, l2, 2048, 4, 32) \
	CACHE(0x46, l3, 4096, 4, 64) \
	CACHE(0x47, l3, 8192, 8, 64) \
	CACHE(0x48, l2, 3072, 12, 64) \
	CACHE(0x4A, l3, 6144, 12, 64) \
	CACHE(0x4B, l3, 8192, 16, 64) \
	CACHE(0x4C, l3, 12288, 12, 64) \
	CACHE(0x4D, l3, 16384, 16, 64) \
	CACHE(0x4E, l2, 6144, 24, 64) \
	TLB(0x4F, itlb_4KB, 32, 32, P4KB) \
	TLB(0x50, itlb_4KB, 64, 64, P4KB|P2MB|P4MB) \
	TLB(0x50, itlb_2MB, 64, 64, P4KB|P2MB|P4MB) \
	TLB(0x50, itlb_4MB, 64, 64, P4KB|P2MB|P4MB) \
	TLB(0x51, itlb_4KB, 128, 128, P4KB|P2MB|P4MB) \
	TLB(0x51, itlb_2MB, 128, 128, P4KB|P2MB|P4MB) \
	TLB(0x51, itlb_4MB, 128, 128, P4KB|P2MB|P4MB) \
	TLB(0x52, itlb_4KB, 256, 256, P4KB|P2MB|P4MB) \
	TLB(0x52, itlb_2MB, 256, 256, P4KB|P2MB|P4MB) \
	TLB(0x52, itlb_4MB, 256, 256, P4KB|P2MB|P4MB) \
	TLB(0x55, itlb_2MB, 7, 7, P2MB|P4MB) \
	TLB(0x55, itlb_4MB, 7, 7, P2MB|P4MB) \
	TLB(0x56, dtlb0_4MB, 16, 4, P4MB) \
	TLB(0x57, dtlb0_4KB, 16, 4, P4KB) \
	TLB(0x59, dtlb0_4KB, 16, 16, P4KB) \
	TLB(0x5A, dtlb0_2MB, 32, 4, P2MB|P4MB) \
	TLB(0x5A, dtlb0_4MB, 32, 4, P2MB|P4MB) \
	TLB(0x5B, dtlb_4KB, 64, 64, P4KB|P4MB) \
	TLB(0x5B, dtlb_4MB, 64, 64, P4KB|P4MB) \
	TLB(0x5C, dtlb_4KB, 128, 128, P4KB|P4MB) \
	TLB(0x5C, dtlb_4MB, 128, 128, P4KB|P4MB) \
	TLB(0x5D, dtlb_4KB, 256, 256, P4KB|P4MB) \
	TLB(0x5D, dtlb_4MB, 256, 256, P4KB|P4MB) \
	CACHE(0x60, l1d, 16, 8, 64) \
	TLB(0x61, itlb_4KB, 48, 48, P4KB) \
	TLB(0x63, dtlb_2MB, 32, 4, P2MB|P4MB) \
	TLB(0x63, dtlb_4MB, 32, 4, P2MB|P4MB) \
	TLB(0x63, dtlb_1GB, 4, 4, P1GB) \
	TLB(0x64, dtlb_4KB, 512, 4, P4KB) \
	CACHE(0x66, l1d, 8, 4, 64) \
	CACHE(0x67, l1d, 16, 4, 64) \
	CACHE(0x68, l1d, 32, 4, 64) \
	TLB(0x6A, dtlb_4KB, 64, 8, P4KB) \
	TLB(0x6B, dtlb_4KB, 256, 8, P4KB) \
	TLB(0x6C, dtlb_2MB, 128, 8, P2MB|P4MB) \
	TLB(0x6C, dtlb_4MB, 128, 8, P2MB|P4MB) \
	TLB(0x6D, dtlb_1GB, 16, 16, P1GB) \
	TRACE(0x71, 16, 8) \
	TRACE(0x72, 32, 8) \
	TRACE(0x73, 64, 8) \
	TLB(0x76, itlb_2MB, 8, 8, P2MB|P4MB) \
	TLB(0x76, itlb_4MB, 8, 8, P2MB|P4MB) \
	CACHE(0x78, l2, 1024, 4, 64) \
	CACHE(0x79, l2, 128, 8, 64) \
	CACHE(0x7A, l2, 256, 8, 64) \
	CACHE(0x7B, l2, 512, 8, 64) \
	CACHE(0x7C, l2, 1024, 8, 64) \
	CACHE(0x7D, l2, 2048, 8, 64) \
	CACHE(0x7F, l2, 512, 2, 64) \
	CACHE(0x82, l2, 256, 8, 32) \
	CACHE(0x83, l2, 512, 8, 32) \
	CACHE(0x84, l2, 1024, 8, 32) \
	CACHE(0x85, l2, 2048, 8, 32) \
	CACHE(0x86, l2, 512, 4, 64) \
	CACHE(0x87, l2, 1024, 8, 64) \
	TLB(0xA0, dtlb_4KB, 32, 32, P4KB) \
	TLB(0xB0, itlb_4KB, 128, 4, P4KB) \
	TLB(0xB1, itlb_2MB, 8, 4, P2MB|P4MB) \
	TLB(0xB1, itlb_4MB, 4, 4, P2MB|P4MB) \
	TLB(0xB2, itlb_4KB, 64, 4, P4KB) \
	TLB(0xB3, dtlb_4KB, 128, 4, P4KB) \
	TLB(0xB4, dtlb_4KB, 256, 4, P4KB) \
	TLB(0xB5, itlb_4KB, 64, 8, P4KB) \
	TLB(0xB6, itlb_4KB, 128, 8, P4KB) \
	TLB(0xBA, dtlb_4KB, 64, 4, P4KB) \
	TLB(0xC0, dtlb_4KB, 8, 4, P4KB|P4MB) \
	TLB(0xC0, dtlb_4MB, 8, 4, P4KB|P4MB) \
	TLB(0xC1, stlb2_4KB, 1024, 8, P4KB|P2MB) \
	TLB(0xC1, stlb2_2MB, 1024, 8, P4KB|P2MB) \
	TLB(0xC2, dtlb_4KB, 16, 4, P4KB|P2MB) \
	TLB(0xC2, dtlb_2MB, 16, 4, P4KB|P2MB) \
	TLB(0xC3, stlb2_4KB, 1536, 6, P4KB|P2MB) \
	TLB(0xC3, stlb2_2MB, 1536, 6, P4KB|P2MB) \
	TLB(0xC3, stlb2_1GB, 16, 4, P1GB) \
	TLB(0xC4, dtlb_2MB, 32, 4, P2MB|P4MB) \
	TLB(0xC4, dtlb_4MB, 32, 4, P2MB|P4MB) \
	TLB(0xCA, stlb2_4KB, 512, 4, P4KB) \
	CACHE(0xD0, l3, 512, 4, 64) \
	CACHE(0xD1, l3, 1024, 4, 64) \
	CACHE(0xD2, l3, 2048, 4, 64) \
	CACHE(0xD6, l3, 1024, 8, 64) \
	CACHE(0xD7, l3, 2048, 8, 64) \
	CACHE(0xD8, l3, 4096, 8, 64) \
	CACHE(0xDC, l3, 1536, 12, 64) \
	CACHE(0xDD, l3, 3072, 12, 64) \
	CACHE(0xDE, l3, 6144, 12, 64) \
	CACHE(0xE2, l3, 2048, 16, 64) \
	CACHE(0xE3, l3, 4096, 16, 64) \
	CACHE(0xE4, l3, 8192, 16, 64) \
	CACHE(0xEA, l3, 12288, 24, 64) \
	CACHE(0xEB, l3, 18432, 24, 64) \
	CACHE(0xEC, l3, 24576, 24, 64)

struct tlbs {
	struct cpuinfo_tlb itlb_4KB, itlb_2MB, itlb_4MB, dtlb0_4KB, dtlb0_2MB, dtlb0_4MB, dtlb_4KB, dtlb_2MB, dtlb_4MB,
		dtlb_1GB, stlb2_4KB, stlb2_2MB, stlb2_1GB;
};
typedef struct {
	uint8_t descriptor;
	enum cpuinfo_vendor vendor;
	struct cpuinfo_x86_model_info info;
	struct cpuinfo_x86_caches cache;
	struct tlbs tlb;
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_x86_caches C;
/* one object per TLB description */
static struct cpuinfo_tlb T_itlb_4KB, T_itlb_2MB, T_itlb_4MB, T_dtlb0_4KB, T_dtlb0_2MB, T_dtlb0_4MB, T_dtlb_4KB,
	T_dtlb_2MB, T_dtlb_4MB, T_dtlb_1GB, T_stlb2_4KB, T_stlb2_2MB, T_stlb2_1GB;

#if CPUINFO_ARCH_X86
#define CYRIX (IN.vendor == cpuinfo_vendor_cyrix || IN.vendor == cpuinfo_vendor_nsc)
#else
#define CYRIX 0
#endif
/* does the row of this descriptor speak about `which`? kept apart from the values */
enum which {
	w_l1i, w_l1d, w_l2, w_l3, w_itlb_4KB, w_itlb_2MB, w_itlb_4MB, w_dtlb0_4KB, w_dtlb0_2MB, w_dtlb0_4MB, w_dtlb_4KB, w_dtlb_2MB, w_dtlb_4MB,
	w_dtlb_1GB, w_stlb2_4KB, w_stlb2_2MB, w_stlb2_1GB
};
#define XEON_MP (IN.vendor == cpuinfo_vendor_intel && IN.info.family == 0x0F && IN.info.model == 0x06)

static struct cpuinfo_x86_cache make_cache(uint32_t kb, uint32_t ways, uint32_t line, uint32_t flags) {
	const struct cpuinfo_x86_cache c = {
		.size = kb * 1024, .associativity = ways, .sets = kb * 1024 / (ways * line), .partitions = 1,
		.line_size = line, .flags = flags, .apic_bits = 0};
	return c;
}
static struct cpuinfo_x86_cache spec_cache(enum which w, struct cpuinfo_x86_cache before) {
	const uint8_t d = IN.descriptor;
	if (d == 0x49)
		return w == (XEON_MP ? w_l3 : w_l2) ? make_cache(4096, 16, 64, CPUINFO_CACHE_INCLUSIVE) : before;
	if (d == 0x80) {
		if (CYRIX) return w == w_l1i || w == w_l1d ? make_cache(16, 4, 16, CPUINFO_CACHE_UNIFIED) : before;
		return w == w_l2 ? make_cache(512, 8, 64, CPUINFO_CACHE_INCLUSIVE) : before;
	}
#define CACHE(desc, which, kb, ways, line) \
	if (d == desc && w == w_##which) return make_cache(kb, ways, line, w_##which == w_l2 || w_##which == w_l3 ? CPUINFO_CACHE_INCLUSIVE : 0);
#define TLB(...)
#define TRACE(...)
	ROWS(CACHE, TLB, TRACE)
#undef CACHE
#undef TLB
#undef TRACE
	return before;
}
static struct cpuinfo_tlb spec_tlb(enum which w, struct cpuinfo_tlb before) {
	const uint8_t d = IN.descriptor;
	if (d == 0x70 && CYRIX && (w == w_itlb_4KB || w == w_dtlb_4KB)) return (struct cpuinfo_tlb){32, 4, P4KB};
#define CACHE(...)
#define TRACE(...)
#define TLB(desc, which, n, ways, p) if (d == desc && w == w_##which) return (struct cpuinfo_tlb){n, ways, p};
	ROWS(CACHE, TLB, TRACE)
#undef CACHE
#undef TLB
#undef TRACE
	return before;
}
static struct cpuinfo_trace_cache spec_trace(struct cpuinfo_trace_cache before) {
	const uint8_t d = IN.descriptor;
	if (d == 0x70) return CYRIX ? before : (struct cpuinfo_trace_cache){12 * 1024, 8};
#define CACHE(...)
#define TLB(...)
#define TRACE(desc, kuops, ways) if (d == desc) return (struct cpuinfo_trace_cache){kuops * 1024, ways};
	ROWS(CACHE, TLB, TRACE)
	return before;
}
static bool same_cache(struct cpuinfo_x86_cache a, struct cpuinfo_x86_cache b) {
	return a.size == b.size && a.associativity == b.associativity && a.sets == b.sets && a.partitions == b.partitions &&
		a.line_size == b.line_size && a.flags == b.flags && a.apic_bits == b.apic_bits;
}
static bool same_tlb(struct cpuinfo_tlb a, struct cpuinfo_tlb b) {
	return a.entries == b.entries && a.associativity == b.associativity && a.pages == b.pages;
}
static bool same_trace(struct cpuinfo_trace_cache a, struct cpuinfo_trace_cache b) {
	return a.uops == b.uops && a.associativity == b.associativity;
}
#define EC(ENS, w) ENS(w##_cache, same_cache(C.w, spec_cache(w_##w, IN.cache.w)))
#define ET(ENS, w) ENS(w, same_tlb(T_##w, spec_tlb(w_##w, IN.tlb.w)))
#define DESCRIPTOR(REQ, ENS, RET) \
	EC(ENS, l1i) EC(ENS, l1d) EC(ENS, l2) EC(ENS, l3) \
	ENS(l4_cache, same_cache(C.l4, IN.cache.l4)) \
	ENS(trace_cache, same_trace(C.trace, spec_trace(IN.cache.trace))) \
	ENS(prefetch, C.prefetch_size == (IN.descriptor == 0xF0 ? 64 : IN.descriptor == 0xF1 ? 128 : IN.cache.prefetch_size)) \
	ET(ENS, itlb_4KB) ET(ENS, itlb_2MB) ET(ENS, itlb_4MB) ET(ENS, dtlb0_4KB) ET(ENS, dtlb0_2MB) ET(ENS, dtlb0_4MB) \
	ET(ENS, dtlb_4KB) ET(ENS, dtlb_2MB) ET(ENS, dtlb_4MB) ET(ENS, dtlb_1GB) ET(ENS, stlb2_4KB) ET(ENS, stlb2_2MB) \
	ET(ENS, stlb2_1GB)

void cpuinfo_x86_decode_cache_descriptor(
	uint8_t descriptor, enum cpuinfo_vendor vendor, const struct cpuinfo_x86_model_info* model_info,
	struct cpuinfo_x86_caches* cache, struct cpuinfo_tlb* itlb_4KB, struct cpuinfo_tlb* itlb_2MB,
	struct cpuinfo_tlb* itlb_4MB, struct cpuinfo_tlb* dtlb0_4KB, struct cpuinfo_tlb* dtlb0_2MB,
	struct cpuinfo_tlb* dtlb0_4MB, struct cpuinfo_tlb* dtlb_4KB, struct cpuinfo_tlb* dtlb_2MB,
	struct cpuinfo_tlb* dtlb_4MB, struct cpuinfo_tlb* dtlb_1GB, struct cpuinfo_tlb* stlb2_4KB,
	struct cpuinfo_tlb* stlb2_2MB, struct cpuinfo_tlb* stlb2_1GB, uint32_t* prefetch_size)
	VF_CONTRACT(DESCRIPTOR) VF_ASSIGNS(
		C, T_itlb_4KB, T_itlb_2MB, T_itlb_4MB, T_dtlb0_4KB, T_dtlb0_2MB, T_dtlb0_4MB, T_dtlb_4KB, T_dtlb_2MB, T_dtlb_4MB,
		T_dtlb_1GB, T_stlb2_4KB, T_stlb2_2MB, T_stlb2_1GB);

#include <x86/cache/descriptor.c>

void harness(void) {
	VF_LOAD();
	C = IN.cache;
	T_itlb_4KB = IN.tlb.itlb_4KB;
	T_itlb_2MB = IN.tlb.itlb_2MB;
	T_itlb_4MB = IN.tlb.itlb_4MB;
	T_dtlb0_4KB = IN.tlb.dtlb0_4KB;
	T_dtlb0_2MB = IN.tlb.dtlb0_2MB;
	T_dtlb0_4MB = IN.tlb.dtlb0_4MB;
	T_dtlb_4KB = IN.tlb.dtlb_4KB;
	T_dtlb_2MB = IN.tlb.dtlb_2MB;
	T_dtlb_4MB = IN.tlb.dtlb_4MB;
	T_dtlb_1GB = IN.tlb.dtlb_1GB;
	T_stlb2_4KB = IN.tlb.stlb2_4KB;
	T_stlb2_2MB = IN.tlb.stlb2_2MB;
	T_stlb2_1GB = IN.tlb.stlb2_1GB;
	VF_COVER(reserved, IN.descriptor == 0xFE);
	VF_COVER(table, IN.descriptor == 0xC3);
	cpuinfo_x86_decode_cache_descriptor(
		IN.descriptor, IN.vendor, &IN.info, &C, &T_itlb_4KB, &T_itlb_2MB, &T_itlb_4MB, &T_dtlb0_4KB, &T_dtlb0_2MB,
		&T_dtlb0_4MB, &T_dtlb_4KB, &T_dtlb_2MB, &T_dtlb_4MB, &T_dtlb_1GB, &T_stlb2_4KB, &T_stlb2_2MB, &T_stlb2_1GB,
		&C.prefetch_size);
	VF_POST(DESCRIPTOR, 0);
	VF_REACH(end);
}
