/* ARM cache geometry: complete and self-consistent for every core type, cluster size, chipset and architecture version. */
#include "vf.h"
#include <cpuinfo.h>
#include <arm/api.h>

typedef struct {
	uint32_t uarch, cluster_cores, midr, cluster_id, arch_version;
	uint32_t series, model;
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_cache L1I, L1D, L2, L3;
static struct cpuinfo_arm_chipset CHIPSET;

static bool spec_geometry(const struct cpuinfo_cache* c) {
	return c->size != 0 && c->associativity != 0 && c->sets != 0 && c->partitions != 0 && c->line_size != 0 &&
		(c->line_size & (c->line_size - 1)) == 0 &&
		(uint64_t)c->associativity * c->line_size * c->partitions * c->sets == c->size &&
		(c->flags & ~(uint32_t)(CPUINFO_CACHE_UNIFIED | CPUINFO_CACHE_INCLUSIVE | CPUINFO_CACHE_COMPLEX_INDEXING)) == 0;
}
/* clusters of real systems; the sizes of shared caches grow with the cluster and are kept in 32 bits */
#define CLUSTER_MAX 1024
/* an XScale core is only ever identified from these part numbers (postcondition of cpuinfo_arm_decode_vendor_uarch) */
#define PXA(midr) ((((midr) >> 12) & 15) == 2 || (((midr) >> 12) & 15) == 4 || (((midr) >> 12) & 15) == 6)
#define CACHE(REQ, ENS, RET) \
	REQ(cluster_size, IN.cluster_cores <= CLUSTER_MAX) \
	REQ(xscale_is_pxa, IN.uarch != cpuinfo_uarch_xscale || PXA(IN.midr)) \
	ENS(l1i_complete, spec_geometry(&L1I)) \
	ENS(l1d_complete, spec_geometry(&L1D)) \
	ENS(l2_consistent, L2.size == 0 || spec_geometry(&L2)) \
	ENS(l3_consistent, L3.size == 0 || spec_geometry(&L3)) \
	ENS(l3_implies_l2, L3.size == 0 || L2.size != 0) \
	ENS(no_sharing_set, L1I.processor_start == 0 && L1I.processor_count == 0 && L1D.processor_start == 0 && \
		L1D.processor_count == 0 && L2.processor_start == 0 && L2.processor_count == 0 && L3.processor_start == 0 && \
		L3.processor_count == 0)

void cpuinfo_arm_decode_cache(
	enum cpuinfo_uarch uarch,
	uint32_t cluster_cores,
	uint32_t midr,
	const struct cpuinfo_arm_chipset chipset[RESTRICT_STATIC 1],
	uint32_t cluster_id,
	uint32_t arch_version,
	struct cpuinfo_cache l1i[RESTRICT_STATIC 1],
	struct cpuinfo_cache l1d[RESTRICT_STATIC 1],
	struct cpuinfo_cache l2[RESTRICT_STATIC 1],
	struct cpuinfo_cache l3[RESTRICT_STATIC 1]) VF_CONTRACT(CACHE) VF_ASSIGNS(L1I, L1D, L2, L3);

#include <arm/cache.c>
#include <cache.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(CACHE);
	/* callers pass cleared records */
	L1I = L1D = L2 = L3 = (struct cpuinfo_cache){0};
	CHIPSET = (struct cpuinfo_arm_chipset){0};
	CHIPSET.series = (enum cpuinfo_arm_chipset_series)IN.series;
	CHIPSET.model = IN.model;
	VF_COVER(known, IN.uarch == cpuinfo_uarch_cortex_a55);
	VF_COVER(unknown, IN.uarch == cpuinfo_uarch_unknown);
	cpuinfo_arm_decode_cache((enum cpuinfo_uarch)IN.uarch, IN.cluster_cores, IN.midr, &CHIPSET, IN.cluster_id, IN.arch_version,
		&L1I, &L1D, &L2, &L3);
	VF_POST(CACHE, 0);
	VF_REACH(end);
}
