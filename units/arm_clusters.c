/* Grouping of ARM processors into clusters when the kernel's sibling lists are missing or incomplete.
 * UNIT_HEURISTIC: typical cluster sizes. UNIT_SCAN: sequential scan. UNIT_COUNT: cluster sizes.
 * Bounded: N processor records of any content; USABLE: number of usable ones (UNIT_HEURISTIC). */
#include "vf.h"
#include <cpuinfo.h>
#include <linux/api.h>
#include <arm/linux/api.h>

typedef struct {
	struct cpuinfo_arm_linux_processor a[N];
	uint8_t p, q; /* arbitrary records */
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_arm_linux_processor T[N];

/* flags: usable, sibling list seen, frequencies and register parts known */
#define VALID CPUINFO_LINUX_FLAG_VALID
#define LISTED CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER
#define USABLE_(i) ((IN.a[i].flags & VALID) == VALID)
#define REPORTED(i) ((IN.a[i].flags & LISTED) != 0)
#define KNOWN(i, flag) ((IN.a[i].flags & (flag)) != 0)
#define DIFFER(i, j, flag, field, mask) (KNOWN(i, flag) && KNOWN(j, flag) && ((IN.a[i].field ^ IN.a[j].field) & (mask)) != 0)
static bool differ(uint32_t i, uint32_t j) {
	return DIFFER(i, j, CPUINFO_LINUX_FLAG_MIN_FREQUENCY, min_frequency, UINT32_MAX) ||
		DIFFER(i, j, CPUINFO_LINUX_FLAG_MAX_FREQUENCY, max_frequency, UINT32_MAX) ||
		DIFFER(i, j, CPUINFO_ARM_LINUX_VALID_IMPLEMENTER, midr, UINT32_C(0xFF000000)) ||
		DIFFER(i, j, CPUINFO_ARM_LINUX_VALID_VARIANT, midr, UINT32_C(0x00F00000)) ||
		DIFFER(i, j, CPUINFO_ARM_LINUX_VALID_PART, midr, UINT32_C(0x0000FFF0)) ||
		DIFFER(i, j, CPUINFO_ARM_LINUX_VALID_REVISION, midr, UINT32_C(0x0000000F));
}
/* sibling lists name the lowest processor of the cluster as leader */
static bool lists_ok(void) {
	for (uint32_t i = 0; i < N; i++) {
		if (!USABLE_(i)) continue;
		uint32_t l = IN.a[i].package_leader_id;
		if (!REPORTED(i) ? l != i : l > i || !USABLE_(l) || !REPORTED(l) || IN.a[l].package_leader_id != l) return false;
	}
	return true;
}
/* everything but the cluster assignment */
#ifdef __arm__
#define SAME_CACHE(i) \
	(T[i].architecture_flags == IN.a[i].architecture_flags && T[i].proc_cpuinfo_cache.i_size == IN.a[i].proc_cpuinfo_cache.i_size && \
		T[i].proc_cpuinfo_cache.d_size == IN.a[i].proc_cpuinfo_cache.d_size)
#else
#define SAME_CACHE(i) true
#endif
#define SAME_REST(i) \
	(T[i].midr == IN.a[i].midr && T[i].features == IN.a[i].features && T[i].features2 == IN.a[i].features2 && T[i].vendor == IN.a[i].vendor && \
		T[i].uarch == IN.a[i].uarch && T[i].uarch_index == IN.a[i].uarch_index && T[i].package_id == IN.a[i].package_id && \
		T[i].max_frequency == IN.a[i].max_frequency && T[i].min_frequency == IN.a[i].min_frequency && \
		T[i].architecture_version == IN.a[i].architecture_version && T[i].system_processor_id == IN.a[i].system_processor_id && SAME_CACHE(i))
#define SAME_COUNT(i) (T[i].package_processor_count == IN.a[i].package_processor_count)
#define SAME_CLUSTER(i) (T[i].package_leader_id == IN.a[i].package_leader_id && T[i].flags == IN.a[i].flags)
#define SAME(i) (SAME_REST(i) && SAME_COUNT(i) && SAME_CLUSTER(i))

#if defined(UNIT_HEURISTIC)
/* position among the usable processors, first processor of the expected cluster, whether the expectation contradicts the reports */
static uint32_t position[N], start[N];
static bool contradicted;
#define FIRST(k) ((k) == 0 || (k) == 4 || ((k) == 8 && USABLE == 10))
static void expect(void) {
	uint32_t k = 0, first = 0;
	for (uint32_t i = 0; i < N; i++) {
		position[i] = k;
		if (!USABLE_(i)) continue;
		if (FIRST(k)) first = i;
		start[i] = first;
		k++;
		if (REPORTED(i) != REPORTED(first) || (REPORTED(i) && IN.a[i].package_leader_id != first)) contradicted = true;
		for (uint32_t j = 0; j < i; j++)
			if (USABLE_(j) && start[j] == first && !REPORTED(first) && differ(i, j)) contradicted = true;
	}
	VF_ASSUME(k == USABLE);
}
#define CLUSTERS(REQ, ENS, RET) \
	REQ(choice, IN.p < N && lists_ok()) \
	ENS(result, (RET) == (!contradicted && (USABLE == 6 || USABLE == 8 || USABLE == 10))) \
	ENS(others_unchanged, SAME_REST(IN.p) && SAME_COUNT(IN.p)) \
	ENS(unchanged_on_failure, (RET) || SAME(IN.p)) \
	ENS(unusable_unchanged, USABLE_(IN.p) || SAME(IN.p)) \
	ENS(only_cluster_flag_added, ((T[IN.p].flags ^ IN.a[IN.p].flags) & ~LISTED) == 0 && (T[IN.p].flags | ~IN.a[IN.p].flags | ~LISTED) == UINT32_MAX) \
	ENS(leader, !(RET) || !USABLE_(IN.p) || T[IN.p].package_leader_id == start[IN.p])
#elif defined(UNIT_SCAN)
/* processors without sibling lists join the cluster of the previous such processor unless they differ from a member */
static uint32_t start[N];
static void expect(void) {
	uint32_t first = N;
	for (uint32_t i = 0; i < N; i++) {
		start[i] = IN.a[i].package_leader_id;
		if (!USABLE_(i) || REPORTED(i)) continue;
		if (first == N) first = i;
		for (uint32_t j = 0; j < i; j++)
			if (USABLE_(j) && !REPORTED(j) && start[j] == first && differ(i, j)) { first = i; break; }
		start[i] = first;
	}
}
#define CLUSTERS(REQ, ENS, RET) \
	REQ(choice, IN.p < N && IN.q < N && lists_ok()) \
	ENS(others_unchanged, SAME_REST(IN.p) && SAME_COUNT(IN.p)) \
	ENS(unusable_unchanged, USABLE_(IN.p) || SAME(IN.p)) \
	ENS(reported_unchanged, !REPORTED(IN.p) || SAME(IN.p)) \
	ENS(flags, !USABLE_(IN.p) || T[IN.p].flags == (IN.a[IN.p].flags | LISTED)) \
	ENS(leader, !USABLE_(IN.p) || T[IN.p].package_leader_id == start[IN.p]) \
	ENS(members_do_not_differ, !USABLE_(IN.p) || !USABLE_(IN.q) || REPORTED(IN.p) || REPORTED(IN.q) || \
		T[IN.p].package_leader_id != T[IN.q].package_leader_id || !differ(IN.p, IN.q))
#else
static uint32_t members[N];
static void expect(void) {
	for (uint32_t i = 0; i < N; i++) {
		VF_ASSUME(!USABLE_(i) || (IN.a[i].package_leader_id < N && USABLE_(IN.a[i].package_leader_id) &&
			IN.a[IN.a[i].package_leader_id].package_leader_id == IN.a[i].package_leader_id && IN.a[i].package_processor_count == 0));
		for (uint32_t j = 0; j < N; j++) members[i] += USABLE_(j) && IN.a[j].package_leader_id == IN.a[i].package_leader_id;
	}
}
#define CLUSTERS(REQ, ENS, RET) \
	REQ(choice, IN.p < N) \
	ENS(others_unchanged, SAME_REST(IN.p) && SAME_CLUSTER(IN.p)) \
	ENS(unusable_unchanged, USABLE_(IN.p) || SAME(IN.p)) \
	ENS(size, !USABLE_(IN.p) || T[IN.p].package_processor_count == members[IN.p])
#endif

#include <arm/linux/clusters.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(CLUSTERS);
	for (uint32_t i = 0; i < N; i++) T[i] = IN.a[i];
	expect();
#if defined(UNIT_HEURISTIC)
	bool r = cpuinfo_arm_linux_detect_core_clusters_by_heuristic(USABLE, N, T);
	VF_COVER(succeeds, r || (USABLE != 6 && USABLE != 8 && USABLE != 10));
#elif defined(UNIT_SCAN)
	bool r = true;
	cpuinfo_arm_linux_detect_core_clusters_by_sequential_scan(N, T);
	VF_COVER(splits, N == 1 || T[1].package_leader_id != T[0].package_leader_id);
#else
	bool r = true;
	cpuinfo_arm_linux_count_cluster_processors(N, T);
	VF_COVER(shared, T[0].package_processor_count == N);
#endif
	VF_POST(CLUSTERS, r);
	(void)r;
	VF_REACH(end);
}
