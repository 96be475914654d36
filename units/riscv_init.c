/* cpuinfo_riscv_linux_init: the published tables form a consistent hierarchy, or nothing is published.
 * What it calls is replaced by contracts: system lists (C14, C17, C19), microarchitecture and ISA (C31), qsort (sorts,
 * in any order of equal elements).
 * Bounded: up to N processors. ALL: exactly N of them, all present. FAIL: allocations and files may fail. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <riscv/api.h>
#include <riscv/linux/api.h>

typedef struct {
	uint8_t total; /* number of the last present processor plus 1 */
	bool is_present[N], present_ok, core_ok[N], cluster_ok[N], package_ok[N];
	uint8_t core[N], cluster[N], package[N], uarch[N];
	uint32_t core_id[N], frequency[N];
	uint8_t fail;            /* allocation that fails */
	uint8_t swap;            /* order of equal processors */
	uint8_t p, q;            /* arbitrary processors */
} inputs_t;
VF_INPUTS(inputs_t)
#ifdef FAIL
#define VF_FAIL IN.fail
#define OK(x) ((x) != 0)
#else
#define VF_FAIL UINT8_MAX
#define OK(x) true
#endif
#ifdef ALL
#define TOTAL N
#define USABLE(i) ((i) < N)
#else
#define TOTAL IN.total
#define USABLE(i) ((i) < TOTAL && IN.is_present[i] != 0)
#endif
#include "vf_tables.h"

bool cpuinfo_is_initialized;
struct cpuinfo_processor* cpuinfo_processors;
struct cpuinfo_core* cpuinfo_cores;
struct cpuinfo_cluster* cpuinfo_clusters;
struct cpuinfo_package* cpuinfo_packages;
uint32_t cpuinfo_processors_count, cpuinfo_cores_count, cpuinfo_clusters_count, cpuinfo_packages_count;
struct cpuinfo_uarch_info* cpuinfo_uarchs;
uint32_t cpuinfo_uarchs_count;
uint32_t cpuinfo_linux_cpu_max;
const struct cpuinfo_processor** cpuinfo_linux_cpu_to_processor_map;
const struct cpuinfo_core** cpuinfo_linux_cpu_to_core_map;
const uint32_t* cpuinfo_linux_cpu_to_uarch_index_map;

#ifdef VF_CBMC
static struct cpuinfo_processor pool_processors[N];
static struct cpuinfo_core pool_cores[N];
static struct cpuinfo_cluster pool_clusters[N];
static struct cpuinfo_package pool_packages[N];
static struct cpuinfo_uarch_info pool_uarchs[N];
static struct cpuinfo_riscv_linux_processor pool_linux[N];
static const void* pool_pointers[VF_ALLOCATIONS][N];
static uint32_t pool_numbers[N];
/* tables are told apart by the size of their elements */
static void* vf_pool(size_t size, const char* element, uint8_t k) {
	if (size == sizeof(struct cpuinfo_riscv_linux_processor)) return pool_linux;
	if (size == sizeof(struct cpuinfo_processor) && vf_mentions(element, "cpuinfo_processor")) return pool_processors;
	if (size == sizeof(struct cpuinfo_cluster) && vf_mentions(element, "cpuinfo_cluster")) return pool_clusters;
	if (size == sizeof(struct cpuinfo_core) && vf_mentions(element, "cpuinfo_core")) return pool_cores;
	if (size == sizeof(struct cpuinfo_package) && vf_mentions(element, "cpuinfo_package")) return pool_packages;
	if (size == sizeof(struct cpuinfo_uarch_info) && vf_mentions(element, "cpuinfo_uarch_info")) return pool_uarchs;
	if (size == sizeof(uint32_t) || vf_mentions(element, "cpuinfo_uarch_info*")) return pool_numbers;
	VF_FITS(known_table, size == sizeof(void*));
	return pool_pointers[k];
}
#endif

/* reference: groups are told apart by their first processor */
static uint8_t core_leader[N], cluster_leader[N], package_leader[N];
static void find_leaders(const uint8_t* group, uint8_t* leader) {
	for (uint8_t i = 0; i < N; i++) {
		leader[i] = i;
		for (uint8_t j = N; j-- > 0;)
			if (j < i && USABLE(j) && group[j] == group[i]) leader[i] = j;
	}
}
static uint32_t usable_processors(void) {
	uint32_t n = 0;
	for (uint8_t i = 0; i < N; i++) n += USABLE(i);
	return n;
}
static uint32_t groups(const uint8_t* leader) {
	uint32_t n = 0;
	for (uint8_t i = 0; i < N; i++) n += USABLE(i) && leader[i] == i;
	return n;
}
static uint32_t members(const uint8_t* leader, uint8_t i, const uint8_t* among) {
	uint32_t n = 0;
	for (uint8_t j = 0; j < N; j++) n += USABLE(j) && leader[j] == leader[i] && (among == NULL || among[j] == j);
	return n;
}

/* surroundings */
uint32_t cpuinfo_linux_get_max_processors_count(void) { return N; }
uint32_t cpuinfo_linux_get_max_present_processor(uint32_t max) { return (uint32_t)TOTAL - 1; }
bool cpuinfo_linux_detect_present_processors(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag) {
	VF_ASSERT(flags_of_the_processor_table, size == sizeof(struct cpuinfo_riscv_linux_processor));
	struct cpuinfo_riscv_linux_processor* table =
		(struct cpuinfo_riscv_linux_processor*)((char*)flags - offsetof(struct cpuinfo_riscv_linux_processor, flags));
	if (!OK(IN.present_ok)) return false;
	for (uint32_t i = 0; i < N; i++)
		if (i < max && USABLE(i)) table[i].flags |= flag;
	return true;
}
/* lists are the same for all their members and name present processors, one range each */
static bool tell(uint32_t max, uint32_t i, const uint8_t* group, cpuinfo_siblings_callback callback, void* context) {
	for (uint32_t j = 0; j < N; j++)
		if (j < max && USABLE(j) && group[j] == group[i] && !callback(i, j, j + 1, context)) return false;
	return true;
}
bool cpuinfo_linux_detect_core_cpus(uint32_t max, uint32_t i, cpuinfo_siblings_callback callback, void* context) {
	VF_ASSERT(core_list_of_a_processor, USABLE(i));
	return OK(IN.core_ok[i]) && tell(max, i, IN.core, callback, context);
}
bool cpuinfo_linux_detect_cluster_cpus(uint32_t max, uint32_t i, cpuinfo_siblings_callback callback, void* context) {
	VF_ASSERT(cluster_list_of_a_processor, USABLE(i));
	return OK(IN.cluster_ok[i]) && tell(max, i, IN.cluster, callback, context);
}
bool cpuinfo_linux_detect_package_cpus(uint32_t max, uint32_t i, cpuinfo_siblings_callback callback, void* context) {
	VF_ASSERT(package_list_of_a_processor, USABLE(i));
	return OK(IN.package_ok[i]) && tell(max, i, IN.package, callback, context);
}
bool cpuinfo_linux_get_processor_core_id(uint32_t i, uint32_t* id) {
	*id = IN.core_id[i];
	return true;
}
uint32_t cpuinfo_linux_get_processor_cur_frequency(uint32_t i) { return IN.frequency[i]; }
void cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe(uint32_t i, enum cpuinfo_vendor* vendor, enum cpuinfo_uarch* uarch) {
	*vendor = IN.uarch[i] + 1;
	*uarch = IN.uarch[i];
}
void cpuinfo_riscv_linux_decode_isa_from_hwcap(struct cpuinfo_riscv_isa* isa) {}
static bool published_at_barrier, initialized_at_barrier;
static bool published(void);
static void vf_barrier(void) {
	published_at_barrier = published();
	initialized_at_barrier = cpuinfo_is_initialized;
}
static void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*)) {
	struct cpuinfo_riscv_linux_processor* a = base;
	uint8_t swap = IN.swap;
	VF_ASSERT(sorts_the_processor_table, size == sizeof a[0]);
	for (uint32_t n = N; n > 1; n--)
		for (uint32_t i = 1; i < n; i++) {
			if (i >= count) continue;
			const int order = compare(&a[i - 1], &a[i]);
			if (order > 0 || (order == 0 && swap & 1)) {
				struct cpuinfo_riscv_linux_processor t = a[i];
				a[i] = a[i - 1];
				a[i - 1] = t;
			}
			swap >>= 1;
		}
}

static bool published(void) {
	return cpuinfo_processors != NULL && cpuinfo_cores != NULL && cpuinfo_clusters != NULL && cpuinfo_packages != NULL &&
		cpuinfo_processors_count != 0 && cpuinfo_cores_count != 0 && cpuinfo_clusters_count != 0 && cpuinfo_packages_count != 0 &&
		cpuinfo_linux_cpu_to_processor_map != NULL && cpuinfo_linux_cpu_to_core_map != NULL && cpuinfo_linux_cpu_max != 0 &&
		cpuinfo_uarchs != NULL && cpuinfo_uarchs_count != 0 && (cpuinfo_linux_cpu_to_uarch_index_map != NULL || cpuinfo_uarchs_count == 1);
}
static bool nothing_published(void) {
	return cpuinfo_processors == NULL && cpuinfo_cores == NULL && cpuinfo_clusters == NULL && cpuinfo_packages == NULL &&
		cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 && cpuinfo_packages_count == 0 &&
		cpuinfo_linux_cpu_to_processor_map == NULL && cpuinfo_linux_cpu_to_core_map == NULL && cpuinfo_linux_cpu_max == 0 &&
		cpuinfo_uarchs == NULL && cpuinfo_uarchs_count == 0 && cpuinfo_linux_cpu_to_uarch_index_map == NULL;
}
static bool failing(void) {
	bool lists = true;
	for (uint8_t i = 0; i < N; i++)
		if (USABLE(i) && !(OK(IN.core_ok[i]) && OK(IN.cluster_ok[i]) && OK(IN.package_ok[i]))) lists = false;
	return VF_FAIL < vf_asked_tables || TOTAL == 0 || !OK(IN.present_ok) || !lists;
}

/* the published tables with pointers turned into positions; NONE: does not point into the table */
#define NONE 255
static struct { uint8_t cpu, core, cluster, package; } P[N];
static struct { uint32_t start, count, vendor, uarch, id, frequency; uint8_t cluster, package; } CORE[N];
static struct { uint32_t start, count, core_start, core_count, vendor, uarch, frequency; uint8_t package; } CLUSTER[N];
static struct { uint32_t start, count, core_start, core_count, cluster_start, cluster_count; } PACKAGE[N];
static struct { uint32_t uarch, processors, cores; } KIND[N];
static uint8_t cpu_processor[N], cpu_core[N];
static uint32_t cpu_kind[N];
#define POSITION(at, pointer, table, n) \
	do { \
		(at) = NONE; \
		for (uint8_t j = 0; j < N; j++) \
			if (j < (n) && (pointer) == &(table)[j]) (at) = j; \
	} while (0)
static bool room(const void* table, uint32_t count) { return vf_live(table) && vf_asked(table) >= count && count != 0 && count <= N; }
static bool tables_have_room(void) {
	return room(cpuinfo_processors, cpuinfo_processors_count) && room(cpuinfo_cores, cpuinfo_cores_count) &&
		room(cpuinfo_clusters, cpuinfo_clusters_count) && room(cpuinfo_packages, cpuinfo_packages_count) && room(cpuinfo_uarchs, cpuinfo_uarchs_count) &&
		(cpuinfo_linux_cpu_to_uarch_index_map == NULL || room(cpuinfo_linux_cpu_to_uarch_index_map, cpuinfo_linux_cpu_max)) &&
		room(cpuinfo_linux_cpu_to_processor_map, cpuinfo_linux_cpu_max) && room(cpuinfo_linux_cpu_to_core_map, cpuinfo_linux_cpu_max);
}
static void look(void) {
	for (uint8_t i = 0; i < N; i++) {
		if (i < cpuinfo_processors_count) {
			const struct cpuinfo_processor* p = &cpuinfo_processors[i];
			P[i].cpu = p->linux_id >= 0 && p->linux_id < N ? p->linux_id : NONE;
			POSITION(P[i].core, p->core, cpuinfo_cores, cpuinfo_cores_count);
			POSITION(P[i].cluster, p->cluster, cpuinfo_clusters, cpuinfo_clusters_count);
			POSITION(P[i].package, p->package, cpuinfo_packages, cpuinfo_packages_count);
		}
		if (i < cpuinfo_cores_count) {
			const struct cpuinfo_core* c = &cpuinfo_cores[i];
			CORE[i].start = c->processor_start;
			CORE[i].count = c->processor_count;
			CORE[i].id = c->core_id;
			CORE[i].vendor = c->vendor;
			CORE[i].uarch = c->uarch;
			CORE[i].frequency = c->frequency;
			POSITION(CORE[i].cluster, c->cluster, cpuinfo_clusters, cpuinfo_clusters_count);
			POSITION(CORE[i].package, c->package, cpuinfo_packages, cpuinfo_packages_count);
		}
		if (i < cpuinfo_clusters_count) {
			const struct cpuinfo_cluster* c = &cpuinfo_clusters[i];
			CLUSTER[i].start = c->processor_start;
			CLUSTER[i].count = c->processor_count;
			CLUSTER[i].core_start = c->core_start;
			CLUSTER[i].core_count = c->core_count;
			CLUSTER[i].vendor = c->vendor;
			CLUSTER[i].uarch = c->uarch;
			CLUSTER[i].frequency = c->frequency;
			POSITION(CLUSTER[i].package, c->package, cpuinfo_packages, cpuinfo_packages_count);
		}
		if (i < cpuinfo_packages_count) {
			const struct cpuinfo_package* c = &cpuinfo_packages[i];
			PACKAGE[i].start = c->processor_start;
			PACKAGE[i].count = c->processor_count;
			PACKAGE[i].core_start = c->core_start;
			PACKAGE[i].core_count = c->core_count;
			PACKAGE[i].cluster_start = c->cluster_start;
			PACKAGE[i].cluster_count = c->cluster_count;
		}
		if (i < cpuinfo_uarchs_count) {
			KIND[i].uarch = cpuinfo_uarchs[i].uarch;
			KIND[i].processors = cpuinfo_uarchs[i].processor_count;
			KIND[i].cores = cpuinfo_uarchs[i].core_count;
		}
		if (i < cpuinfo_linux_cpu_max) {
			POSITION(cpu_processor[i], cpuinfo_linux_cpu_to_processor_map[i], cpuinfo_processors, cpuinfo_processors_count);
			POSITION(cpu_core[i], cpuinfo_linux_cpu_to_core_map[i], cpuinfo_cores, cpuinfo_cores_count);
			if (cpuinfo_linux_cpu_to_processor_map[i] == NULL) cpu_processor[i] = N;
			if (cpuinfo_linux_cpu_to_core_map[i] == NULL) cpu_core[i] = N;
			cpu_kind[i] = cpuinfo_linux_cpu_to_uarch_index_map == NULL ? 0 : cpuinfo_linux_cpu_to_uarch_index_map[i];
		}
	}
}
#define HAS(element, start, count, i) ((element).start <= (i) && (i) - (element).start < (element).count)
/* first position of a member of the package of cpu */
#define FIRST(table, n, of) \
	uint32_t of = NONE; \
	for (uint8_t j = N; j-- > 0;) \
		if (j < (n) && (table)[j].package == package) of = j;

static void check_kinds(uint8_t cpu) {
	const uint32_t kind = cpu_kind[cpu];
	uint32_t n = 0, all = 0, cores = 0;
	VF_ASSERT(has_a_kind, kind < cpuinfo_uarchs_count && cpuinfo_uarchs_count <= N);
	for (uint8_t j = 0; j < N; j++) {
		if (USABLE(j) && cpu_kind[j] == kind) n++;
		if (USABLE(j) && cpu_kind[j] == kind && core_leader[j] == j) cores++;
		if (j < cpuinfo_uarchs_count) all += KIND[j].processors;
	}
	if (kind >= N) return;
	VF_ASSERT(kinds_partition_processors, KIND[kind].processors == n && KIND[kind].cores == cores && all == cpuinfo_processors_count);
	VF_ASSERT(kind_of_the_core, KIND[kind].uarch == IN.uarch[cpu]);
}
static void check_tables(void) {
	VF_ASSERT(every_present_processor_is_counted, cpuinfo_processors_count == usable_processors());
	VF_ASSERT(group_counts, cpuinfo_cores_count == groups(core_leader) && cpuinfo_clusters_count == groups(cluster_leader) &&
		cpuinfo_packages_count == groups(package_leader));
	VF_ASSERT(tables_have_room, tables_have_room());
	VF_ASSERT(lookup_covers_every_cpu, cpuinfo_linux_cpu_max == TOTAL);
	if (!tables_have_room()) return;
	look();
	/* lookup tables; IN.q: any system processor */
	if (IN.q < TOTAL) {
		const uint8_t k = cpu_processor[IN.q];
		if (USABLE(IN.q)) {
			VF_ASSERT(lookup_finds_the_processor, k < N && P[k].cpu == IN.q);
			VF_ASSERT(lookup_finds_the_core, k >= N || cpu_core[IN.q] == P[k].core);
		} else
			VF_ASSERT(no_lookup_of_absent, k == N && cpu_core[IN.q] == N);
	}
	if (IN.p >= cpuinfo_processors_count || IN.q >= cpuinfo_processors_count) return;
	const uint8_t core = P[IN.p].core, cluster = P[IN.p].cluster, package = P[IN.p].package, cpu = P[IN.p].cpu, other = P[IN.q].cpu;
	VF_ASSERT(processor_is_present, cpu < N && USABLE(cpu) && other < N);
	VF_ASSERT(processors_differ, IN.p == IN.q || cpu != other);
	VF_ASSERT(processor_points_into_tables, core < N && cluster < N && package < N);
	if (cpu >= N || other >= N || core >= N || cluster >= N || package >= N) return;
	/* members */
	VF_ASSERT(same_core, (core == P[IN.q].core) == (core_leader[cpu] == core_leader[other]));
	VF_ASSERT(same_cluster, (cluster == P[IN.q].cluster) == (cluster_leader[cpu] == cluster_leader[other]));
	VF_ASSERT(same_package, (package == P[IN.q].package) == (package_leader[cpu] == package_leader[other]));
	VF_ASSERT(core_agrees, CORE[core].cluster == cluster && CORE[core].package == package);
	VF_ASSERT(cluster_agrees, CLUSTER[cluster].package == package);
	/* ranges */
	VF_ASSERT(core_range, HAS(CORE[core], start, count, IN.q) == (core == P[IN.q].core));
	VF_ASSERT(cluster_range, HAS(CLUSTER[cluster], start, count, IN.q) == (cluster == P[IN.q].cluster));
	VF_ASSERT(cluster_core_range, HAS(CLUSTER[cluster], core_start, core_count, P[IN.q].core) == (cluster == P[IN.q].cluster));
	VF_ASSERT(core_size, CORE[core].count == members(core_leader, cpu, NULL));
	VF_ASSERT(cluster_sizes, CLUSTER[cluster].count == members(cluster_leader, cpu, NULL) && CLUSTER[cluster].core_count == members(cluster_leader, cpu, core_leader));
	VF_ASSERT(package_sizes, PACKAGE[package].count == members(package_leader, cpu, NULL) && PACKAGE[package].core_count == members(package_leader, cpu, core_leader) &&
		PACKAGE[package].cluster_count == members(package_leader, cpu, cluster_leader));
	FIRST(P, cpuinfo_processors_count, first_processor)
	FIRST(CORE, cpuinfo_cores_count, first_core)
	FIRST(CLUSTER, cpuinfo_clusters_count, first_cluster)
	VF_ASSERT(package_starts, PACKAGE[package].start == first_processor && PACKAGE[package].core_start == first_core && PACKAGE[package].cluster_start == first_cluster);
	/* descriptions */
	VF_ASSERT(core_description, CORE[core].vendor == IN.uarch[cpu] + 1u && CORE[core].uarch == IN.uarch[cpu] &&
		CORE[core].id == IN.core_id[core_leader[cpu]] && CORE[core].frequency == IN.frequency[core_leader[cpu]]);
	VF_ASSERT(cluster_description, CLUSTER[cluster].vendor == IN.uarch[cpu] + 1u && CLUSTER[cluster].uarch == IN.uarch[cpu] &&
		CLUSTER[cluster].frequency == IN.frequency[cluster_leader[cpu]]);
	check_kinds(cpu);
}
#define INIT(REQ, ENS, RET) \
	REQ(sizes, TOTAL <= N && (TOTAL == 0 || USABLE(TOTAL - 1))) \
	REQ(choice, IN.p < N && IN.q < N) \
	ENS(succeeds_or_fails, cpuinfo_is_initialized == !failing()) \
	ENS(nothing_on_failure, cpuinfo_is_initialized || nothing_published()) \
	ENS(no_leak_on_failure, cpuinfo_is_initialized || vf_live_tables() == 0) \
	ENS(published_first, !cpuinfo_is_initialized || (published_at_barrier && !initialized_at_barrier))

enum { VF_FIRST_SITE = __COUNTER__ + 1 };
#define calloc vf_calloc
#define free vf_free
#define qsort vf_qsort
#define __sync_synchronize vf_barrier
#include <riscv/linux/init.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(INIT);
	for (uint8_t i = 0; i < N; i++) {
		VF_ASSUME(IN.core[i] < N && IN.cluster[i] < N && IN.package[i] < N && IN.uarch[i] < N);
		/* cores lie in clusters of one microarchitecture, clusters in packages */
		for (uint8_t j = 0; j < i; j++)
			VF_ASSUME((IN.core[i] != IN.core[j] || IN.cluster[i] == IN.cluster[j]) &&
				(IN.cluster[i] != IN.cluster[j] || (IN.package[i] == IN.package[j] && IN.uarch[i] == IN.uarch[j])));
	}
#ifdef FAIL
	VF_COVER(failed_allocation, VF_FAIL == 5 && OK(IN.present_ok) && usable_processors() == N);
#else
	VF_ASSUME(TOTAL != 0);
#endif
	VF_COVER(all_processors, usable_processors() == N);
	find_leaders(IN.core, core_leader);
	find_leaders(IN.cluster, cluster_leader);
	find_leaders(IN.package, package_leader);
	cpuinfo_riscv_linux_init();
	VF_POST(INIT, 0);
#ifndef FAIL
	if (cpuinfo_is_initialized) {
		check_tables();
		VF_ASSERT(only_published_tables_are_kept, vf_live_tables() == 7 + (cpuinfo_linux_cpu_to_uarch_index_map != NULL));
	}
#endif
	VF_REACH(end);
}
