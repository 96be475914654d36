/* cpuinfo_arm_linux_init: the published tables form a consistent hierarchy, or nothing is published.
 * What it calls is replaced by contracts: system lists (C14, C17, C19), processor listing (C20), clusters (C26), core
 * types (C27, C22), caches (C23), chipset (C28, C29), qsort (sorts, in any order of equal elements).
 * Bounded: up to N processors. ALL: exactly N of them, all usable. FAIL: allocations may fail. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <arm/api.h>
#include <arm/linux/api.h>

typedef struct {
	uint32_t kernel, possible, present; /* numbers of processors; 0 for the last two: unknown */
	bool is_possible[N], is_present[N], is_listed[N], listing_ok;
	uint32_t info[N];                   /* what the listing tells about the processor */
	bool in_package[N], cluster_lists, core_lists, heuristic;
	uint8_t cluster[N], siblings[N], leader[N];
	uint32_t frequency[N], midr[N], l2[N], l3[N]; /* midr of leaders, cache sizes of clusters */
	uint32_t l1i, l1d, l1i_listed, l1d_listed, max_cache_size;
	uint8_t fail;            /* allocation that fails */
	uint8_t swap;            /* order of equal processors */
	uint8_t p, q;            /* arbitrary processors */
} inputs_t;
VF_INPUTS(inputs_t)
#ifdef FAIL
#define VF_FAIL IN.fail
#define LISTING_OK (IN.listing_ok != 0)
#else
#define VF_FAIL UINT8_MAX
#define LISTING_OK true
#endif
#ifdef ALL
#define KERNEL N
#define POSSIBLE N
#define PRESENT N
#define IS_POSSIBLE(i) true
#define IS_PRESENT(i) true
#define IS_LISTED(i) true
#else
#define KERNEL IN.kernel
#define POSSIBLE IN.possible
#define PRESENT IN.present
#define IS_POSSIBLE(i) (IN.is_possible[i] != 0)
#define IS_PRESENT(i) (IN.is_present[i] != 0)
#define IS_LISTED(i) (IN.is_listed[i] != 0)
#endif
#include "vf_tables.h"

bool cpuinfo_is_initialized;
struct cpuinfo_processor* cpuinfo_processors;
struct cpuinfo_core* cpuinfo_cores;
struct cpuinfo_cluster* cpuinfo_clusters;
struct cpuinfo_package* cpuinfo_packages;
struct cpuinfo_cache* cpuinfo_cache[cpuinfo_cache_level_max];
uint32_t cpuinfo_processors_count, cpuinfo_cores_count, cpuinfo_clusters_count, cpuinfo_packages_count;
uint32_t cpuinfo_cache_count[cpuinfo_cache_level_max];
uint32_t cpuinfo_max_cache_size;
struct cpuinfo_uarch_info* cpuinfo_uarchs;
uint32_t cpuinfo_uarchs_count;
uint32_t cpuinfo_linux_cpu_max;
const struct cpuinfo_processor** cpuinfo_linux_cpu_to_processor_map;
const struct cpuinfo_core** cpuinfo_linux_cpu_to_core_map;
const uint32_t* cpuinfo_linux_cpu_to_uarch_index_map;
uint32_t cpuinfo_linux_cpu_to_uarch_index_map_entries;

#ifdef VF_CBMC
static struct cpuinfo_processor pool_processors[N];
static struct cpuinfo_core pool_cores[N];
static struct cpuinfo_cluster pool_clusters[N];
static struct cpuinfo_uarch_info pool_uarchs[N];
static struct cpuinfo_cache pool_caches[VF_ALLOCATIONS][N];
static struct cpuinfo_arm_linux_processor pool_linux[N];
static const void* pool_pointers[VF_ALLOCATIONS][N];
static uint32_t pool_numbers[VF_ALLOCATIONS][N];
/* tables are told apart by the size of their elements */
static void* vf_pool(size_t size, const char* element, uint8_t k) {
	if (size == sizeof(struct cpuinfo_arm_linux_processor) && vf_mentions(element, "cpuinfo_arm_linux_processor")) return pool_linux;
	if (size == sizeof(struct cpuinfo_processor) && vf_mentions(element, "cpuinfo_processor")) return pool_processors;
	if (size == sizeof(struct cpuinfo_cluster) && vf_mentions(element, "cpuinfo_cluster")) return pool_clusters;
	if (size == sizeof(struct cpuinfo_core) && vf_mentions(element, "cpuinfo_core")) return pool_cores;
	if (size == sizeof(struct cpuinfo_cache) && vf_mentions(element, "cpuinfo_cache")) return pool_caches[k];
	if (size == sizeof(struct cpuinfo_uarch_info) && vf_mentions(element, "cpuinfo_uarch_info")) return pool_uarchs;
	if (size == sizeof(uint32_t) && vf_mentions(element, "uint32_t")) return pool_numbers[k];
	if (size == sizeof(struct cpuinfo_arm_linux_processor)) return pool_linux;
	if (size == sizeof(struct cpuinfo_processor)) return pool_processors;
	if (size == sizeof(struct cpuinfo_cluster)) return pool_clusters;
	if (size == sizeof(struct cpuinfo_core)) return pool_cores;
	if (size == sizeof(struct cpuinfo_cache)) return pool_caches[k];
	VF_FITS(known_table, size == sizeof(void*));
	return pool_pointers[k];
}
#endif

/* reference */
static uint32_t least(uint32_t a, uint32_t b) { return a < b ? a : b; }
static uint32_t total(void) {
	uint32_t n = KERNEL;
	if (PRESENT != 0) n = least(n, PRESENT);
	if (POSSIBLE != 0) n = least(n, POSSIBLE);
	return n;
}
static bool usable(uint32_t i) {
	return i < total() && (PRESENT == 0 || IS_PRESENT(i)) && (POSSIBLE == 0 || IS_POSSIBLE(i));
}
static uint32_t usable_processors(void) {
	uint32_t n = 0;
	for (uint32_t i = 0; i < N; i++) n += usable(i);
	return n;
}
static uint8_t leader[N]; /* expected first processor of the cluster of each processor */
static uint8_t group(uint32_t i) { return IN.cluster_lists ? IN.cluster[i] : IN.siblings[i]; }
static void find_leaders(void) {
	bool complete = IN.cluster_lists || IN.core_lists;
	for (uint8_t i = 0; i < N; i++) {
		bool reported = false;
		leader[i] = i;
		for (uint8_t j = N; j-- > 0;)
			if (usable(j) && group(i) == group(j)) {
				if (j < i) leader[i] = j;
				if (IN.in_package[j]) reported = true;
			}
		if (usable(i) && !reported) complete = false;
	}
	if (!complete)
		for (uint8_t i = 0; i < N; i++) leader[i] = IN.leader[i];
}
static uint32_t members(uint8_t i) {
	uint32_t n = 0;
	for (uint8_t j = 0; j < N; j++) n += usable(j) && leader[j] == leader[i];
	return n;
}
static uint32_t all_clusters(void) {
	uint32_t n = 0;
	for (uint8_t j = 0; j < N; j++) n += usable(j) && leader[j] == j;
	return n;
}

/* surroundings */
uint32_t cpuinfo_linux_get_max_processors_count(void) { return KERNEL; }
uint32_t cpuinfo_linux_get_max_possible_processor(uint32_t max) { return POSSIBLE - 1; }
uint32_t cpuinfo_linux_get_max_present_processor(uint32_t max) { return PRESENT - 1; }
static void mark(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag, bool possible) {
	VF_ASSERT(flags_of_the_processor_table, size == sizeof(struct cpuinfo_arm_linux_processor));
	struct cpuinfo_arm_linux_processor* table =
		(struct cpuinfo_arm_linux_processor*)((char*)flags - offsetof(struct cpuinfo_arm_linux_processor, flags));
	for (uint32_t i = 0; i < N; i++)
		if (i < max && (possible ? IS_POSSIBLE(i) : IS_PRESENT(i))) table[i].flags |= flag;
}
bool cpuinfo_linux_detect_possible_processors(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag) {
	mark(max, flags, size, flag, true);
	return true;
}
bool cpuinfo_linux_detect_present_processors(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag) {
	mark(max, flags, size, flag, false);
	return true;
}
#ifdef __arm__
#define REPORTED (CPUINFO_ARM_LINUX_VALID_INFO | CPUINFO_ARM_LINUX_VALID_ICACHE | CPUINFO_ARM_LINUX_VALID_DCACHE)
#else
#define REPORTED CPUINFO_ARM_LINUX_VALID_INFO
#endif
bool cpuinfo_arm_linux_parse_proc_cpuinfo(char* hardware, char* revision, uint32_t max, struct cpuinfo_arm_linux_processor* table) {
	hardware[0] = revision[0] = 0;
	for (uint32_t i = 0; i < N; i++)
		if (i < max && IS_LISTED(i)) {
			table[i].flags |= CPUINFO_ARM_LINUX_VALID_PROCESSOR | (IN.info[i] & REPORTED);
#ifdef __arm__
			if ((IN.info[i] & CPUINFO_ARM_LINUX_VALID_ICACHE) == CPUINFO_ARM_LINUX_VALID_ICACHE) table[i].proc_cpuinfo_cache.i_size = IN.l1i_listed;
			if ((IN.info[i] & CPUINFO_ARM_LINUX_VALID_DCACHE) == CPUINFO_ARM_LINUX_VALID_DCACHE) table[i].proc_cpuinfo_cache.d_size = IN.l1d_listed;
#endif
		}
	return LISTING_OK;
}
struct cpuinfo_arm_chipset cpuinfo_arm_linux_decode_chipset(const char* hardware, const char* revision, uint32_t cores, uint32_t frequency) {
	struct cpuinfo_arm_chipset chipset = {0};
	VF_ASSERT(chipset_for_all_processors, cores == usable_processors());
	chipset.model = 7;
	return chipset;
}
void cpuinfo_arm_chipset_to_string(const struct cpuinfo_arm_chipset* chipset, char* name) {
	VF_ASSERT(name_of_the_chipset, chipset->model == 7);
	name[0] = 'P';
	name[1] = 0;
}
#ifdef __arm__
bool cpuinfo_arm_linux_hwcap_from_getauxval(uint32_t* hwcap, uint64_t* hwcap2) {
	return true;
}
void cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo(uint32_t features, uint64_t features2, uint32_t midr, uint32_t version, uint32_t flags,
	const struct cpuinfo_arm_chipset* chipset, struct cpuinfo_arm_isa* isa) {}
#else
void cpuinfo_arm_linux_hwcap_from_getauxval(uint32_t* hwcap, uint64_t* hwcap2) {}
void cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(uint32_t features, uint64_t features2, uint32_t midr,
	const struct cpuinfo_arm_chipset* chipset, struct cpuinfo_arm_isa* isa) {}
#endif
uint32_t cpuinfo_linux_get_processor_max_frequency(uint32_t i) { return i < N ? IN.frequency[i] : 0; }
uint32_t cpuinfo_linux_get_processor_min_frequency(uint32_t i) { return 0; }
bool cpuinfo_linux_get_processor_package_id(uint32_t i, uint32_t* id) {
	*id = 0;
	return i < N && IN.in_package[i] != 0;
}
/* lists are the same for all their members */
static void tell(uint32_t max, uint32_t i, const uint8_t* group, cpuinfo_siblings_callback callback, void* context) {
	for (uint32_t j = 0; j < N; j++)
		if (j < max && group[j] == group[i]) callback(i, j, j + 1, context);
}
bool cpuinfo_linux_detect_cluster_cpus(uint32_t max, uint32_t i, cpuinfo_siblings_callback callback, void* context) {
	if (!IN.cluster_lists) return false;
	tell(max, i, IN.cluster, callback, context);
	return true;
}
bool cpuinfo_linux_detect_core_siblings(uint32_t max, uint32_t i, cpuinfo_siblings_callback callback, void* context) {
	if (!IN.core_lists) return false;
	tell(max, i, IN.siblings, callback, context);
	return true;
}
static void set_leaders(uint32_t max, struct cpuinfo_arm_linux_processor* table) {
	for (uint32_t i = 0; i < N; i++)
		if (i < max && (table[i].flags & CPUINFO_LINUX_FLAG_VALID)) table[i].package_leader_id = IN.leader[i];
}
bool cpuinfo_arm_linux_detect_core_clusters_by_heuristic(uint32_t usable, uint32_t max, struct cpuinfo_arm_linux_processor* table) {
	VF_ASSERT(heuristic_for_all_processors, usable == usable_processors() && max == total());
	if (!IN.heuristic) return false;
	set_leaders(max, table);
	return true;
}
void cpuinfo_arm_linux_detect_core_clusters_by_sequential_scan(uint32_t max, struct cpuinfo_arm_linux_processor* table) {
	set_leaders(max, table);
}
static bool counted;
void cpuinfo_arm_linux_count_cluster_processors(uint32_t max, struct cpuinfo_arm_linux_processor* table) {
	counted = true;
	for (uint8_t i = 0; i < N; i++) {
		if (i >= max || !(table[i].flags & CPUINFO_LINUX_FLAG_VALID)) continue;
		VF_ASSERT(leaders, table[i].package_leader_id == leader[i]);
		table[i].package_processor_count = members(i);
	}
}
uint32_t cpuinfo_arm_linux_detect_cluster_midr(const struct cpuinfo_arm_chipset* chipset, uint32_t max, uint32_t usable, struct cpuinfo_arm_linux_processor* table) {
	VF_ASSERT(core_types_for_all_processors, counted && usable == usable_processors() && max == total());
	for (uint8_t i = 0; i < N; i++)
		if (i < max && (table[i].flags & CPUINFO_LINUX_FLAG_VALID) && table[i].package_leader_id == i) table[i].midr = IN.midr[i];
	return all_clusters();
}
#define VENDOR(midr) ((midr) >> 2 & 3)
#define UARCH(midr) ((midr) & 3)
void cpuinfo_arm_decode_vendor_uarch(uint32_t midr,
#ifdef __arm__
	bool has_vfpv4,
#endif
	enum cpuinfo_vendor* vendor, enum cpuinfo_uarch* uarch) {
	*vendor = VENDOR(midr);
	*uarch = UARCH(midr);
}
/* same caches for all members of a cluster */
static struct { uint32_t cores, midr, uarch; bool same; } decoded[N];
void cpuinfo_arm_decode_cache(enum cpuinfo_uarch uarch, uint32_t cores, uint32_t midr, const struct cpuinfo_arm_chipset* chipset,
	uint32_t cluster, uint32_t version, struct cpuinfo_cache* l1i, struct cpuinfo_cache* l1d, struct cpuinfo_cache* l2, struct cpuinfo_cache* l3) {
	VF_ASSERT(cluster_of_the_caches, cluster < N && cluster < all_clusters());
	if (cluster >= N) return;
	if (decoded[cluster].cores == 0) {
		decoded[cluster].cores = cores;
		decoded[cluster].midr = midr;
		decoded[cluster].uarch = uarch;
		decoded[cluster].same = true;
	} else if (decoded[cluster].cores != cores || decoded[cluster].midr != midr || decoded[cluster].uarch != uarch)
		decoded[cluster].same = false;
	*l1i = (struct cpuinfo_cache){.size = IN.l1i, .processor_start = 90, .processor_count = 90};
	*l1d = (struct cpuinfo_cache){.size = IN.l1d, .processor_start = 90, .processor_count = 90};
	*l2 = (struct cpuinfo_cache){.size = IN.l2[cluster], .associativity = 2, .sets = 3, .line_size = 4, .flags = 5};
	*l3 = (struct cpuinfo_cache){.size = IN.l3[cluster], .associativity = 6, .sets = 7, .line_size = 8, .flags = 9};
}
static const struct cpuinfo_processor* largest_of;
uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* processor) {
	VF_ASSERT(max_cache_size_of_a_processor, vf_live(processor) && vf_asked(processor) != 0);
	largest_of = processor;
	return IN.max_cache_size;
}
static bool published_at_barrier, initialized_at_barrier;
static bool published(void);
static void vf_barrier(void) {
	published_at_barrier = published();
	initialized_at_barrier = cpuinfo_is_initialized;
}
static void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*)) {
	struct cpuinfo_arm_linux_processor* a = base;
	uint8_t swap = IN.swap;
	VF_ASSERT(sorts_the_processor_table, size == sizeof a[0]);
	for (uint32_t n = N; n > 1; n--)
		for (uint32_t i = 1; i < n; i++) {
			if (i >= count) continue;
			const int order = compare(&a[i - 1], &a[i]);
			if (order > 0 || (order == 0 && swap & 1)) {
				struct cpuinfo_arm_linux_processor t = a[i];
				a[i] = a[i - 1];
				a[i - 1] = t;
			}
			swap >>= 1;
		}
}

static bool published(void) {
	return cpuinfo_processors != NULL && cpuinfo_cores != NULL && cpuinfo_clusters != NULL && cpuinfo_packages != NULL &&
		cpuinfo_processors_count != 0 && cpuinfo_cores_count != 0 && cpuinfo_clusters_count != 0 && cpuinfo_packages_count != 0 &&
		cpuinfo_linux_cpu_to_processor_map != NULL && cpuinfo_linux_cpu_to_core_map != NULL && cpuinfo_linux_cpu_max != 0 &&
		cpuinfo_max_cache_size == IN.max_cache_size && cpuinfo_uarchs != NULL && cpuinfo_uarchs_count != 0 &&
		(cpuinfo_linux_cpu_to_uarch_index_map != NULL || cpuinfo_uarchs_count == 1) && cpuinfo_cache[0] != NULL && cpuinfo_cache_count[0] != 0 &&
		cpuinfo_cache[1] != NULL && cpuinfo_cache_count[1] != 0 && (cpuinfo_cache[2] != NULL) == (cpuinfo_cache_count[2] != 0) &&
		(cpuinfo_cache[3] != NULL) == (cpuinfo_cache_count[3] != 0);
}
static bool nothing_published(void) {
	bool none = cpuinfo_processors == NULL && cpuinfo_cores == NULL && cpuinfo_clusters == NULL && cpuinfo_packages == NULL &&
		cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 && cpuinfo_packages_count == 0 &&
		cpuinfo_linux_cpu_to_processor_map == NULL && cpuinfo_linux_cpu_to_core_map == NULL && cpuinfo_linux_cpu_max == 0 &&
		cpuinfo_max_cache_size == 0 && cpuinfo_uarchs == NULL && cpuinfo_uarchs_count == 0 && cpuinfo_linux_cpu_to_uarch_index_map == NULL;
	for (int l = 0; l < 5; l++)
		if (cpuinfo_cache[l] != NULL || cpuinfo_cache_count[l] != 0) none = false;
	return none;
}
static bool failing(void) { return VF_FAIL < vf_asked_tables || !LISTING_OK || usable_processors() == 0 || (POSSIBLE == 0 && PRESENT == 0); }

/* the published tables with pointers turned into positions; NONE: does not point into the table */
#define NONE 255
static struct { uint8_t cpu, core, cluster, cache[5]; bool package; uint32_t smt; } P[N];
static struct { uint32_t start, count, id, vendor, uarch, midr; uint8_t cluster; bool package; } CORE[N];
static struct { uint32_t start, count, core_start, core_count, id, vendor, uarch, midr; bool package; } CLUSTER[N];
static struct { uint32_t start, count, size; bool described; } CACHE[5][N];
static struct { uint32_t uarch, midr, processors, cores; } KIND[N];
static uint8_t cpu_processor[N], cpu_core[N];
static uint32_t cpu_kind[N];
#define POSITION(at, pointer, table, n) \
	do { \
		(at) = NONE; \
		for (uint8_t j = 0; j < N; j++) \
			if (j < (n) && (pointer) == &(table)[j]) (at) = j; \
	} while (0)
static bool room(const void* table, uint32_t count) { return vf_live(table) && vf_asked(table) >= count && count != 0 && count <= N; }
static bool tables_have_room(void) {
	return room(cpuinfo_processors, cpuinfo_processors_count) && room(cpuinfo_cores, cpuinfo_cores_count) &&
		room(cpuinfo_clusters, cpuinfo_clusters_count) && room(cpuinfo_uarchs, cpuinfo_uarchs_count) &&
		room(cpuinfo_cache[0], cpuinfo_cache_count[0]) && room(cpuinfo_cache[1], cpuinfo_cache_count[1]) &&
		(cpuinfo_cache_count[2] == 0 || room(cpuinfo_cache[2], cpuinfo_cache_count[2])) &&
		(cpuinfo_cache_count[3] == 0 || room(cpuinfo_cache[3], cpuinfo_cache_count[3])) &&
		(cpuinfo_linux_cpu_to_uarch_index_map == NULL || room(cpuinfo_linux_cpu_to_uarch_index_map, cpuinfo_linux_cpu_max)) &&
		room(cpuinfo_linux_cpu_to_processor_map, cpuinfo_linux_cpu_max) && room(cpuinfo_linux_cpu_to_core_map, cpuinfo_linux_cpu_max);
}
static void look_cache(uint8_t l, uint8_t i, const struct cpuinfo_cache* mine) {
	POSITION(P[i].cache[l], mine, cpuinfo_cache[l], cpuinfo_cache_count[l]);
	if (mine == NULL) P[i].cache[l] = N; /* no cache */
}
static void look(void) {
	for (uint8_t i = 0; i < N; i++) {
		if (i < cpuinfo_processors_count) {
			const struct cpuinfo_processor* p = &cpuinfo_processors[i];
			P[i].smt = p->smt_id;
			P[i].cpu = p->linux_id >= 0 && p->linux_id < N ? p->linux_id : NONE;
			P[i].package = p->package == cpuinfo_packages;
			POSITION(P[i].core, p->core, cpuinfo_cores, cpuinfo_cores_count);
			POSITION(P[i].cluster, p->cluster, cpuinfo_clusters, cpuinfo_clusters_count);
			look_cache(0, i, p->cache.l1i);
			look_cache(1, i, p->cache.l1d);
			look_cache(2, i, p->cache.l2);
			look_cache(3, i, p->cache.l3);
			P[i].cache[4] = p->cache.l4 == NULL ? N : NONE;
		}
		if (i < cpuinfo_cores_count) {
			const struct cpuinfo_core* c = &cpuinfo_cores[i];
			CORE[i].start = c->processor_start;
			CORE[i].count = c->processor_count;
			CORE[i].id = c->core_id;
			CORE[i].vendor = c->vendor;
			CORE[i].uarch = c->uarch;
			CORE[i].midr = c->midr;
			CORE[i].package = c->package == cpuinfo_packages;
			POSITION(CORE[i].cluster, c->cluster, cpuinfo_clusters, cpuinfo_clusters_count);
		}
		if (i < cpuinfo_clusters_count) {
			const struct cpuinfo_cluster* c = &cpuinfo_clusters[i];
			CLUSTER[i].start = c->processor_start;
			CLUSTER[i].count = c->processor_count;
			CLUSTER[i].core_start = c->core_start;
			CLUSTER[i].core_count = c->core_count;
			CLUSTER[i].id = c->cluster_id;
			CLUSTER[i].vendor = c->vendor;
			CLUSTER[i].uarch = c->uarch;
			CLUSTER[i].midr = c->midr;
			CLUSTER[i].package = c->package == cpuinfo_packages;
		}
		if (i < cpuinfo_uarchs_count) {
			KIND[i].uarch = cpuinfo_uarchs[i].uarch;
			KIND[i].midr = cpuinfo_uarchs[i].midr;
			KIND[i].processors = cpuinfo_uarchs[i].processor_count;
			KIND[i].cores = cpuinfo_uarchs[i].core_count;
		}
		for (uint8_t l = 0; l < 4; l++)
			if (cpuinfo_cache[l] != NULL && i < cpuinfo_cache_count[l]) {
				const struct cpuinfo_cache* c = &cpuinfo_cache[l][i];
				CACHE[l][i].start = c->processor_start;
				CACHE[l][i].count = c->processor_count;
				CACHE[l][i].size = c->size;
				CACHE[l][i].described = l < 2 || (c->associativity == (l == 2 ? 2 : 6) && c->sets == (l == 2 ? 3 : 7) && c->partitions == 1 &&
					c->line_size == (l == 2 ? 4 : 8) && c->flags == (l == 2 ? 5 : 9));
			}
		if (i < cpuinfo_linux_cpu_max) {
			POSITION(cpu_processor[i], cpuinfo_linux_cpu_to_processor_map[i], cpuinfo_processors, cpuinfo_processors_count);
			POSITION(cpu_core[i], cpuinfo_linux_cpu_to_core_map[i], cpuinfo_cores, cpuinfo_cores_count);
			if (cpuinfo_linux_cpu_to_processor_map[i] == NULL) cpu_processor[i] = N;
			if (cpuinfo_linux_cpu_to_core_map[i] == NULL) cpu_core[i] = N;
			cpu_kind[i] = cpuinfo_linux_cpu_to_uarch_index_map == NULL ? 0 : cpuinfo_linux_cpu_to_uarch_index_map[i];
		}
	}
}
/* ranges of a table follow each other: element i ends where the next one starts */
#define TILES(table, n, i, start, count, all) \
	((table)[i].count != 0 && ((i) != 0 || (table)[i].start == 0) && \
	 ((i) + 1 == (n) ? (table)[i].start + (table)[i].count == (all) : (table)[i].start + (table)[i].count == (table)[(i) + 1].start))
#define HAS(element, start, count, i) ((element).start <= (i) && (i) - (element).start < (element).count)
#define RANGE(element, first, n) ((element).start == (first) && (element).count == (n))
#ifdef __arm__
#define L1(cpu, kind, listed, decoded) (IS_LISTED(cpu) && (IN.info[cpu] & CPUINFO_ARM_LINUX_VALID_##kind) == CPUINFO_ARM_LINUX_VALID_##kind ? (listed) : (decoded))
#else
#define L1(cpu, kind, listed, decoded) (decoded)
#endif

static void check_caches(uint8_t cpu, uint8_t cluster) {
	VF_ASSERT(own_l1, P[IN.p].cache[0] == IN.p && P[IN.p].cache[1] == IN.p && cpuinfo_cache_count[0] == cpuinfo_processors_count &&
		cpuinfo_cache_count[1] == cpuinfo_processors_count);
	VF_ASSERT(l1i_serves_its_processor, RANGE(CACHE[0][IN.p], IN.p, 1));
	VF_ASSERT(l1d_serves_its_processor, RANGE(CACHE[1][IN.p], IN.p, 1));
	VF_ASSERT(l1_size, CACHE[0][IN.p].size == L1(cpu, ICACHE, IN.l1i_listed, IN.l1i) && CACHE[1][IN.p].size == L1(cpu, DCACHE, IN.l1d_listed, IN.l1d));
	VF_ASSERT(no_l4, P[IN.p].cache[4] == N);
	const uint8_t l2 = P[IN.p].cache[2], l3 = P[IN.p].cache[3];
	if (IN.l3[cluster] == 0 && IN.l2[cluster] == 0)
		VF_ASSERT(no_l2, l2 == N);
	else {
		VF_ASSERT(points_to_l2, l2 < N);
		if (l2 < N) {
			VF_ASSERT(l2_serves_processors, IN.l3[cluster] != 0 ? RANGE(CACHE[2][l2], IN.p, 1) : RANGE(CACHE[2][l2], CLUSTER[cluster].start, CLUSTER[cluster].count));
			VF_ASSERT(l2_description, CACHE[2][l2].size == IN.l2[cluster] && CACHE[2][l2].described);
		}
	}
	if (IN.l3[cluster] == 0)
		VF_ASSERT(no_l3, l3 == N);
	else {
		bool shared = true;
		for (uint8_t j = 0; j < N; j++)
			if (j < cpuinfo_clusters_count && IN.l3[j] != IN.l3[0]) shared = false;
		VF_ASSERT(points_to_l3, l3 < N);
		if (l3 < N) {
			VF_ASSERT(l3_serves_processors, shared ? RANGE(CACHE[3][l3], 0, cpuinfo_processors_count) : RANGE(CACHE[3][l3], CLUSTER[cluster].start, CLUSTER[cluster].count));
			VF_ASSERT(l3_description, CACHE[3][l3].size == IN.l3[cluster] && CACHE[3][l3].described);
		}
	}
	/* no cache record without processors */
	for (uint8_t l = 2; l < 4; l++)
		for (uint8_t j = 0; j < N; j++)
			if (j == IN.q && j < cpuinfo_cache_count[l]) {
				const uint32_t first = CACHE[l][j].start;
				VF_ASSERT(every_cache_is_used, first < N && CACHE[l][j].count != 0 && (first >= N || P[first].cache[l] == j));
			}
}
static void check_kinds(uint8_t cpu) {
	const uint32_t kind = cpu_kind[cpu];
	uint32_t n = 0, all = 0;
	VF_ASSERT(has_a_kind, kind < cpuinfo_uarchs_count && cpuinfo_uarchs_count <= N);
	for (uint8_t j = 0; j < N; j++) {
		if (usable(j) && cpu_kind[j] == kind) n++;
		if (j < cpuinfo_uarchs_count) all += KIND[j].processors;
	}
	if (kind >= N) return;
	VF_ASSERT(kinds_partition_processors, KIND[kind].processors == n && KIND[kind].cores == n && all == cpuinfo_processors_count);
	VF_ASSERT(kind_of_the_core, KIND[kind].uarch == UARCH(IN.midr[leader[cpu]]));
}
static void check_tables(void) {
	VF_ASSERT(every_usable_processor_is_counted, cpuinfo_processors_count == usable_processors() && cpuinfo_cores_count == usable_processors());
	VF_ASSERT(tables_have_room, tables_have_room());
	VF_ASSERT(lookup_covers_every_cpu, cpuinfo_linux_cpu_max == total());
	VF_ASSERT(cluster_count, cpuinfo_clusters_count == all_clusters());
	VF_ASSERT(max_cache_size, cpuinfo_max_cache_size == IN.max_cache_size && largest_of == cpuinfo_processors);
	VF_ASSERT(package, cpuinfo_packages_count == 1 && cpuinfo_packages->name[0] == 'P' && cpuinfo_packages->name[1] == 0 &&
		cpuinfo_packages->processor_start == 0 && cpuinfo_packages->processor_count == cpuinfo_processors_count &&
		cpuinfo_packages->core_start == 0 && cpuinfo_packages->core_count == cpuinfo_cores_count &&
		cpuinfo_packages->cluster_start == 0 && cpuinfo_packages->cluster_count == cpuinfo_clusters_count);
	if (!tables_have_room()) return;
	look();
	/* lookup tables; IN.q: any system processor */
	if (IN.q < total()) {
		const uint8_t k = cpu_processor[IN.q];
		if (usable(IN.q)) {
			VF_ASSERT(lookup_finds_the_processor, k < N && P[k].cpu == IN.q);
			VF_ASSERT(lookup_finds_the_core, k >= N || cpu_core[IN.q] == P[k].core);
		} else
			VF_ASSERT(no_lookup_of_unusable, k == N && cpu_core[IN.q] == N);
	}
	if (IN.p >= cpuinfo_processors_count || IN.q >= cpuinfo_processors_count) return;
	const uint8_t core = P[IN.p].core, cluster = P[IN.p].cluster, cpu = P[IN.p].cpu;
	VF_ASSERT(processor_is_usable, cpu < N && usable(cpu) && P[IN.q].cpu < N);
	VF_ASSERT(processors_differ, IN.p == IN.q || cpu != P[IN.q].cpu);
	VF_ASSERT(processor_points_into_tables, core == IN.p && cluster < N && P[IN.p].package);
	if (cpu >= N || P[IN.q].cpu >= N || core >= N || cluster >= N) return;
	const uint32_t midr = IN.midr[leader[cpu]];
	VF_ASSERT(own_core, P[IN.p].smt == 0 && RANGE(CORE[core], IN.p, 1) && CORE[core].id == core);
	VF_ASSERT(core_agrees, CORE[core].cluster == cluster && CORE[core].package);
	VF_ASSERT(core_description, CORE[core].midr == midr && CORE[core].vendor == VENDOR(midr) && CORE[core].uarch == UARCH(midr));
	VF_ASSERT(clusters_tile_processors, TILES(CLUSTER, cpuinfo_clusters_count, cluster, start, count, cpuinfo_processors_count));
	VF_ASSERT(cluster_cores, CLUSTER[cluster].core_start == CLUSTER[cluster].start && CLUSTER[cluster].core_count == CLUSTER[cluster].count);
	VF_ASSERT(cluster_contains_processor, HAS(CLUSTER[cluster], start, count, IN.p));
	VF_ASSERT(same_cluster, HAS(CLUSTER[cluster], start, count, IN.q) == (leader[cpu] == leader[P[IN.q].cpu]));
	VF_ASSERT(cluster_description, CLUSTER[cluster].id == cluster && CLUSTER[cluster].package && CLUSTER[cluster].midr == midr &&
		CLUSTER[cluster].vendor == VENDOR(midr) && CLUSTER[cluster].uarch == UARCH(midr));
	VF_ASSERT(caches_of_the_cluster, decoded[cluster].same && decoded[cluster].cores == CLUSTER[cluster].count && decoded[cluster].midr == midr &&
		decoded[cluster].uarch == UARCH(midr));
	check_kinds(cpu);
	check_caches(cpu, cluster);
}
#define INIT(REQ, ENS, RET) \
	REQ(sizes, KERNEL >= 1 && KERNEL <= N && POSSIBLE <= KERNEL && PRESENT <= KERNEL) \
	REQ(cache_size, IN.max_cache_size != 0) \
	REQ(choice, IN.p < N && IN.q < N) \
	ENS(succeeds_or_fails, cpuinfo_is_initialized == !failing()) \
	ENS(nothing_on_failure, cpuinfo_is_initialized || nothing_published()) \
	ENS(no_leak_on_failure, cpuinfo_is_initialized || vf_live_tables() == 0) \
	ENS(published_first, !cpuinfo_is_initialized || (published_at_barrier && !initialized_at_barrier))

enum { VF_FIRST_SITE = __COUNTER__ + 1 };
#define calloc vf_calloc
#define free vf_free
#define qsort vf_qsort
#define __sync_synchronize vf_barrier
#include <arm/linux/init.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(INIT);
	for (uint32_t i = 0; i < N; i++) {
		VF_ASSUME(IN.cluster[i] < N && IN.siblings[i] < N);
		/* cluster detection (C26) */
		VF_ASSUME(!usable(i) || (IN.leader[i] <= i && usable(IN.leader[i]) && IN.leader[IN.leader[i]] == IN.leader[i]));
	}
#ifdef FAIL
	VF_COVER(failed_allocation, VF_FAIL == 8 && LISTING_OK && usable_processors() == N);
#else
	VF_ASSUME(usable_processors() != 0 && (POSSIBLE != 0 || PRESENT != 0));
#endif
	VF_COVER(all_processors, usable_processors() == N);
	find_leaders();
	cpuinfo_arm_linux_init();
	VF_POST(INIT, 0);
#ifndef FAIL
	if (cpuinfo_is_initialized) {
		check_tables();
		VF_ASSERT(only_published_tables_are_kept, vf_live_tables() == 8 + (cpuinfo_linux_cpu_to_uarch_index_map != NULL) +
			(cpuinfo_cache[2] != NULL) + (cpuinfo_cache[3] != NULL));
	}
#endif
	VF_REACH(end);
}
