/* cpuinfo_x86_linux_init: the published tables form a consistent hierarchy, or nothing is published.
 * What it calls is replaced by contracts: system lists (C14, C17), processor listing (C18), processor description (C02,
 * C05), brand string (C06), qsort (sorts, in any order of equal elements).
 * Bounded: up to N processors. ALL: exactly N of them, all usable. FAIL: allocations may fail. CACHES: levels that
 * may have a cache. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <cpuinfo.h>
#include <cpuinfo/internal-api.h>
#include <linux/api.h>
#include <x86/api.h>
#include <x86/linux/api.h>

typedef struct {
	uint32_t kernel, possible, present; /* numbers of processors; 0 for the last two: unknown */
	bool is_possible[N], is_present[N], is_listed[N], listing_ok;
	uint32_t apic[N];
	struct cpuinfo_x86_topology topology;
	struct cpuinfo_x86_cache cache[5];
	enum cpuinfo_vendor vendor;
	enum cpuinfo_uarch uarch;
	uint32_t cpuid, max_cache_size;
	uint8_t fail;            /* allocation that fails */
	uint8_t swap;            /* order of equal processors */
	uint8_t p, q;            /* arbitrary processors */
} inputs_t;
VF_INPUTS(inputs_t)
#ifdef FAIL
#define VF_FAIL IN.fail
#else
#define VF_FAIL UINT8_MAX
#endif
#ifdef ALL
#define KERNEL N
#define POSSIBLE N
#define PRESENT N
#define IS_POSSIBLE(i) true
#define IS_PRESENT(i) true
#define IS_LISTED(i) true
#else
#define KERNEL IN.kernel
#define POSSIBLE IN.possible
#define PRESENT IN.present
#define IS_POSSIBLE(i) (IN.is_possible[i] != 0)
#define IS_PRESENT(i) (IN.is_present[i] != 0)
#define IS_LISTED(i) (IN.is_listed[i] != 0)
#endif
#ifdef FAIL
#define LISTING_OK (IN.listing_ok != 0)
#else
#define LISTING_OK true
#endif
#ifndef LEVEL /* whose caches are checked */
#define LEVEL 3
#endif
#ifndef CACHES
#define CACHES 31
#endif
#define CACHE_SIZE(l) (CACHES >> (l) & 1 ? IN.cache[l].size : 0)
#include "vf_tables.h"

bool cpuinfo_is_initialized;
struct cpuinfo_processor* cpuinfo_processors;
struct cpuinfo_core* cpuinfo_cores;
struct cpuinfo_cluster* cpuinfo_clusters;
struct cpuinfo_package* cpuinfo_packages;
struct cpuinfo_cache* cpuinfo_cache[cpuinfo_cache_level_max];
uint32_t cpuinfo_processors_count, cpuinfo_cores_count, cpuinfo_clusters_count, cpuinfo_packages_count;
uint32_t cpuinfo_cache_count[cpuinfo_cache_level_max];
uint32_t cpuinfo_max_cache_size;
struct cpuinfo_uarch_info cpuinfo_global_uarch;
uint32_t cpuinfo_linux_cpu_max;
const struct cpuinfo_processor** cpuinfo_linux_cpu_to_processor_map;
const struct cpuinfo_core** cpuinfo_linux_cpu_to_core_map;

#ifdef VF_CBMC
static struct cpuinfo_processor pool_processors[N];
static struct cpuinfo_core pool_cores[VF_ALLOCATIONS][N];
static struct cpuinfo_cluster pool_clusters[N];
static struct cpuinfo_package pool_packages[N];
static struct cpuinfo_cache pool_caches[VF_ALLOCATIONS][N];
static struct cpuinfo_x86_linux_processor pool_linux[N];
static const void* pool_pointers[VF_ALLOCATIONS][N];
/* tables are told apart by the size of their elements */
static void* vf_pool(size_t size, const char* element, uint8_t k) {
	if (size == sizeof(struct cpuinfo_x86_linux_processor)) return pool_linux;
	if (size == sizeof(struct cpuinfo_processor)) return pool_processors;
	if (size == sizeof(struct cpuinfo_cluster) && vf_mentions(element, "cpuinfo_cluster")) return pool_clusters;
	if (size == sizeof(struct cpuinfo_core)) return pool_cores[k];
	if (size == sizeof(struct cpuinfo_package)) return pool_packages;
	if (size == sizeof(struct cpuinfo_cluster)) return pool_clusters;
	if (size == sizeof(struct cpuinfo_cache)) return pool_caches[k];
	VF_FITS(known_table, size == sizeof(void*));
	return pool_pointers[k];
}
#endif

/* surroundings */
uint32_t cpuinfo_linux_get_max_processors_count(void) { return KERNEL; }
uint32_t cpuinfo_linux_get_max_possible_processor(uint32_t max) { return POSSIBLE - 1; }
uint32_t cpuinfo_linux_get_max_present_processor(uint32_t max) { return PRESENT - 1; }
static void mark(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag, bool possible) {
	VF_ASSERT(flags_of_the_processor_table, size == sizeof(struct cpuinfo_x86_linux_processor));
	struct cpuinfo_x86_linux_processor* table =
		(struct cpuinfo_x86_linux_processor*)((char*)flags - offsetof(struct cpuinfo_x86_linux_processor, flags));
	for (uint32_t i = 0; i < N; i++)
		if (i < max && (possible ? IS_POSSIBLE(i) : IS_PRESENT(i))) table[i].flags |= flag;
}
bool cpuinfo_linux_detect_possible_processors(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag) {
	mark(max, flags, size, flag, true);
	return true;
}
bool cpuinfo_linux_detect_present_processors(uint32_t max, uint32_t* flags, uint32_t size, uint32_t flag) {
	mark(max, flags, size, flag, false);
	return true;
}
bool cpuinfo_x86_linux_parse_proc_cpuinfo(uint32_t max, struct cpuinfo_x86_linux_processor* table) {
	for (uint32_t i = 0; i < N; i++)
		if (i < max && IS_LISTED(i)) {
			table[i].flags |= CPUINFO_LINUX_FLAG_PROC_CPUINFO | CPUINFO_LINUX_FLAG_APIC_ID;
			table[i].apic_id = IN.apic[i];
		}
	return LISTING_OK;
}
void cpuinfo_x86_init_processor(struct cpuinfo_x86_processor* processor) {
	processor->topology = IN.topology;
	processor->cache.l1i = IN.cache[0];
	processor->cache.l1i.size = CACHE_SIZE(0);
	processor->cache.l1d = IN.cache[1];
	processor->cache.l1d.size = CACHE_SIZE(1);
	processor->cache.l2 = IN.cache[2];
	processor->cache.l2.size = CACHE_SIZE(2);
	processor->cache.l3 = IN.cache[3];
	processor->cache.l3.size = CACHE_SIZE(3);
	processor->cache.l4 = IN.cache[4];
	processor->cache.l4.size = CACHE_SIZE(4);
	processor->vendor = IN.vendor;
	processor->uarch = IN.uarch;
	processor->cpuid = IN.cpuid;
}
uint32_t cpuinfo_x86_normalize_brand_string(const char raw[48], char clean[48]) {
	clean[0] = 'B';
	clean[1] = 0;
	return 1;
}
uint32_t cpuinfo_x86_format_package_name(enum cpuinfo_vendor vendor, const char clean[48], char name[CPUINFO_PACKAGE_NAME_MAX]) {
	VF_ASSERT(name_from_brand_string, vendor == IN.vendor && clean[0] == 'B');
	name[0] = 'P';
	name[1] = 0;
	return 1;
}
uint32_t cpuinfo_compute_max_cache_size(const struct cpuinfo_processor* processor) {
	VF_ASSERT(max_cache_size_of_a_processor, vf_live(processor) && vf_asked(processor) != 0);
	return IN.max_cache_size;
}
static bool published_at_barrier, initialized_at_barrier;
static bool published(void);
static void vf_barrier(void) {
	published_at_barrier = published();
	initialized_at_barrier = cpuinfo_is_initialized;
}
static void vf_qsort(void* base, size_t count, size_t size, int (*compare)(const void*, const void*)) {
	struct cpuinfo_x86_linux_processor* a = base;
	uint8_t swap = IN.swap;
	VF_ASSERT(sorts_the_processor_table, size == sizeof a[0]);
	for (uint32_t n = N; n > 1; n--)
		for (uint32_t i = 1; i < n; i++) {
			if (i >= count) continue;
			const int order = compare(&a[i - 1], &a[i]);
			if (order > 0 || (order == 0 && swap & 1)) {
				struct cpuinfo_x86_linux_processor t = a[i];
				a[i] = a[i - 1];
				a[i - 1] = t;
			}
			swap >>= 1;
		}
}

/* reference */
static uint32_t least(uint32_t a, uint32_t b) { return a < b ? a : b; }
static uint32_t total(void) {
	uint32_t n = KERNEL;
	if (PRESENT != 0) n = least(n, PRESENT);
	if (POSSIBLE != 0) n = least(n, POSSIBLE);
	return n;
}
static bool usable(uint32_t i) {
	return i < total() && (PRESENT != 0 ? IS_PRESENT(i) : IS_LISTED(i)) && (POSSIBLE == 0 || IS_POSSIBLE(i));
}
static uint32_t usable_processors(void) {
	uint32_t n = 0;
	for (uint32_t i = 0; i < N; i++) n += usable(i);
	return n;
}
static uint32_t apic_of(uint32_t i) { return IS_LISTED(i) ? IN.apic[i] : 0; }
static uint32_t core_bits(void) { return IN.topology.thread_bits_length; }
static uint32_t package_bits(void) { return IN.topology.thread_bits_length + IN.topology.core_bits_length; }
static uint32_t cluster_bits(void) {
	uint32_t bits = 0;
	for (uint32_t l = 1; l < 5; l++)
		if (CACHE_SIZE(l) != 0) bits = IN.cache[l].apic_bits;
	if (bits < core_bits()) bits = core_bits();
	return least(bits, package_bits());
}

static bool published(void) {
	bool all = cpuinfo_processors != NULL && cpuinfo_cores != NULL && cpuinfo_clusters != NULL && cpuinfo_packages != NULL &&
		cpuinfo_processors_count != 0 && cpuinfo_cores_count != 0 && cpuinfo_clusters_count != 0 && cpuinfo_packages_count != 0 &&
		cpuinfo_linux_cpu_to_processor_map != NULL && cpuinfo_linux_cpu_to_core_map != NULL && cpuinfo_linux_cpu_max != 0 &&
		cpuinfo_max_cache_size == IN.max_cache_size && cpuinfo_global_uarch.processor_count != 0;
	for (int l = 0; l < 5; l++)
		if (CACHE_SIZE(l) != 0 && (cpuinfo_cache[l] == NULL || cpuinfo_cache_count[l] == 0)) all = false;
	return all;
}
static bool nothing_published(void) {
	bool none = cpuinfo_processors == NULL && cpuinfo_cores == NULL && cpuinfo_clusters == NULL && cpuinfo_packages == NULL &&
		cpuinfo_processors_count == 0 && cpuinfo_cores_count == 0 && cpuinfo_clusters_count == 0 && cpuinfo_packages_count == 0 &&
		cpuinfo_linux_cpu_to_processor_map == NULL && cpuinfo_linux_cpu_to_core_map == NULL && cpuinfo_linux_cpu_max == 0 &&
		cpuinfo_max_cache_size == 0 && cpuinfo_global_uarch.processor_count == 0;
	for (int l = 0; l < 5; l++)
		if (cpuinfo_cache[l] != NULL || cpuinfo_cache_count[l] != 0) none = false;
	return none;
}
static bool failing(void) { return VF_FAIL < vf_asked_tables || !LISTING_OK || usable_processors() == 0; }

/* the published tables with pointers turned into positions; NONE: does not point into the table */
#define NONE 255
static struct { uint32_t apic, smt; uint8_t cpu, core, cluster, package, cache[5]; } P[N];
static struct { uint32_t start, count, id; uint8_t cluster, package; bool described; } CORE[N];
static struct { uint32_t start, count, core_start, core_count, id; uint8_t package; bool described; } CLUSTER[N];
static struct { uint32_t start, count, core_start, core_count, cluster_start, cluster_count; bool described; } PACKAGE[N];
static struct { uint32_t start, count; bool described; } CACHE[5][N];
static uint8_t cpu_processor[N], cpu_core[N];
#define POSITION(at, pointer, table, n) \
	do { \
		(at) = NONE; \
		for (uint8_t j = 0; j < N; j++) \
			if (j < (n) && (pointer) == &(table)[j]) (at) = j; \
	} while (0)
static bool room(const void* table, uint32_t count) { return vf_live(table) && vf_asked(table) >= count && count != 0 && count <= N; }
static bool tables_have_room(void) {
	return room(cpuinfo_processors, cpuinfo_processors_count) && room(cpuinfo_cores, cpuinfo_cores_count) &&
		room(cpuinfo_clusters, cpuinfo_clusters_count) && room(cpuinfo_packages, cpuinfo_packages_count) &&
		room(cpuinfo_linux_cpu_to_processor_map, cpuinfo_linux_cpu_max) && room(cpuinfo_linux_cpu_to_core_map, cpuinfo_linux_cpu_max);
}
static void look_cache(uint8_t l, uint8_t i, const struct cpuinfo_cache* mine) {
	POSITION(P[i].cache[l], mine, cpuinfo_cache[l], cpuinfo_cache_count[l]);
	if (mine == NULL) P[i].cache[l] = N; /* no cache */
}
static void look(void) {
	for (uint8_t i = 0; i < N; i++) {
		if (i < cpuinfo_processors_count) {
			const struct cpuinfo_processor* p = &cpuinfo_processors[i];
			P[i].apic = p->apic_id;
			P[i].smt = p->smt_id;
			P[i].cpu = p->linux_id >= 0 && p->linux_id < N ? p->linux_id : NONE;
			POSITION(P[i].core, p->core, cpuinfo_cores, cpuinfo_cores_count);
			POSITION(P[i].cluster, p->cluster, cpuinfo_clusters, cpuinfo_clusters_count);
			POSITION(P[i].package, p->package, cpuinfo_packages, cpuinfo_packages_count);
			look_cache(0, i, p->cache.l1i);
			look_cache(1, i, p->cache.l1d);
			look_cache(2, i, p->cache.l2);
			look_cache(3, i, p->cache.l3);
			look_cache(4, i, p->cache.l4);
		}
		if (i < cpuinfo_cores_count) {
			const struct cpuinfo_core* c = &cpuinfo_cores[i];
			CORE[i].start = c->processor_start;
			CORE[i].count = c->processor_count;
			CORE[i].id = c->core_id;
			CORE[i].described = c->vendor == IN.vendor && c->uarch == IN.uarch && c->cpuid == IN.cpuid;
			POSITION(CORE[i].cluster, c->cluster, cpuinfo_clusters, cpuinfo_clusters_count);
			POSITION(CORE[i].package, c->package, cpuinfo_packages, cpuinfo_packages_count);
		}
		if (i < cpuinfo_clusters_count) {
			const struct cpuinfo_cluster* c = &cpuinfo_clusters[i];
			CLUSTER[i].start = c->processor_start;
			CLUSTER[i].count = c->processor_count;
			CLUSTER[i].core_start = c->core_start;
			CLUSTER[i].core_count = c->core_count;
			CLUSTER[i].id = c->cluster_id;
			CLUSTER[i].described = c->vendor == IN.vendor && c->uarch == IN.uarch && c->cpuid == IN.cpuid;
			POSITION(CLUSTER[i].package, c->package, cpuinfo_packages, cpuinfo_packages_count);
		}
		if (i < cpuinfo_packages_count) {
			const struct cpuinfo_package* c = &cpuinfo_packages[i];
			PACKAGE[i].start = c->processor_start;
			PACKAGE[i].count = c->processor_count;
			PACKAGE[i].core_start = c->core_start;
			PACKAGE[i].core_count = c->core_count;
			PACKAGE[i].cluster_start = c->cluster_start;
			PACKAGE[i].cluster_count = c->cluster_count;
			PACKAGE[i].described = c->name[0] == 'P' && c->name[1] == 0;
		}
		for (uint8_t l = 0; l < 5; l++)
			if (cpuinfo_cache[l] != NULL && i < cpuinfo_cache_count[l]) {
				const struct cpuinfo_cache* c = &cpuinfo_cache[l][i];
				const struct cpuinfo_x86_cache* x = &IN.cache[l];
				CACHE[l][i].start = c->processor_start;
				CACHE[l][i].count = c->processor_count;
				CACHE[l][i].described = c->size == x->size && c->associativity == x->associativity && c->sets == x->sets &&
					c->partitions == x->partitions && c->line_size == x->line_size && c->flags == x->flags;
			}
		if (i < cpuinfo_linux_cpu_max) {
			POSITION(cpu_processor[i], cpuinfo_linux_cpu_to_processor_map[i], cpuinfo_processors, cpuinfo_processors_count);
			POSITION(cpu_core[i], cpuinfo_linux_cpu_to_core_map[i], cpuinfo_cores, cpuinfo_cores_count);
			if (cpuinfo_linux_cpu_to_processor_map[i] == NULL) cpu_processor[i] = N;
			if (cpuinfo_linux_cpu_to_core_map[i] == NULL) cpu_core[i] = N;
		}
	}
}
static bool together(uint32_t bits) { return P[IN.p].apic >> bits == P[IN.q].apic >> bits; }
/* ranges of a table follow each other: element i ends where the next one starts */
#define TILES(table, n, i, start, count, all) \
	((table)[i].count != 0 && ((i) != 0 || (table)[i].start == 0) && \
	 ((i) + 1 == (n) ? (table)[i].start + (table)[i].count == (all) : (table)[i].start + (table)[i].count == (table)[(i) + 1].start))
#define HAS(element, start, count, i) ((element).start <= (i) && (i) - (element).start < (element).count)

static void check_caches(uint8_t l) {
	const uint8_t k = P[IN.p].cache[l];
	if (CACHE_SIZE(l) == 0) {
		VF_ASSERT(no_cache, k == N && cpuinfo_cache[l] == NULL && cpuinfo_cache_count[l] == 0);
		return;
	}
	VF_ASSERT(cache_table_has_room, room(cpuinfo_cache[l], cpuinfo_cache_count[l]));
	VF_ASSERT(processor_points_to_a_cache, k < N);
	if (k >= N) return;
	VF_ASSERT(caches_tile_processors, TILES(CACHE[l], cpuinfo_cache_count[l], k, start, count, cpuinfo_processors_count));
	VF_ASSERT(cache_serves_processor, HAS(CACHE[l][k], start, count, IN.p));
	VF_ASSERT(shared_cache, HAS(CACHE[l][k], start, count, IN.q) == together(IN.cache[l].apic_bits));
	VF_ASSERT(cache_description, CACHE[l][k].described);
}
static void check_tables(void) {
	VF_ASSERT(every_usable_processor_is_counted, cpuinfo_processors_count == usable_processors());
	VF_ASSERT(tables_have_room, tables_have_room());
	VF_ASSERT(lookup_covers_every_cpu, cpuinfo_linux_cpu_max == total());
	VF_ASSERT(global_uarch, cpuinfo_global_uarch.uarch == IN.uarch && cpuinfo_global_uarch.cpuid == IN.cpuid &&
		cpuinfo_global_uarch.processor_count == cpuinfo_processors_count && cpuinfo_global_uarch.core_count == cpuinfo_cores_count);
	VF_ASSERT(max_cache_size, cpuinfo_max_cache_size == IN.max_cache_size);
	if (!tables_have_room()) return;
	look();
	/* lookup tables; IN.q: any system processor */
	if (IN.q < total()) {
		const uint8_t k = cpu_processor[IN.q];
		if (usable(IN.q)) {
			VF_ASSERT(lookup_finds_the_processor, k < N && P[k].cpu == IN.q);
			VF_ASSERT(lookup_finds_the_core, k >= N || cpu_core[IN.q] == P[k].core);
		} else
			VF_ASSERT(no_lookup_of_unusable, k == N && cpu_core[IN.q] == N);
	}
	if (IN.p >= cpuinfo_processors_count || IN.q >= cpuinfo_processors_count) return;
	const uint8_t core = P[IN.p].core, cluster = P[IN.p].cluster, package = P[IN.p].package;
	VF_ASSERT(processor_is_usable, P[IN.p].cpu < N && usable(P[IN.p].cpu) && P[IN.p].apic == apic_of(P[IN.p].cpu));
	VF_ASSERT(processors_differ, IN.p == IN.q || P[IN.p].cpu != P[IN.q].cpu);
	VF_ASSERT(processor_points_into_tables, core < N && cluster < N && package < N);
	if (core >= N || cluster >= N || package >= N) return;
	VF_ASSERT(cores_tile_processors, TILES(CORE, cpuinfo_cores_count, core, start, count, cpuinfo_processors_count));
	VF_ASSERT(clusters_tile_processors, TILES(CLUSTER, cpuinfo_clusters_count, cluster, start, count, cpuinfo_processors_count));
	VF_ASSERT(clusters_tile_cores, TILES(CLUSTER, cpuinfo_clusters_count, cluster, core_start, core_count, cpuinfo_cores_count));
	VF_ASSERT(packages_tile_processors, TILES(PACKAGE, cpuinfo_packages_count, package, start, count, cpuinfo_processors_count));
	VF_ASSERT(packages_tile_cores, TILES(PACKAGE, cpuinfo_packages_count, package, core_start, core_count, cpuinfo_cores_count));
	VF_ASSERT(packages_tile_clusters, TILES(PACKAGE, cpuinfo_packages_count, package, cluster_start, cluster_count, cpuinfo_clusters_count));
	VF_ASSERT(core_contains_processor, HAS(CORE[core], start, count, IN.p));
	VF_ASSERT(cluster_contains_processor, HAS(CLUSTER[cluster], start, count, IN.p));
	VF_ASSERT(package_contains_processor, HAS(PACKAGE[package], start, count, IN.p));
	VF_ASSERT(cluster_contains_core, HAS(CLUSTER[cluster], core_start, core_count, core));
	VF_ASSERT(package_contains_core, HAS(PACKAGE[package], core_start, core_count, core));
	VF_ASSERT(package_contains_cluster, HAS(PACKAGE[package], cluster_start, cluster_count, cluster));
	VF_ASSERT(core_agrees, CORE[core].cluster == cluster && CORE[core].package == package);
	VF_ASSERT(cluster_agrees, CLUSTER[cluster].package == package);
	VF_ASSERT(same_core, HAS(CORE[core], start, count, IN.q) == together(core_bits()));
	VF_ASSERT(same_cluster, HAS(CLUSTER[cluster], start, count, IN.q) == together(cluster_bits()));
	VF_ASSERT(same_package, HAS(PACKAGE[package], start, count, IN.q) == together(package_bits()));
	VF_ASSERT(ids_within_parent, P[IN.p].smt == IN.p - CORE[core].start && CORE[core].id == core - PACKAGE[package].core_start &&
		CLUSTER[cluster].id == cluster - PACKAGE[package].cluster_start);
	VF_ASSERT(descriptions, CORE[core].described && CLUSTER[cluster].described && PACKAGE[package].described);
	check_caches(LEVEL);
}
#define INIT(REQ, ENS, RET) \
	REQ(sizes, KERNEL >= 1 && KERNEL <= N && POSSIBLE <= KERNEL && PRESENT <= KERNEL) \
	REQ(topology, IN.topology.thread_bits_offset == 0 && (IN.topology.core_bits_offset == IN.topology.thread_bits_length || IN.topology.core_bits_length == 0) && \
		IN.topology.core_bits_offset <= 31 && IN.topology.thread_bits_length <= 31 && IN.topology.core_bits_length <= 31 && package_bits() <= 31) \
	REQ(caches, IN.cache[0].apic_bits <= 12 && IN.cache[1].apic_bits <= 12 && IN.cache[2].apic_bits <= 12 && IN.cache[3].apic_bits <= 12 && IN.cache[4].apic_bits <= 12) \
	REQ(cache_size, IN.max_cache_size != 0) \
	REQ(choice, IN.p < N && IN.q < N) \
	ENS(succeeds_or_fails, cpuinfo_is_initialized == !failing()) \
	ENS(nothing_on_failure, cpuinfo_is_initialized || nothing_published()) \
	ENS(no_leak_on_failure, cpuinfo_is_initialized || vf_live_tables() == 0) \
	ENS(published_first, !cpuinfo_is_initialized || (published_at_barrier && !initialized_at_barrier))

enum { VF_FIRST_SITE = __COUNTER__ + 1 };
#define calloc vf_calloc
#define free vf_free
#define qsort vf_qsort
#define __sync_synchronize vf_barrier
#include <x86/linux/init.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(INIT);
	for (uint32_t i = 0; i < N; i++)
#ifdef APIC
		VF_ASSUME(IN.apic[i] < APIC);
#else
		VF_ASSUME(IN.apic[i] != UINT32_MAX); /* not an APIC ID: addresses all processors */
#endif

#ifdef FAIL
	VF_COVER(failed_allocation, VF_FAIL == 8 && LISTING_OK && usable_processors() == N);
#else
	VF_ASSUME(usable_processors() != 0);
#endif
	VF_COVER(all_processors, usable_processors() == N);
	cpuinfo_x86_linux_init();
	VF_POST(INIT, 0);
#ifndef FAIL
	if (cpuinfo_is_initialized) {
		check_tables();
		VF_ASSERT(only_published_tables_are_kept, vf_live_tables() == 6 + (CACHE_SIZE(0) != 0) + (CACHE_SIZE(1) != 0) + (CACHE_SIZE(2) != 0) +
			(CACHE_SIZE(3) != 0) + (CACHE_SIZE(4) != 0));
	}
#endif
	VF_REACH(end);
}
