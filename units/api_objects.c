/* Object accessors of src/api.c, on every architecture.
 * UNIT_OBJECTS: every count, table and by-index accessor on an initialised library.
 * UNIT_EARLY:   the same accessors, and the current-processor queries, on an uninitialised library.
 * UNIT_CURRENT: the current-processor queries for any CPU number the operating system reports. */
#include "vf.h"
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sched.h>
#include <cpuinfo.h>

#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
#define MULTI_UARCH 0
#else
#define MULTI_UARCH 1
#endif

typedef struct {
	bool initialized, os_ok, map_present;
	uint32_t index, n_processors, n_cores, n_clusters, n_packages, n_uarchs, n_cache[5], max_cache;
	uint32_t cpu, cpu_max, default_index, which;
	uint32_t uarch_index;
	uintptr_t processor, core;
} inputs_t;
VF_INPUTS(inputs_t)

/* the operating system's answer */
static long vf_getcpu(unsigned* cpu) {
	if (!IN.os_ok) return -1;
	if (cpu) *cpu = IN.cpu;
	return 0;
}
static long vf_syscall(long number, unsigned* cpu, void* node, void* unused) {
	VF_ASSERT(getcpu_syscall, number == __NR_getcpu);
	return vf_getcpu(cpu);
}
#define syscall vf_syscall
#define getcpu(cpu, node) ((int)vf_getcpu(cpu))
#define sched_getcpu() (IN.os_ok ? (int)IN.cpu : -1)

#ifdef VF_CBMC
void abort(void) {
#ifdef UNIT_EARLY
	VF_REACH(abort_called);
#endif
	__CPROVER_assume(0);
}
#endif
void cpuinfo_vlog_fatal(const char* format, __builtin_va_list args) {}

#include <api.c>

static struct results {
	const struct cpuinfo_processor *processors, *processor, *current;
	const struct cpuinfo_core *cores, *core, *current_core;
	const struct cpuinfo_cluster *clusters, *cluster;
	const struct cpuinfo_package *packages, *package;
	const struct cpuinfo_uarch_info *uarchs, *uarch;
	const struct cpuinfo_cache *caches[5], *cache[5];
	uint32_t n_processors, n_cores, n_clusters, n_packages, n_uarchs, n_cache[5], max_cache, uarch_index, uarch_default;
} R;

/* what initialisation published */
static struct tables {
	struct cpuinfo_processor* processors;
	struct cpuinfo_core* cores;
	struct cpuinfo_cluster* clusters;
	struct cpuinfo_package* packages;
	struct cpuinfo_uarch_info* uarchs;
	struct cpuinfo_cache* cache[5];
	const struct cpuinfo_processor** cpu_to_processor;
	const struct cpuinfo_core** cpu_to_core;
	uint32_t* cpu_to_uarch;
} T;
static void* table(uint32_t count, size_t size) {
#ifdef VF_CBMC
	return __CPROVER_allocate((__CPROVER_size_t)count * size, 1);
#else
	return calloc(count, size);
#endif
}
static void publish(void) {
	T.processors = table(IN.n_processors, sizeof(struct cpuinfo_processor));
	T.cores = table(IN.n_cores, sizeof(struct cpuinfo_core));
	T.clusters = table(IN.n_clusters, sizeof(struct cpuinfo_cluster));
	T.packages = table(IN.n_packages, sizeof(struct cpuinfo_package));
	T.cache[0] = table(IN.n_cache[0], sizeof(struct cpuinfo_cache));
	T.cache[1] = table(IN.n_cache[1], sizeof(struct cpuinfo_cache));
	T.cache[2] = table(IN.n_cache[2], sizeof(struct cpuinfo_cache));
	T.cache[3] = table(IN.n_cache[3], sizeof(struct cpuinfo_cache));
	T.cache[4] = table(IN.n_cache[4], sizeof(struct cpuinfo_cache));
	cpuinfo_is_initialized = IN.initialized;
	cpuinfo_processors = T.processors;
	cpuinfo_cores = T.cores;
	cpuinfo_clusters = T.clusters;
	cpuinfo_packages = T.packages;
	cpuinfo_cache[cpuinfo_cache_level_1i] = T.cache[0];
	cpuinfo_cache[cpuinfo_cache_level_1d] = T.cache[1];
	cpuinfo_cache[cpuinfo_cache_level_2] = T.cache[2];
	cpuinfo_cache[cpuinfo_cache_level_3] = T.cache[3];
	cpuinfo_cache[cpuinfo_cache_level_4] = T.cache[4];
	cpuinfo_processors_count = IN.n_processors;
	cpuinfo_cores_count = IN.n_cores;
	cpuinfo_clusters_count = IN.n_clusters;
	cpuinfo_packages_count = IN.n_packages;
	cpuinfo_cache_count[cpuinfo_cache_level_1i] = IN.n_cache[0];
	cpuinfo_cache_count[cpuinfo_cache_level_1d] = IN.n_cache[1];
	cpuinfo_cache_count[cpuinfo_cache_level_2] = IN.n_cache[2];
	cpuinfo_cache_count[cpuinfo_cache_level_3] = IN.n_cache[3];
	cpuinfo_cache_count[cpuinfo_cache_level_4] = IN.n_cache[4];
	cpuinfo_max_cache_size = IN.max_cache;
	cpuinfo_linux_cpu_max = IN.cpu_max;
	T.cpu_to_processor = table(IN.cpu_max, sizeof(void*));
	T.cpu_to_core = table(IN.cpu_max, sizeof(void*));
	if (IN.cpu < IN.cpu_max) {
		T.cpu_to_processor[IN.cpu] = (const struct cpuinfo_processor*)IN.processor;
		T.cpu_to_core[IN.cpu] = (const struct cpuinfo_core*)IN.core;
	}
	cpuinfo_linux_cpu_to_processor_map = T.cpu_to_processor;
	cpuinfo_linux_cpu_to_core_map = T.cpu_to_core;
#if MULTI_UARCH
	T.uarchs = table(IN.n_uarchs, sizeof(struct cpuinfo_uarch_info));
	cpuinfo_uarchs = T.uarchs;
	cpuinfo_uarchs_count = IN.n_uarchs;
	T.cpu_to_uarch = NULL;
	if (IN.map_present) {
		T.cpu_to_uarch = table(IN.cpu_max, sizeof(uint32_t));
		if (IN.cpu < IN.cpu_max) T.cpu_to_uarch[IN.cpu] = IN.uarch_index;
	}
	cpuinfo_linux_cpu_to_uarch_index_map = T.cpu_to_uarch;
#else
	T.uarchs = &cpuinfo_global_uarch;
#endif
}
/* tables exist in memory, so their size is limited by the address space */
#define LIMIT (sizeof(void*) == 8 ? UINT32_MAX : UINT32_C(0x1000))
#define IN_MEMORY(n) ((n) <= LIMIT)
#define ALL_IN_MEMORY (IN_MEMORY(IN.n_processors) && IN_MEMORY(IN.n_cores) && IN_MEMORY(IN.n_clusters) && \
	IN_MEMORY(IN.n_packages) && IN_MEMORY(IN.n_uarchs) && IN_MEMORY(IN.n_cache[0]) && IN_MEMORY(IN.n_cache[1]) && \
	IN_MEMORY(IN.n_cache[2]) && IN_MEMORY(IN.n_cache[3]) && IN_MEMORY(IN.n_cache[4]) && IN_MEMORY(IN.cpu_max))

#if defined(UNIT_OBJECTS)
static void ask_all(void);
#define UARCHS (MULTI_UARCH ? IN.n_uarchs : 1)
#define TABLE(ENS, one, many) \
	ENS(many, R.many == T.many) \
	ENS(one, R.one == (IN.index < IN.n_##many ? T.many + IN.index : NULL)) \
	ENS(many##_count, R.n_##many == IN.n_##many)
#define CACHE(ENS, name, i) \
	ENS(name##_caches, R.caches[i] == T.cache[i]) \
	ENS(name##_cache, R.cache[i] == (IN.index < IN.n_cache[i] ? T.cache[i] + IN.index : NULL)) \
	ENS(name##_caches_count, R.n_cache[i] == IN.n_cache[i])
#define OBJECTS(REQ, ENS, RET) \
	REQ(tables_in_memory, ALL_IN_MEMORY) \
	REQ(initialised, IN.initialized) \
	TABLE(ENS, processor, processors) TABLE(ENS, core, cores) TABLE(ENS, cluster, clusters) \
	TABLE(ENS, package, packages) \
	ENS(uarchs, R.uarchs == T.uarchs) \
	ENS(uarch, R.uarch == (IN.index < UARCHS ? T.uarchs + IN.index : NULL)) \
	ENS(uarchs_count, R.n_uarchs == UARCHS) \
	CACHE(ENS, l1i, 0) CACHE(ENS, l1d, 1) CACHE(ENS, l2, 2) CACHE(ENS, l3, 3) CACHE(ENS, l4, 4) \
	ENS(max_cache_size, R.max_cache == IN.max_cache) \
	ENS(still_initialised, cpuinfo_is_initialized)

static void ask_all(void) VF_CONTRACT(OBJECTS) VF_ASSIGNS(R);
static void ask_all(void) {
	R.processors = cpuinfo_get_processors();
	R.processor = cpuinfo_get_processor(IN.index);
	R.n_processors = cpuinfo_get_processors_count();
	R.cores = cpuinfo_get_cores();
	R.core = cpuinfo_get_core(IN.index);
	R.n_cores = cpuinfo_get_cores_count();
	R.clusters = cpuinfo_get_clusters();
	R.cluster = cpuinfo_get_cluster(IN.index);
	R.n_clusters = cpuinfo_get_clusters_count();
	R.packages = cpuinfo_get_packages();
	R.package = cpuinfo_get_package(IN.index);
	R.n_packages = cpuinfo_get_packages_count();
	R.uarchs = cpuinfo_get_uarchs();
	R.uarch = cpuinfo_get_uarch(IN.index);
	R.n_uarchs = cpuinfo_get_uarchs_count();
	R.caches[0] = cpuinfo_get_l1i_caches();
	R.caches[1] = cpuinfo_get_l1d_caches();
	R.caches[2] = cpuinfo_get_l2_caches();
	R.caches[3] = cpuinfo_get_l3_caches();
	R.caches[4] = cpuinfo_get_l4_caches();
	R.cache[0] = cpuinfo_get_l1i_cache(IN.index);
	R.cache[1] = cpuinfo_get_l1d_cache(IN.index);
	R.cache[2] = cpuinfo_get_l2_cache(IN.index);
	R.cache[3] = cpuinfo_get_l3_cache(IN.index);
	R.cache[4] = cpuinfo_get_l4_cache(IN.index);
	R.n_cache[0] = cpuinfo_get_l1i_caches_count();
	R.n_cache[1] = cpuinfo_get_l1d_caches_count();
	R.n_cache[2] = cpuinfo_get_l2_caches_count();
	R.n_cache[3] = cpuinfo_get_l3_caches_count();
	R.n_cache[4] = cpuinfo_get_l4_caches_count();
	R.max_cache = cpuinfo_get_max_cache_size();
}
void harness(void) {
	VF_LOAD();
	VF_PRE(OBJECTS);
	VF_ASSUME(ALL_IN_MEMORY && IN.initialized);
	publish();
	VF_COVER(inside, IN.index == IN.n_processors - 1 && IN.n_processors > 3);
	VF_COVER(outside, IN.index == IN.n_processors);
	ask_all();
	VF_POST(OBJECTS, 0);
	VF_REACH(end);
}

#elif defined(UNIT_EARLY)
static void ask(uint32_t which) {
	switch (which) {
#define ASK(n, call) case n: (void)call; break;
/* every query that needs an initialised library; returning from any of them is the failure */
#define QUESTIONS \
	ASK(0, cpuinfo_get_processors()) ASK(1, cpuinfo_get_processor(IN.index)) ASK(2, cpuinfo_get_processors_count()) \
	ASK(3, cpuinfo_get_cores()) ASK(4, cpuinfo_get_core(IN.index)) ASK(5, cpuinfo_get_cores_count()) \
	ASK(6, cpuinfo_get_clusters()) ASK(7, cpuinfo_get_cluster(IN.index)) ASK(8, cpuinfo_get_clusters_count()) \
	ASK(9, cpuinfo_get_packages()) ASK(10, cpuinfo_get_package(IN.index)) ASK(11, cpuinfo_get_packages_count()) \
	ASK(12, cpuinfo_get_uarchs()) ASK(13, cpuinfo_get_uarch(IN.index)) ASK(14, cpuinfo_get_uarchs_count()) \
	ASK(15, cpuinfo_get_l1i_caches()) ASK(16, cpuinfo_get_l1d_caches()) ASK(17, cpuinfo_get_l2_caches()) \
	ASK(18, cpuinfo_get_l3_caches()) ASK(19, cpuinfo_get_l4_caches()) \
	ASK(20, cpuinfo_get_l1i_cache(IN.index)) ASK(21, cpuinfo_get_l1d_cache(IN.index)) \
	ASK(22, cpuinfo_get_l2_cache(IN.index)) ASK(23, cpuinfo_get_l3_cache(IN.index)) \
	ASK(24, cpuinfo_get_l4_cache(IN.index)) \
	ASK(25, cpuinfo_get_l1i_caches_count()) ASK(26, cpuinfo_get_l1d_caches_count()) \
	ASK(27, cpuinfo_get_l2_caches_count()) ASK(28, cpuinfo_get_l3_caches_count()) ASK(29, cpuinfo_get_l4_caches_count()) \
	ASK(30, cpuinfo_get_max_cache_size()) ASK(31, cpuinfo_get_current_processor()) ASK(32, cpuinfo_get_current_core()) \
	ASK(33, cpuinfo_get_current_uarch_index()) ASK(34, cpuinfo_get_current_uarch_index_with_default(IN.default_index))
		QUESTIONS
	}
}
#define EARLY(REQ, ENS, RET) \
	REQ(tables_in_memory, ALL_IN_MEMORY) \
	REQ(not_initialised, !IN.initialized && !cpuinfo_is_initialized) \
	REQ(question, IN.which <= 34) \
	ENS(never_returns, false)
static void ask_early(void) VF_CONTRACT(EARLY) VF_ASSIGNS();
static void ask_early(void) { ask(IN.which); }
void harness(void) {
	VF_LOAD();
	VF_ASSUME(!IN.initialized && ALL_IN_MEMORY && IN.which <= 34);
	publish();
	VF_COVER(first, IN.which == 0);
	VF_COVER(last, IN.which == 34);
	ask_early();
	VF_POST(EARLY, 0);
}

#else
#define KNOWN (IN.os_ok && IN.cpu < IN.cpu_max)
#define CURRENT(REQ, ENS, RET) \
	REQ(tables_in_memory, ALL_IN_MEMORY) \
	REQ(initialised, IN.initialized) \
	ENS(processor, R.current == (KNOWN ? (const struct cpuinfo_processor*)IN.processor : NULL)) \
	ENS(core, R.current_core == (KNOWN ? (const struct cpuinfo_core*)IN.core : NULL)) \
	ENS(uarch_index, R.uarch_index == (MULTI_UARCH && IN.map_present && KNOWN ? IN.uarch_index : 0)) \
	ENS(uarch_index_default, R.uarch_default == (!MULTI_UARCH || !IN.map_present ? 0 : KNOWN ? IN.uarch_index : IN.default_index))
static void ask_current(void) VF_CONTRACT(CURRENT) VF_ASSIGNS(R);
static void ask_current(void) {
	R.current = cpuinfo_get_current_processor();
	R.current_core = cpuinfo_get_current_core();
	R.uarch_index = cpuinfo_get_current_uarch_index();
	R.uarch_default = cpuinfo_get_current_uarch_index_with_default(IN.default_index);
}
void harness(void) {
	VF_LOAD();
	VF_PRE(CURRENT);
	VF_ASSUME(ALL_IN_MEMORY && IN.initialized);
	publish();
	VF_COVER(beyond, IN.os_ok && IN.cpu == IN.cpu_max);
	VF_COVER(failed, !IN.os_ok);
	VF_COVER(usual, KNOWN && IN.map_present);
	ask_current();
	VF_POST(CURRENT, 0);
	VF_REACH(end);
}
#endif
