/* Numbers and CPU lists from sysfs are decoded exactly.
 * WHICH: the function.
 * UNIT_NUMBERS: numeric files, every contents that fits the reader's buffer.
 * UNIT_LISTS: limits, presence flags and sibling lists; bounded number of ranges and processors. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <inttypes.h>
#include <linux/api.h>

#define TEXT 31 /* longest numeric file that is read */
#ifndef RANGES
#define RANGES 3
#endif
#ifndef TABLE
#define TABLE 4
#endif
typedef struct {
	uint32_t processor;
	bool readable;      /* the file can be read */
	uint8_t length;
	char text[TEXT];    /* what follows the text in memory is arbitrary */
	uint32_t old;
	uint8_t ranges;
	struct { uint32_t start, end; } range[RANGES];
	uint8_t reject;     /* the sibling callback rejects this range */
	uint32_t limit;     /* maximum processors count */
	uint32_t cpu;       /* one arbitrary processor */
	uint32_t flag, other;
	uint32_t flags[TABLE];
} inputs_t;
VF_INPUTS(inputs_t)

static struct {
	unsigned files, lists, calls;
	bool name_ok;       /* the right file was read */
	bool rejected, has_cpu;
} G;
static int CONTEXT;
static const char* EXPECTED; /* name of the file, \1 for the processor number */

/* formatting of file names: text, %u, %s; a number is written as the mark \1 and counted with its real length */
static int vf_snprintf(char* out, size_t size, const char* format, ...) {
	va_list args;
	size_t at = 0;
	unsigned extra = 0;
	va_start(args, format);
	for (const char* f = format; *f != 0; f++) {
		if (*f != '%') {
			if (at < size) out[at] = *f;
			at++;
		} else if (*++f == 'u') {
			uint32_t v = va_arg(args, uint32_t);
			VF_ASSERT(name_of_the_asked_processor, v == IN.processor);
			for (uint32_t p = 10, d = 1; d < 10; d++, p *= 10) extra += v >= p;
			if (at < size) out[at] = '\1';
			at++;
		} else if (*f == 's') {
			for (const char* s = va_arg(args, const char*); *s != 0; s++) {
				if (at < size) out[at] = *s;
				at++;
			}
		} else {
			VF_FITS(format, 0);
		}
	}
	va_end(args);
	if (size != 0) out[at < size ? at : size - 1] = 0;
	VF_ASSERT(name_fits, at + extra < size);
	return (int)(at + extra);
}
#define snprintf vf_snprintf
static bool name_is(const char* name) {
	for (size_t i = 0;; i++) {
		if (name[i] != EXPECTED[i]) return false;
		if (name[i] == 0) return true;
	}
}

/* contract of the small file reader (property C15) */
static char FILE_TEXT[TEXT];
bool cpuinfo_linux_parse_small_file(const char* filename, size_t buffer_size, cpuinfo_smallfile_callback callback, void* context) {
	G.files++;
	VF_ASSERT(reads_the_right_file, name_is(filename));
	if (IN.readable == 0 || IN.length >= buffer_size) return false;
	return callback(filename, FILE_TEXT, &FILE_TEXT[IN.length], context);
}
/* contract of the CPU list reader (property C14) */
bool cpuinfo_linux_parse_cpulist(const char* filename, cpuinfo_cpulist_callback callback, void* context) {
	bool ok = IN.readable != 0;
	G.lists++;
	VF_ASSERT(reads_the_right_file, name_is(filename));
	for (uint8_t i = 0; i < RANGES; i++)
		if (i < IN.ranges) ok &= callback(IN.range[i].start, IN.range[i].end, context);
	return ok;
}

#ifdef UNIT_NUMBERS
static bool numeric, in_domain;
static uint32_t number;
static void decode(void) {
	uint32_t n = 0;
	uint8_t digits = 0;
	for (uint8_t i = 0; i < TEXT; i++) {
		if (i >= IN.length || IN.text[i] < '0' || IN.text[i] > '9') break;
		n = n * 10 + (uint32_t)(IN.text[i] - '0');
		digits++;
	}
	numeric = IN.readable != 0 && digits != 0;
	in_domain = digits <= 9 /* numbers below 10^9 */;
	number = n;
}
enum { MAXIMUM, CURRENT_HZ, MAXIMUM_HZ, MINIMUM_HZ, CORE, PACKAGE, FUNCTIONS };
static uint32_t stored;
#define NUMBERS(REQ, ENS, RET) \
	REQ(length, IN.length <= TEXT) \
	REQ(values, (decode(), in_domain)) \
	ENS(read_once, G.files == 1 && G.lists == 0) \
	ENS(limit, WHICH != MAXIMUM || (RET) == (numeric ? number + 1 : CPU_SETSIZE)) \
	ENS(frequency, WHICH < CURRENT_HZ || WHICH > MINIMUM_HZ || (RET) == (numeric ? number : 0)) \
	ENS(known, WHICH < CORE || (RET) == numeric) \
	ENS(id, stored == (WHICH >= CORE && numeric ? number : IN.old))
#else
static bool listed; /* cpu is in the list */
static uint32_t last;
static bool in_domain;
static void decode(void) {
	listed = false;
	last = 0;
	in_domain = true;
	for (uint8_t i = 0; i < RANGES; i++)
		if (i < IN.ranges) {
			if (IN.range[i].start >= IN.range[i].end) in_domain = false;
			if (IN.range[i].end - 1 > last) last = IN.range[i].end - 1;
			if (IN.cpu >= IN.range[i].start && IN.cpu < IN.range[i].end) listed = true;
		}
}
static bool siblings(uint32_t processor, uint32_t start, uint32_t end, void* context) {
	VF_ASSERT(sibling_arguments, processor == IN.processor && context == &CONTEXT);
	VF_ASSERT(siblings_below_the_limit, end <= IN.limit);
	if (IN.cpu >= start && IN.cpu < end) G.has_cpu = true;
	if (G.calls == IN.reject) G.rejected = true;
	return G.calls++ != IN.reject;
}
enum { POSSIBLE_LIMIT, PRESENT_LIMIT, POSSIBLE, PRESENT, CORE_CPUS, CORE_SIBLINGS, THREADS, CLUSTER, PACKAGES, FUNCTIONS };
static struct record { uint32_t before, flags, after; } records[TABLE];
#define LIMITS (WHICH <= PRESENT_LIMIT)
#define TABLES (WHICH == POSSIBLE || WHICH == PRESENT)
static bool table_ok(void) {
	for (uint32_t i = 0; i < TABLE; i++) {
		if (records[i].before != IN.other || records[i].after != IN.other) return false;
		if (i != IN.cpu && (records[i].flags & ~IN.flag) != (IN.flags[i] & ~IN.flag)) return false;
		if (i == IN.cpu && records[i].flags != (TABLES && listed && i < IN.limit ? IN.flags[i] | IN.flag : IN.flags[i])) return false;
	}
	return true;
}
#define NUMBERS(REQ, ENS, RET) \
	REQ(ranges, IN.ranges <= RANGES) \
	REQ(values, (decode(), in_domain)) \
	REQ(limit, IN.limit >= 1 && (!TABLES || IN.limit <= TABLE)) \
	ENS(read_once, G.lists == 1 && G.files == 0) \
	ENS(largest, !LIMITS || (RET) == (IN.readable == 0 ? UINT32_MAX : last < IN.limit ? last : IN.limit - 1)) \
	ENS(status, LIMITS || (RET) == (IN.readable != 0 && !G.rejected)) \
	ENS(flags, table_ok()) \
	ENS(siblings, WHICH < CORE_CPUS || G.has_cpu == (listed && IN.cpu < IN.limit))
#endif

#include <linux/processors.c>

#define CPU "/sys/devices/system/cpu/cpu\1/"
void harness(void) {
	uint32_t r = 0;
	VF_LOAD();
	VF_PRE(NUMBERS);
	memset(&G, 0, sizeof G);
#ifdef UNIT_NUMBERS
	memcpy(FILE_TEXT, IN.text, TEXT);
	VF_COVER(long, IN.length == TEXT);
	stored = IN.old;
	switch (WHICH) {
		case MAXIMUM: EXPECTED = "/sys/devices/system/cpu/kernel_max"; r = cpuinfo_linux_get_max_processors_count(); break;
		case CURRENT_HZ: EXPECTED = CPU "cpufreq/cpuinfo_cur_freq"; r = cpuinfo_linux_get_processor_cur_frequency(IN.processor); break;
		case MAXIMUM_HZ: EXPECTED = CPU "cpufreq/cpuinfo_max_freq"; r = cpuinfo_linux_get_processor_max_frequency(IN.processor); break;
		case MINIMUM_HZ: EXPECTED = CPU "cpufreq/cpuinfo_min_freq"; r = cpuinfo_linux_get_processor_min_frequency(IN.processor); break;
		case CORE: EXPECTED = CPU "topology/core_id"; r = cpuinfo_linux_get_processor_core_id(IN.processor, &stored); break;
		case PACKAGE: EXPECTED = CPU "topology/physical_package_id"; r = cpuinfo_linux_get_processor_package_id(IN.processor, &stored); break;
	}
#else
	for (uint32_t i = 0; i < TABLE; i++) {
		records[i].before = records[i].after = IN.other;
		records[i].flags = IN.flags[i];
	}
	VF_COVER(several, IN.ranges == RANGES);
	switch (WHICH) {
		case POSSIBLE_LIMIT: EXPECTED = "/sys/devices/system/cpu/possible"; r = cpuinfo_linux_get_max_possible_processor(IN.limit); break;
		case PRESENT_LIMIT: EXPECTED = "/sys/devices/system/cpu/present"; r = cpuinfo_linux_get_max_present_processor(IN.limit); break;
		case POSSIBLE: EXPECTED = "/sys/devices/system/cpu/possible"; r = cpuinfo_linux_detect_possible_processors(IN.limit, &records[0].flags, sizeof(struct record), IN.flag); break;
		case PRESENT: EXPECTED = "/sys/devices/system/cpu/present"; r = cpuinfo_linux_detect_present_processors(IN.limit, &records[0].flags, sizeof(struct record), IN.flag); break;
		case CORE_CPUS: EXPECTED = CPU "topology/core_cpus_list"; r = cpuinfo_linux_detect_core_cpus(IN.limit, IN.processor, siblings, &CONTEXT); break;
		case CORE_SIBLINGS: EXPECTED = CPU "topology/core_siblings_list"; r = cpuinfo_linux_detect_core_siblings(IN.limit, IN.processor, siblings, &CONTEXT); break;
		case THREADS: EXPECTED = CPU "topology/thread_siblings_list"; r = cpuinfo_linux_detect_thread_siblings(IN.limit, IN.processor, siblings, &CONTEXT); break;
		case CLUSTER: EXPECTED = CPU "topology/cluster_cpus_list"; r = cpuinfo_linux_detect_cluster_cpus(IN.limit, IN.processor, siblings, &CONTEXT); break;
		case PACKAGES: EXPECTED = CPU "topology/package_cpus_list"; r = cpuinfo_linux_detect_package_cpus(IN.limit, IN.processor, siblings, &CONTEXT); break;
	}
#endif
	VF_POST(NUMBERS, r);
	(void)r;
	VF_REACH(end);
}
