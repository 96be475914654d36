/* Lines of the x86 processor listing attach APIC IDs to the right processors and change nothing else.
 * The reader (property C16) is replaced by its contract: it passes three lines - a processor line with any number, an
 * arbitrary line, and an APIC ID line that shows which processor is selected then.
 * Bounded: the arbitrary line has PREFIX followed by up to LINE arbitrary bytes. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <cpuinfo.h>
#include <linux/api.h>
#include <x86/linux/api.h>

#define TABLE 3
#ifndef PREFIX
#define PREFIX ""
#endif
#define SKIP (sizeof(PREFIX) - 1)
#define SIZE (SKIP + LINE)
typedef struct {
	uint32_t max;        /* processors in the table */
	char first;          /* digit of the first line */
	uint8_t length;      /* arbitrary bytes of the second line */
	char text[LINE];
	struct { uint32_t apic_id, linux_id, flags; } old[TABLE];
} inputs_t;
VF_INPUTS(inputs_t)

/* reference reading */
static struct { uint32_t apic_id, linux_id, flags; } NOW[TABLE];
static uint32_t selected;
static char line[SIZE];  /* ends with the second line */
static bool in_domain;

static bool key_is(const char* key, uint8_t from, uint8_t to) {
	uint8_t n = 0;
	for (; key[n] != 0; n++)
		if (from + n >= to || line[from + n] != key[n]) return false;
	return from + n == to;
}
static void choose(uint32_t n) {
	selected = n;
	if (n < IN.max) NOW[n].flags |= CPUINFO_LINUX_FLAG_PROC_CPUINFO;
}
static void apic(uint32_t n) {
	if (selected < IN.max) {
		NOW[selected].apic_id = n;
		NOW[selected].flags |= CPUINFO_LINUX_FLAG_APIC_ID;
	}
}
static void second(void) {
	const uint8_t start = LINE - IN.length;
	uint8_t colon = SIZE, key_end = start, value = SIZE, value_end = SIZE, digits = 0;
	bool all = true;
	uint32_t n = 0;
	for (uint8_t i = 0; i < SIZE; i++) {
		if (i < start) continue;
		const char c = line[i];
		if (colon == SIZE) {
			if (c == ':') colon = i;
			else if (c != ' ' && c != '\t') key_end = i + 1;
		} else if (c != ' ') {
			if (value == SIZE) value = i;
			value_end = i + 1;
		}
	}
	if (value == SIZE) return; /* no separator or no value */
	for (uint8_t i = 0; i < SIZE; i++) {
		if (i < value || i >= value_end) continue;
		if (line[i] < '0' || line[i] > '9') all = false;
		if (all) {
			n = n * 10 + (uint32_t)(line[i] - '0');
			digits++;
		}
	}
	in_domain = digits <= 9;
	if (key_is("processor", start, key_end)) choose(n);
	if (key_is("apicid", start, key_end) && all) apic(n);
}
static bool table_ok(const struct cpuinfo_x86_linux_processor* t) {
	for (uint32_t i = 0; i < TABLE; i++)
		if (t[i].apic_id != NOW[i].apic_id || t[i].linux_id != NOW[i].linux_id || t[i].flags != NOW[i].flags) return false;
	return true;
}
static struct cpuinfo_x86_linux_processor PROCESSORS[TABLE];
static unsigned files;
static bool in_file;

#define LISTING(REQ, ENS, RET) \
	REQ(sizes, IN.max <= TABLE && IN.length <= LINE && IN.first >= '0' && IN.first <= '9') \
	ENS(read_once, files == 1) \
	ENS(status, (RET) == in_file) \
	ENS(records, table_ok(PROCESSORS))

static char first_line[] = {'p', 'r', 'o', 'c', 'e', 's', 's', 'o', 'r', '\t', ':', ' ', '0'};
static char last_line[] = {'a', 'p', 'i', 'c', 'i', 'd', '\t', '\t', ':', ' ', '7', '1'};
bool cpuinfo_linux_parse_multiline_file(const char* filename, size_t size, cpuinfo_line_callback callback, void* context) {
	files++;
	first_line[sizeof first_line - 1] = IN.first;
	in_file = callback(first_line, first_line + sizeof first_line, context, 1) &&
		callback(&line[LINE - IN.length], &line[SIZE], context, 2) && callback(last_line, last_line + sizeof last_line, context, 3);
	VF_ASSERT(every_line_is_accepted, in_file);
	return in_file;
}
#include <x86/linux/cpuinfo.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(LISTING);
	files = 0;
	for (uint32_t i = 0; i < TABLE; i++) {
		NOW[i].apic_id = PROCESSORS[i].apic_id = IN.old[i].apic_id;
		NOW[i].linux_id = PROCESSORS[i].linux_id = IN.old[i].linux_id;
		NOW[i].flags = PROCESSORS[i].flags = IN.old[i].flags;
	}
	for (uint8_t i = 0; i < SKIP; i++) line[LINE - IN.length + i] = PREFIX[i];
	for (uint8_t i = 0; i < LINE; i++)
		if (i < IN.length) line[SIZE - IN.length + i] = IN.text[i];
	selected = 0;
	in_domain = true;
	choose((uint32_t)(IN.first - '0'));
	second();
	VF_ASSUME(in_domain);
	apic(71);
	VF_COVER(long_line, IN.length == LINE);
	bool r = cpuinfo_x86_linux_parse_proc_cpuinfo(IN.max, PROCESSORS);
	VF_POST(LISTING, r);
	(void)r;
	VF_REACH(end);
}
