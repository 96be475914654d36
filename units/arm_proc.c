/* Lines of the ARM processor listing decode to the right record and change nothing else.
 * The reader (property C16) is replaced by its contract: it passes three lines - a processor line with any number, an
 * arbitrary line, and a CPU part line that shows which processor is selected then.
 * Bounded: the arbitrary line is PREFIX followed by up to LINE arbitrary bytes.
 * ONE_BYTE: the line is PREFIX with one arbitrary byte changed.
 * LINES: the line is one of the listed ones, and ends with the memory it is in. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <cpuinfo.h>
#include <linux/api.h>
#include <arm/linux/api.h>

#define TABLE 2
#ifndef MANY /* least number of processors, and least first processor */
#define MANY TABLE
#endif
#define SKIP 0
#define START 0
#define END length
#if defined(ONE_BYTE)
static const char prefix[] = PREFIX;
#define LINE (sizeof(prefix) - 1)
#elif defined(LINES)
static const char* const lines[] = {LINES};
#define LINE 48
#undef START
#undef END
#define START (LINE - length)
#define END LINE
#else
static const char prefix[] = PREFIX;
#undef SKIP
#undef END
#define SKIP (sizeof(prefix) - 1)
#define END (SKIP + length)
#endif
#define SIZE (SKIP + LINE)
typedef struct {
#if defined(ONE_BYTE)
	uint8_t at;          /* changed byte of the second line */
	char text;
#elif !defined(LINES)
	uint8_t length;      /* arbitrary bytes of the second line */
	char text[LINE];
#endif
	struct cpuinfo_arm_linux_processor old[TABLE];
} inputs_t;
VF_INPUTS(inputs_t)
/* like inputs of these names or running through all values, but constants in each branch of the harness */
static uint8_t length, at, which;
/* unless chosen otherwise the records are of two processors, and the first line names the second of them */
static uint32_t max = TABLE;
static char first = '1';

#ifdef VF_CBMC
static int vf_memcmp(const void* p, const void* q, size_t n) {
	const unsigned char *a = p, *b = q;
	for (size_t i = 0; i < n; i++)
		if (a[i] != b[i]) return 1;
	return 0;
}
static void* vf_memcpy(void* to, const void* from, size_t n) {
	char* t = to;
	const char* f = from;
	for (size_t i = 0; i < n; i++) t[i] = f[i];
	return to;
}
#endif

/* reference reading */
static struct cpuinfo_arm_linux_processor NOW[TABLE];
static struct cpuinfo_arm_linux_processor other; /* processors outside the table */
static uint32_t selected;
static char line[SIZE];
static bool in_domain, any_architecture;
static uint8_t key_end, value, value_end;
static uint8_t hardware_from, hardware_to, revision_from, revision_to; /* texts; empty: none */

/* the text from position from to position to is s */
static bool text_is(const char* s, uint8_t from, uint8_t to) {
	uint8_t n = 0;
	for (; s[n] != 0; n++)
		if (from + n >= to || line[from + n] != s[n]) return false;
	return from + n == to;
}
#define KEY(s) text_is(s, START, key_end)
static void choose(uint32_t n) {
	selected = n;
	if (n < max) NOW[n].flags |= CPUINFO_ARM_LINUX_VALID_PROCESSOR;
}
static struct cpuinfo_arm_linux_processor* current(void) {
	return selected < max ? &NOW[selected] : &other;
}
/* number spelled by the leading decimal digits of the value; *digits of them */
static uint32_t decimal(uint8_t* digits) {
	uint32_t n = 0;
	*digits = 0;
	for (uint8_t i = SKIP; i < SIZE; i++) {
		if (i < value) continue;
		if (i >= value_end || line[i] < '0' || line[i] > '9') break;
		n = n * 10 + (uint32_t)(line[i] - '0');
		++*digits;
	}
	if (*digits > 9) in_domain = false;
	return n;
}
/* 0x and 1 to most hexadecimal digits */
static bool hexadecimal(uint8_t most, uint32_t* n) {
	const uint8_t length = value_end - value;
	*n = 0;
	if (length < 3 || length > 2 + most || line[value] != '0' || line[value + 1] != 'x') return false;
	for (uint8_t i = 2; i < 2 + most; i++) {
		if (i >= length) break;
		const char c = line[value + i];
		if (c >= '0' && c <= '9') *n = *n * 16 + (uint32_t)(c - '0');
		else if (c >= 'a' && c <= 'f') *n = *n * 16 + (uint32_t)(c - 'a' + 10);
		else if (c >= 'A' && c <= 'F') *n = *n * 16 + (uint32_t)(c - 'A' + 10);
		else return false;
	}
	return true;
}
static void field(uint32_t n, unsigned shift, uint32_t mask, uint32_t flag) {
	struct cpuinfo_arm_linux_processor* p = current();
	p->midr = (p->midr & ~(mask << shift)) | (n & mask) << shift;
	p->flags |= flag | CPUINFO_ARM_LINUX_VALID_PROCESSOR;
}
static void architecture(void) {
	struct cpuinfo_arm_linux_processor* p = current();
	uint8_t digits;
	const uint32_t n = decimal(&digits);
	uint32_t code = 0xF;
	if (text_is("AArch64", value, value_end)) {
		p->architecture_version = 8;
		field(0xF, 16, 0xF, CPUINFO_ARM_LINUX_VALID_ARCHITECTURE);
		return;
	}
	if (n == 0) {
		any_architecture = true; /* malformed: the architecture code is not specified */
		return;
	}
	p->architecture_version = n;
#if CPUINFO_ARCH_ARM
	for (uint8_t i = SKIP; i < SIZE; i++) {
		if (i < value + digits || i >= value_end) continue;
		if (line[i] == 'T') p->architecture_flags |= CPUINFO_ARM_LINUX_ARCH_T;
		if (line[i] == 'E') p->architecture_flags |= CPUINFO_ARM_LINUX_ARCH_E;
		if (line[i] == 'J') p->architecture_flags |= CPUINFO_ARM_LINUX_ARCH_J;
	}
	if (n == 6) code = 7;
	if (n == 5) code = (p->architecture_flags & 7) == 7 ? 6 : (p->architecture_flags & 3) == 3 ? 5 : 4;
#endif
	field(code, 16, 0xF, CPUINFO_ARM_LINUX_VALID_ARCHITECTURE);
}
static void feature(uint8_t from, uint8_t to) {
	struct cpuinfo_arm_linux_processor* p = current();
#define WORD(name, word, bits) if (text_is(name, from, to)) p->word |= bits;
#if CPUINFO_ARCH_ARM64
	/* bits of arch/arm64/include/uapi/asm/hwcap.h */
	WORD("fp", features, 1 << 0) WORD("asimd", features, 1 << 1) WORD("evtstrm", features, 1 << 2) WORD("aes", features, 1 << 3)
	WORD("pmull", features, 1 << 4) WORD("sha1", features, 1 << 5) WORD("sha2", features, 1 << 6) WORD("crc32", features, 1 << 7)
	WORD("atomics", features, 1 << 8) WORD("fphp", features, 1 << 9) WORD("asimdhp", features, 1 << 10) WORD("cpuid", features, 1 << 11)
	WORD("asimdrdm", features, 1 << 12) WORD("jscvt", features, 1 << 13) WORD("fcma", features, 1 << 14) WORD("lrcpc", features, 1 << 15)
	WORD("asimdfhm", features, 1 << 23) WORD("i8mm", features2, 1 << 13)
#else
	/* bits of arch/arm/include/uapi/asm/hwcap.h; "wp" and "tlsi" are misspelt by some kernels */
	WORD("swp", features, 1 << 0) WORD("wp", features, 1 << 0) WORD("half", features, 1 << 1) WORD("thumb", features, 1 << 2)
	WORD("26bit", features, 1 << 3) WORD("fastmult", features, 1 << 4) WORD("fpa", features, 1 << 5) WORD("vfp", features, 1 << 6)
	WORD("edsp", features, 1 << 7) WORD("java", features, 1 << 8) WORD("iwmmxt", features, 1 << 9) WORD("crunch", features, 1 << 10)
	WORD("thumbee", features, 1 << 11) WORD("neon", features, 1 << 12) WORD("vfpv3", features, 1 << 13) WORD("vfpv3d16", features, 1 << 14)
	WORD("tls", features, 1 << 15) WORD("tlsi", features, 1 << 15) WORD("vfpv4", features, 1 << 16) WORD("idiva", features, 1 << 17)
	WORD("idivt", features, 1 << 18) WORD("vfpd32", features, 1 << 19) WORD("lpae", features, 1 << 20) WORD("evtstrm", features, 1 << 21)
	WORD("aes", features2, 1 << 0) WORD("pmull", features2, 1 << 1) WORD("sha1", features2, 1 << 2) WORD("sha2", features2, 1 << 3)
	WORD("crc32", features2, 1 << 4)
#endif
}
static void features(void) {
	uint8_t from = value;
	current()->flags |= CPUINFO_ARM_LINUX_VALID_FEATURES | CPUINFO_ARM_LINUX_VALID_PROCESSOR;
	for (uint8_t i = SKIP; i <= SIZE; i++) {
		if (i < value || i > value_end) continue;
		if (i == value_end || line[i] == ' ') {
			feature(from, i);
			from = i + 1;
		}
	}
}
#if CPUINFO_ARCH_ARM
static void cache(uint32_t* number, uint32_t flag, bool is_line) {
	struct cpuinfo_arm_linux_processor* p = current();
	uint8_t digits;
	const uint32_t n = decimal(&digits);
	if (digits != value_end - value || n == 0 || (is_line && n != 16 && n != 32 && n != 64 && n != 128)) return;
	*number = n;
	p->flags |= flag | CPUINFO_ARM_LINUX_VALID_PROCESSOR;
}
#endif
static void second(void) {
	uint8_t colon = SIZE + 1, digits;
	uint32_t n;
	key_end = START;
	value = value_end = SIZE + 1;
	for (uint8_t i = START; i < END; i++) {
		const char c = line[i];
		if (colon > SIZE) {
			if (c == ':') colon = i;
			else if (c != ' ' && c != '\t') key_end = i + 1;
		} else if (c != ' ') {
			if (value > SIZE) value = i;
			value_end = i + 1;
		}
	}
	if (value > SIZE) return; /* no separator or no value */
	if (KEY("processor")) choose(decimal(&digits));
	if ((KEY("CPU implementer") || KEY("CPU implementor")) && hexadecimal(2, &n)) field(n, 24, 0xFF, CPUINFO_ARM_LINUX_VALID_IMPLEMENTER);
	if (KEY("CPU variant") && hexadecimal(1, &n)) field(n, 20, 0xF, CPUINFO_ARM_LINUX_VALID_VARIANT);
	if (KEY("CPU part") && hexadecimal(3, &n)) field(n, 4, 0xFFF, CPUINFO_ARM_LINUX_VALID_PART);
	if (KEY("CPU revision")) {
		n = decimal(&digits);
		if (digits == value_end - value) field(n, 0, 0xF, CPUINFO_ARM_LINUX_VALID_REVISION);
	}
	if (KEY("CPU architecture")) architecture();
	if (KEY("Features")) features();
	if (KEY("Hardware")) {
		hardware_from = value;
		hardware_to = value_end;
	}
	if (KEY("Revision")) {
		revision_from = value;
		revision_to = value_end;
	}
#if CPUINFO_ARCH_ARM
	struct cpuinfo_arm_linux_proc_cpuinfo_cache* c = &current()->proc_cpuinfo_cache;
	if (KEY("I size")) cache(&c->i_size, CPUINFO_ARM_LINUX_VALID_ICACHE_SIZE, false);
	if (KEY("I assoc")) cache(&c->i_assoc, CPUINFO_ARM_LINUX_VALID_ICACHE_WAYS, false);
	if (KEY("I line length")) cache(&c->i_line_length, CPUINFO_ARM_LINUX_VALID_ICACHE_LINE, true);
	if (KEY("I sets")) cache(&c->i_sets, CPUINFO_ARM_LINUX_VALID_ICACHE_SETS, false);
	if (KEY("D size")) cache(&c->d_size, CPUINFO_ARM_LINUX_VALID_DCACHE_SIZE, false);
	if (KEY("D assoc")) cache(&c->d_assoc, CPUINFO_ARM_LINUX_VALID_DCACHE_WAYS, false);
	if (KEY("D line length")) cache(&c->d_line_length, CPUINFO_ARM_LINUX_VALID_DCACHE_LINE, true);
	if (KEY("D sets")) cache(&c->d_sets, CPUINFO_ARM_LINUX_VALID_DCACHE_SETS, false);
#endif
}
#define SAME(f) (a->f == b->f)
static bool same(const struct cpuinfo_arm_linux_processor* a, const struct cpuinfo_arm_linux_processor* b) {
	const uint32_t midr = any_architecture ? ~(UINT32_C(0xF) << 16) : UINT32_MAX;
#if CPUINFO_ARCH_ARM
	if (!(SAME(architecture_flags) && SAME(proc_cpuinfo_cache.i_size) && SAME(proc_cpuinfo_cache.i_assoc) && SAME(proc_cpuinfo_cache.i_line_length) &&
	      SAME(proc_cpuinfo_cache.i_sets) && SAME(proc_cpuinfo_cache.d_size) && SAME(proc_cpuinfo_cache.d_assoc) &&
	      SAME(proc_cpuinfo_cache.d_line_length) && SAME(proc_cpuinfo_cache.d_sets)))
		return false;
#endif
	return SAME(architecture_version) && SAME(features) && SAME(features2) && (a->midr & midr) == (b->midr & midr) && SAME(vendor) && SAME(uarch) &&
		SAME(uarch_index) && SAME(package_id) && SAME(package_leader_id) && SAME(package_processor_count) && SAME(max_frequency) &&
		SAME(min_frequency) && SAME(system_processor_id) && SAME(flags);
}
/* buffer of size bytes holds the text, cut to the buffer and terminated if there is room */
static bool holds(const char* buffer, uint8_t size, uint8_t from, uint8_t to) {
	for (uint8_t i = 0; i < size; i++) {
		if (from + i == to) return buffer[i] == 0;
		if (buffer[i] != line[from + i]) return false;
	}
	return true;
}
static struct cpuinfo_arm_linux_processor PROCESSORS[TABLE];
static char HARDWARE[CPUINFO_HARDWARE_VALUE_MAX], REVISION[CPUINFO_REVISION_VALUE_MAX];
static unsigned files;

#define LISTING(REQ, ENS, RET) \
	ENS(read_once, files == 1) \
	ENS(status, (RET)) \
	ENS(first_record, same(&PROCESSORS[0], &NOW[0])) \
	ENS(second_record, same(&PROCESSORS[1], &NOW[1])) \
	ENS(hardware, holds(HARDWARE, CPUINFO_HARDWARE_VALUE_MAX, hardware_from, hardware_to)) \
	ENS(revision, holds(REVISION, CPUINFO_REVISION_VALUE_MAX, revision_from, revision_to))

static char first_line[] = {'p', 'r', 'o', 'c', 'e', 's', 's', 'o', 'r', '\t', ':', ' ', '0'};
static char last_line[] = {'C', 'P', 'U', ' ', 'p', 'a', 'r', 't', '\t', ':', ' ', '0', 'x', '1', '2', '3'};
bool cpuinfo_linux_parse_multiline_file(const char* filename, size_t size, cpuinfo_line_callback callback, void* context) {
	bool ok;
	files++;
	first_line[sizeof first_line - 1] = first;
	ok = callback(first_line, first_line + sizeof first_line, context, 1) && callback(&line[START], &line[END], context, 2) &&
		callback(last_line, last_line + sizeof last_line, context, 3);
	VF_ASSERT(every_line_is_accepted, ok);
	return ok;
}
#ifdef VF_CBMC
#define memcmp vf_memcmp
#define memcpy vf_memcpy
#endif
#include <arm/linux/cpuinfo.c>

static void run(void) {
	files = 0;
	hardware_from = hardware_to = revision_from = revision_to = 0;
	in_domain = true;
	any_architecture = false;
	for (uint32_t i = 0; i < TABLE; i++) NOW[i] = PROCESSORS[i] = IN.old[i];
#if defined(ONE_BYTE)
	for (uint8_t i = 0; i < LINE; i++) line[i] = i == at ? IN.text : prefix[i];
#elif defined(LINES)
	for (length = 0; lines[which][length] != 0; length++) continue;
	for (uint8_t i = 0; i < length; i++) line[START + i] = lines[which][i];
#else
	for (uint8_t i = 0; i < SKIP; i++) line[i] = prefix[i];
	for (uint8_t i = 0; i < LINE; i++) line[SKIP + i] = IN.text[i];
#endif
	choose((uint32_t)(first - '0'));
	second();
	field(0x123, 4, 0xFFF, CPUINFO_ARM_LINUX_VALID_PART);
	VF_ASSUME(in_domain);
	bool r = cpuinfo_arm_linux_parse_proc_cpuinfo(HARDWARE, REVISION, max, PROCESSORS);
	VF_POST(LISTING, r);
	(void)r;
}

void harness(void) {
	VF_LOAD();
#if defined(LINES)
	for (max = MANY; max <= TABLE; max++)
		for (first = '0' + (MANY == TABLE ? TABLE - 1 : 0); first < '0' + TABLE; first++)
			for (which = 0; which < sizeof lines / sizeof lines[0]; which++) run();
	VF_REACH(end);
#elif defined(ONE_BYTE)
	length = LINE;
	for (at = 0; at < LINE; at++)
		if (IN.at == at) {
			run();
			VF_COVER(same_line, IN.text == prefix[at]);
			VF_REACH(end);
			return;
		}
#else
	for (length = 0; length <= LINE; length++)
		if (IN.length == length) {
			run();
			VF_COVER(long_line, IN.length == LINE);
			VF_REACH(end);
			return;
		}
#endif
}
