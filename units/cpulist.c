/* A kernel CPU list is parsed into exactly the listed ranges, for any splitting into reads; closed exactly once.
 * Bounded: files of up to MAX_FILE bytes, every content; BUF is the size of the parser's buffer.
 * ONE_READ: the file has exactly MAX_FILE bytes and is delivered by the first read.
 * UNIT_SPLIT: calls of the entry parser are replaced by its contract, which UNIT_ENTRY checks. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <unistd.h>
#include <linux/api.h>

typedef struct {
	int file;          /* descriptor, -1: cannot be opened */
	uint8_t length;    /* bytes in the file */
	uint8_t error_at;  /* reads at this position or later fail */
	bool can_fail;
	uint8_t reject;    /* the consumer rejects this range */
	uint8_t at;        /* position in an entry */
	char text[MAX_FILE];
	uint8_t chunk[MAX_FILE + 1];
} inputs_t;
VF_INPUTS(inputs_t)
#ifdef ONE_READ
#define LENGTH MAX_FILE
#else
#define LENGTH IN.length
#endif

static struct {
	uint8_t opened, closed, reads;
	uint8_t delivered; /* file position of the next read */
	uint8_t ranges;    /* ranges handed to the consumer */
	bool failed, rejected;
} G;
static const char NAME[] = "/a/file";
static int CONTEXT;

static int vf_open(const char* name, int flags) {
	VF_ASSERT(opens_the_file, name == NAME && (flags & O_ACCMODE) == O_RDONLY && G.opened == G.closed);
	if (IN.file >= 0) G.opened++;
	return IN.file >= 0 ? IN.file : -1;
}
#ifdef VF_CBMC
static void* vf_memmove(void* to, const void* from, size_t n) {
	char* t = to;
	const char* f = from;
	for (size_t i = 0; i < n; i++) t[i] = f[i];
	return to;
}
/* towards lower addresses within one buffer: a forward copy */
#define memmove(t, f, n) (VF_FITS(moves_down, (const char*)(t) <= (const char*)(f)), vf_memmove(t, f, n))
#endif
static ssize_t vf_read(int file, void* to, size_t room) {
	char* p = to;
	VF_ASSERT(reads_the_open_file, G.opened == G.closed + 1 && file == IN.file);
	VF_ASSERT(asks_for_data, room != 0);
	if (IN.can_fail != 0 && G.delivered >= IN.error_at) {
		G.failed = true;
		return -1;
	}
	uint8_t left = LENGTH - G.delivered;
	uint8_t most = left < room ? left : room;
	if (most == 0) return 0;
#ifdef ONE_READ
	uint8_t n = most;
#else
	uint8_t n = IN.chunk[G.reads];
	VF_ASSUME(n >= 1 && n <= most);
#endif
	for (uint8_t i = 0; i < n; i++) p[i] = IN.text[G.delivered + i];
	G.delivered += n;
	G.reads++;
	return (ssize_t)n;
}
static int vf_close(int file) {
	VF_ASSERT(closes_the_open_file, G.opened == G.closed + 1 && file == IN.file);
	G.closed++;
	return 0;
}
static char* vf_strerror(int e) { return "error"; }
#define open vf_open
#define read vf_read
#define close vf_close
#define strerror vf_strerror

/* reference reading of the list: one pass over the text */
static struct { uint32_t first, last; } RANGES[MAX_FILE + 1];
static uint8_t ranges;
static bool malformed, in_domain;
static void list(void) {
	enum { BEFORE, FIRST, AFTER_FIRST, DASH, LAST, REST, BAD } state = BEFORE;
	uint32_t first = 0, last = 0;
	uint8_t size = 0, digits = 0;
	ranges = 0;
	malformed = false;
	in_domain = true;
	for (uint8_t i = 0; i <= MAX_FILE; i++) {
		if (i > LENGTH) break;
		const char c = i < LENGTH ? IN.text[i] : ',';
		const bool space = c == ' ' || c == '\t' || c == '\n' || c == '\r', digit = c >= '0' && c <= '9';
		if (c == ',') {
			const bool ok = state == FIRST || state == AFTER_FIRST || ((state == LAST || state == REST) && last >= first);
			if (ok) {
				RANGES[ranges].first = first;
				RANGES[ranges].last = state == FIRST || state == AFTER_FIRST ? first : last;
				ranges++;
			} else malformed = true;
			state = BEFORE;
			size = 0;
			digits = 0;
			continue;
		}
		if (++size >= BUF) {
			malformed = true; /* the entry is too long: nothing of it or after it counts */
			break;
		}
		/* numbers of up to nine digits */
		digits = digit ? digits + 1 : 0;
		if (digits > 9) in_domain = false;
		switch (state) {
			case BEFORE:
				if (digit) { state = FIRST; first = (uint32_t)(c - '0'); } else if (!space) state = BAD;
				break;
			case FIRST:
				if (digit) first = first * 10 + (uint32_t)(c - '0');
				else state = c == '-' ? DASH : space ? AFTER_FIRST : BAD;
				break;
			case AFTER_FIRST:
				if (!space) state = BAD;
				break;
			case DASH:
				if (digit) { state = LAST; last = (uint32_t)(c - '0'); } else state = BAD;
				break;
			case LAST:
				if (digit) last = last * 10 + (uint32_t)(c - '0'); else state = REST;
				break;
			case REST:
			case BAD:
				break;
		}
	}
}
#ifdef UNIT_SPLIT
/* the entries that fit the buffer */
static struct { uint8_t from, to; } ENTRIES[MAX_FILE + 1];
static uint8_t entries;
static void split(void) {
	uint8_t from = 0;
	entries = 0;
	malformed = false;
	for (uint8_t i = 0; i <= MAX_FILE; i++) {
		if (i > IN.length || (i < IN.length && IN.text[i] != ',')) continue;
		if (i - from >= BUF) {
			malformed = true;
			break;
		}
		ENTRIES[entries].from = from;
		ENTRIES[entries].to = i;
		entries++;
		from = i + 1;
	}
}
static bool consumer(uint32_t start, uint32_t end, void* context) {
	return true;
}
/* contract of the entry parser: what it must be given; its verdict is arbitrary */
static bool parse_entry(const char* start, const char* end, cpuinfo_cpulist_callback callback, void* context) {
	size_t length = (size_t)(end - start);
	VF_ASSERT(entry_arguments, callback == consumer && context == &CONTEXT && G.closed == 0);
	VF_ASSERT(entry_exists, G.ranges < entries);
	if (G.ranges < entries) {
		const uint8_t from = ENTRIES[G.ranges].from;
		VF_ASSERT(entry_length, length == (size_t)(ENTRIES[G.ranges].to - from));
		/* one arbitrary position stands for all */
		VF_ASSERT(entry_text, IN.at >= length || from + length > IN.length || start[IN.at] == IN.text[from + IN.at]);
	}
	if (G.ranges == IN.reject) G.rejected = true;
	return G.ranges++ != IN.reject;
}
#define LIST(REQ, ENS, RET) \
	REQ(sizes, LENGTH <= MAX_FILE) \
	ENS(result, (RET) == (IN.file >= 0 && !G.failed && !G.rejected && !malformed)) \
	ENS(every_entry, IN.file < 0 || G.failed || G.ranges == entries) \
	ENS(closed_once, G.closed == G.opened)
#else
static bool consumer(uint32_t start, uint32_t end, void* context) {
	VF_ASSERT(consumer_arguments, context == &CONTEXT && G.closed == 0);
	VF_ASSERT(range_is_listed, G.ranges < ranges);
	if (G.ranges < ranges) {
		VF_ASSERT(range_start, start == RANGES[G.ranges].first);
		VF_ASSERT(range_end, end == RANGES[G.ranges].last + 1);
	}
	if (G.ranges == IN.reject) G.rejected = true;
	return G.ranges++ != IN.reject;
}

#ifdef UNIT_ENTRY
#define LIST(REQ, ENS, RET) \
	REQ(sizes, LENGTH <= MAX_FILE) \
	REQ(no_separator, one_entry()) \
	REQ(numbers, (list(), in_domain)) \
	ENS(result, (RET) == (!G.rejected && !malformed)) \
	ENS(every_range, G.ranges == ranges)
static bool one_entry(void) {
	for (uint8_t i = 0; i < MAX_FILE; i++)
		if (i < LENGTH && IN.text[i] == ',') return false;
	return true;
}
static char TEXT[MAX_FILE];
#else
#define LIST(REQ, ENS, RET) \
	REQ(sizes, LENGTH <= MAX_FILE) \
	REQ(numbers, (list(), in_domain)) \
	ENS(result, (RET) == (IN.file >= 0 && !G.failed && !G.rejected && !malformed)) \
	ENS(every_range, IN.file < 0 || G.failed || G.ranges == ranges) \
	ENS(closed_once, G.closed == G.opened)
#endif
#endif

#include <linux/cpulist.c>

void harness(void) {
	VF_LOAD();
	memset(&G, 0, sizeof G);
	VF_PRE(LIST);
	VF_COVER(large, LENGTH == MAX_FILE);
#ifdef UNIT_ENTRY
	VF_COVER(range, ranges == 1 && RANGES[0].first < RANGES[0].last);
	/* the entry ends with the memory it is in */
	for (uint8_t i = 0; i < MAX_FILE; i++)
		if (i < LENGTH) TEXT[MAX_FILE - LENGTH + i] = IN.text[i];
	bool r = parse_entry(&TEXT[MAX_FILE - LENGTH], &TEXT[MAX_FILE], consumer, &CONTEXT);
#else
#ifdef UNIT_SPLIT
	split();
	VF_COVER(two_entries, entries == 2);
#else
	VF_COVER(two_ranges, ranges == 2);
#endif
	bool r = cpuinfo_linux_parse_cpulist(NAME, consumer, &CONTEXT);
#endif
	VF_POST(LIST, r);
	(void)r;
	VF_REACH(end);
}
