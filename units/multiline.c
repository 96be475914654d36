/* A multi-line file is split into the same lines for any splitting into reads; closed exactly once.
 * Bounded: buffer of BUF bytes, files of up to MAX_FILE bytes, every content and every splitting into reads. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <alloca.h>
#include <linux/api.h>

typedef struct {
	int file;          /* descriptor, -1: cannot be opened */
	uint8_t length;    /* bytes in the file */
	uint8_t error_at;  /* reads at this position or later fail */
	bool can_fail;
	uint8_t reject;   /* the parser rejects this line number */
	uint8_t at;        /* position in a line */
	char text[MAX_FILE];
	uint8_t chunk[MAX_FILE + 1];
} inputs_t;
VF_INPUTS(inputs_t)

static struct {
	uint8_t opened, closed, reads;
	uint8_t delivered;    /* file position of the next read */
	uint8_t parsed;       /* lines handed to the parser */
	bool failed, rejected;
} G;
static const char NAME[] = "/a/file";
static int CONTEXT;

static int vf_open(const char* name, int flags) {
	VF_ASSERT(opens_the_file, name == NAME && (flags & O_ACCMODE) == O_RDONLY && G.opened == G.closed);
	if (IN.file >= 0) G.opened++;
	return IN.file >= 0 ? IN.file : -1;
}
#ifdef VF_CBMC
static char BUFFER[BUF];
static void* vf_alloca(size_t n) {
	VF_FITS(one_buffer, n == BUF);
	return BUFFER;
}
#undef alloca
#define alloca vf_alloca
static void* vf_memmove(void* to, const void* from, size_t n) {
	char* t = to;
	const char* f = from;
	for (size_t i = 0; i < n; i++) t[i] = f[i];
	return to;
}
/* towards lower addresses within one buffer: a forward copy */
#define memmove(t, f, n) (VF_FITS(moves_down, (const char*)(t) <= (const char*)(f)), vf_memmove(t, f, n))
#endif
static ssize_t vf_read(int file, void* to, size_t room) {
	char* p = to;
	VF_ASSERT(reads_the_open_file, G.opened == G.closed + 1 && file == IN.file);
	VF_ASSERT(asks_for_data, room != 0);
	if (IN.can_fail != 0 && G.delivered >= IN.error_at) {
		G.failed = true;
		return -1;
	}
	uint8_t left = IN.length - G.delivered;
	uint8_t most = left < room ? left : room;
	if (most == 0) return 0;
	uint8_t n = IN.chunk[G.reads];
	VF_ASSUME(n >= 1 && n <= most);
	for (uint8_t i = 0; i < n; i++) p[i] = IN.text[G.delivered + i];
	G.delivered += n;
	G.reads++;
	return (ssize_t)n;
}
static int vf_close(int file) {
	VF_ASSERT(closes_the_open_file, G.opened == G.closed + 1 && file == IN.file);
	G.closed++;
	return 0;
}
static char* vf_strerror(int e) { return "error"; }
#define open vf_open
#define read vf_read
#define close vf_close
#define strerror vf_strerror

/* the lines that fit the buffer: the reference splitting of the file */
static struct { uint8_t from, to, number; } LINES[MAX_FILE + 1];
static uint8_t lines;
static void split(void) {
	uint8_t from = 0;
	uint8_t number = 1;
	lines = 0;
	for (uint8_t i = 0; i <= MAX_FILE; i++) {
		if (i > IN.length || (i < IN.length && IN.text[i] != '\n')) continue;
		if (i - from < BUF) {
			LINES[lines].from = from;
			LINES[lines].to = i;
			LINES[lines].number = number;
			lines++;
		}
		number++;
		from = i + 1;
	}
}
static bool parser(const char* start, const char* end, void* context, uint64_t number) {
	size_t length = (size_t)(end - start);
	VF_ASSERT(parser_arguments, context == &CONTEXT);
	VF_ASSERT(parsing_goes_on, !G.rejected && !G.failed && G.closed == 0);
	VF_ASSERT(line_exists, G.parsed < lines);
	if (G.parsed < lines) {
		size_t from = LINES[G.parsed].from;
		VF_ASSERT(line_length, length == LINES[G.parsed].to - from);
		VF_ASSERT(line_number, number == LINES[G.parsed].number);
		/* one arbitrary position stands for all */
		VF_ASSERT(line_text, IN.at >= length || from + length > IN.length || start[IN.at] == IN.text[from + IN.at]);
	}
	G.parsed++;
	G.rejected = number == IN.reject;
	return number != IN.reject;
}

#define MULTI(REQ, ENS, RET) \
	REQ(sizes, IN.length <= MAX_FILE) \
	ENS(result, (RET) == (IN.file >= 0 && !G.failed && !G.rejected)) \
	ENS(every_line, !(RET) || (G.delivered == IN.length && G.parsed == lines)) \
	ENS(closed_once, G.closed == G.opened)

#include <linux/multiline.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(MULTI);
	memset(&G, 0, sizeof G);
	split();
	VF_COVER(large, IN.length == MAX_FILE);
	bool r = cpuinfo_linux_parse_multiline_file(NAME, BUF, parser, &CONTEXT);
	VF_POST(MULTI, r);
	(void)r;
	VF_REACH(end);
}
