/* A small file is read completely, for any splitting into reads, or rejected; closed exactly once. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <alloca.h>
#include <linux/api.h>

typedef struct {
	size_t buffer_size;
	int file;          /* descriptor, -1: cannot be opened */
	bool accepted;     /* verdict of the parser */
	size_t length;     /* bytes in the file */
	size_t error_at;   /* the read at this position fails */
	bool can_fail;
	size_t at;         /* one arbitrary position of the file... */
	char byte;         /* ...and the byte there */
	size_t chunk[6];   /* sizes of the reads (bounded variant) */
} inputs_t;
VF_INPUTS(inputs_t)

static struct {
	unsigned opened, closed, calls;
	size_t delivered;
	bool failed, verdict;
	unsigned reads;
} G;
static const char NAME[] = "/a/small/file";
static int CONTEXT;

static int vf_open(const char* name, int flags) {
	VF_ASSERT(opens_the_file, name == NAME && (flags & O_ACCMODE) == O_RDONLY && G.opened == 0);
	if (IN.file >= 0) G.opened++;
	return IN.file >= 0 ? IN.file : -1;
}
#ifdef VF_CBMC
extern const void* __CPROVER_alloca_object;
#endif
static ssize_t vf_read(int file, void* to, size_t room) {
	char* p = to;
	VF_ASSERT(reads_the_open_file, G.opened == 1 && G.closed == 0 && file == IN.file);
	if (IN.can_fail && G.delivered >= IN.error_at) {
		G.failed = true;
		return -1;
	}
	size_t left = IN.length - G.delivered;
	size_t most = left < room ? left : room;
	size_t n;
	if (most == 0) return 0;
#ifdef VF_CBMC
	size_t some;
	n = some;
	__CPROVER_assume(n >= 1 && n <= most);
#ifdef BOUNDED
	if (G.reads < 6) __CPROVER_assume(n == IN.chunk[G.reads]);
#endif
	__CPROVER_havoc_slice(p, n);
#else
	n = G.reads < 6 ? IN.chunk[G.reads] : most;
	if (n < 1 || n > most) vf_pre_fail("chunk");
	memset(p, 'x', n);
#endif
	if (IN.at >= G.delivered && IN.at - G.delivered < n) p[IN.at - G.delivered] = IN.byte;
	G.delivered += n;
	G.reads++;
	return (ssize_t)n;
}
static int vf_close(int file) {
	VF_ASSERT(closes_the_open_file, G.opened == 1 && G.closed == 0 && file == IN.file);
	G.closed++;
	return 0;
}
static char* vf_strerror(int e) { return "error"; }
#define open vf_open
#define read vf_read
#define close vf_close
#define strerror vf_strerror

static bool parser(const char* name, const char* start, const char* end, void* context) {
	G.calls++;
	VF_ASSERT(parser_arguments, name == NAME && context == &CONTEXT);
	VF_ASSERT(whole_contents, (size_t)(end - start) == IN.length);
	VF_ASSERT(same_bytes, IN.at >= IN.length || start[IN.at] == IN.byte);
	return IN.accepted != 0;
}

#define FITS (IN.length < IN.buffer_size)
#define READABLE (!(IN.can_fail && IN.error_at <= IN.length))
#define SMALL(REQ, ENS, RET) \
	REQ(sizes, IN.buffer_size >= 1 && IN.buffer_size <= MAX_SIZE && IN.length <= MAX_SIZE) \
	ENS(parsed_when_possible, G.calls == (IN.file >= 0 && FITS && !G.failed ? 1 : 0)) \
	ENS(failure_only_if_read_failed, !G.failed || (IN.can_fail && IN.error_at <= IN.length)) \
	ENS(result, (RET) == (G.calls == 1 && IN.accepted != 0)) \
	ENS(closed_once, G.closed == G.opened)
#ifdef BOUNDED
#define MAX_SIZE 5
#else
#define MAX_SIZE (sizeof(size_t) == 8 ? 1 << 30 : 1 << 20)
#endif

bool cpuinfo_linux_parse_small_file(const char* filename, size_t buffer_size, cpuinfo_smallfile_callback callback, void* context)
	VF_CONTRACT(SMALL) VF_ASSIGNS(G, __CPROVER_alloca_object);
#include <linux/smallfile.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(SMALL);
	memset(&G, 0, sizeof G);
	VF_COVER(fits, IN.length + 1 == IN.buffer_size);
	VF_COVER(too_long, IN.length == IN.buffer_size);
	bool r = cpuinfo_linux_parse_small_file(NAME, IN.buffer_size, parser, &CONTEXT);
	VF_POST(SMALL, r);
	(void)r;
	VF_REACH(end);
}
