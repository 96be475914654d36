/* The capability words come from the process's auxiliary vector; the file is closed exactly once.
 * 32-bit ARM Android builds only. BOUNDED: up to 3 entries instead of any number. */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/auxv.h>
#define __ANDROID__ 1
#include <arm/linux/api.h>

typedef struct {
	int file;          /* descriptor, -1: cannot be opened */
	uint32_t hwcap;
	uint64_t hwcap2;
#ifdef BOUNDED
	struct { uint32_t type, value; int bytes; } entry[5];
#endif
} inputs_t;
VF_INPUTS(inputs_t)

static struct {
	unsigned opened, closed, reads;
	bool failed, ended;
	uint32_t hwcap, hwcap2; /* values of the last such entries, 0: none */
} G;

/* "/proc/self/auxv", without a loop */
#define AT4(i, a, b, c, d) (name[i] == a && name[i + 1] == b && name[i + 2] == c && name[i + 3] == d)
static bool is_vector(const char* name) {
	return AT4(0, '/', 'p', 'r', 'o') && AT4(4, 'c', '/', 's', 'e') && AT4(8, 'l', 'f', '/', 'a') && AT4(12, 'u', 'x', 'v', 0);
}
static int vf_open(const char* name, int flags) {
	VF_ASSERT(opens_the_vector, is_vector(name) && (flags & O_ACCMODE) == O_RDONLY && G.opened == G.closed);
	if (IN.file >= 0) G.opened++;
	return IN.file >= 0 ? IN.file : -1;
}
static ssize_t vf_read(int file, void* to, size_t room) {
	uint32_t type, value;
	int bytes;
	VF_ASSERT(reads_the_open_file, G.opened == G.closed + 1 && file == IN.file && !G.ended && !G.failed);
	VF_FITS(one_entry, room == 8);
#ifdef BOUNDED
	VF_ASSUME(G.reads < 5);
	type = IN.entry[G.reads].type;
	value = IN.entry[G.reads].value;
	bytes = IN.entry[G.reads].bytes;
	G.reads++;
#endif
#ifndef VF_CBMC
#ifndef BOUNDED
	vf_pre_fail("unbounded");
#endif
#endif
	VF_ASSUME(bytes >= -1 && bytes <= 8);
	if (bytes == 0) G.ended = true;
	else if (bytes != 8) G.failed = true;
	else {
		uint32_t* p = to;
		p[0] = type;
		p[1] = value;
		if (type == 16) G.hwcap = value;
		if (type == 26) G.hwcap2 = value;
	}
	return bytes;
}
static int vf_close(int file) {
	VF_ASSERT(closes_the_open_file, G.opened == G.closed + 1 && file == IN.file);
	G.closed++;
	return 0;
}
static char* vf_strerror(int e) { return "error"; }
#define open vf_open
#define read vf_read
#define close vf_close
#define strerror vf_strerror

static uint32_t HWCAP;
static uint64_t HWCAP2;
#define AUXV(REQ, ENS, RET) \
	ENS(result, (RET) == (IN.file >= 0 && !G.failed)) \
	ENS(hwcap, HWCAP == ((RET) ? G.hwcap : IN.hwcap)) \
	ENS(hwcap2, HWCAP2 == ((RET) ? G.hwcap2 : IN.hwcap2)) \
	ENS(closed_once, G.closed == G.opened)

bool cpuinfo_arm_linux_hwcap_from_procfs(uint32_t hwcap[restrict static 1], uint64_t hwcap2[restrict static 1])
	VF_CONTRACT(AUXV) VF_ASSIGNS(G, HWCAP, HWCAP2);
#include <arm/linux/hwcap.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(AUXV);
	memset(&G, 0, sizeof G);
	HWCAP = IN.hwcap;
	HWCAP2 = IN.hwcap2;
	bool r = cpuinfo_arm_linux_hwcap_from_procfs(&HWCAP, &HWCAP2);
	VF_POST(AUXV, r);
	VF_COVER(success, r);
	(void)r;
	VF_REACH(end);
}
