/* RISC-V: extension flags from the capability word (UNIT_ISA), vendor identifiers from the kernel query (UNIT_HW),
 * vendor table (UNIT_UARCH). */
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <sched.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <cpuinfo.h>
#include <riscv/api.h>
#include <riscv/linux/api.h>

typedef struct {
	unsigned long hwcap;
	uint32_t vendor_id, arch_id, imp_id, old_vendor, old_uarch;
	/* kernel query */
	uint32_t processor, word;
	bool no_memory;
	bool failed;
	int64_t key[3];
	uint64_t value[3];
	uint32_t vendor, uarch;
} inputs_t;
VF_INPUTS(inputs_t)

#if defined(UNIT_ISA)
#include <sys/auxv.h>
static struct cpuinfo_riscv_isa ISA;
static unsigned long vf_getauxval(unsigned long type) {
	VF_ASSERT(capability_word, type == 16);
	return IN.hwcap;
}
#define getauxval vf_getauxval
#define LETTER(c) VF_BIT(IN.hwcap, (c) - 'A')
#define IS(ENS, flag, letter) ENS(flag, (bool)ISA.flag == LETTER(letter))
#define DECODE(REQ, ENS, RET) \
	IS(ENS, i, 'I') IS(ENS, m, 'M') IS(ENS, a, 'A') IS(ENS, f, 'F') IS(ENS, d, 'D') IS(ENS, c, 'C') IS(ENS, v, 'V')
void cpuinfo_riscv_linux_decode_isa_from_hwcap(struct cpuinfo_riscv_isa isa[restrict static 1]) VF_CONTRACT(DECODE) VF_ASSIGNS(ISA);
#include <riscv/linux/riscv-isa.c>
void harness(void) {
	VF_LOAD();
	memset(&ISA, 0, sizeof ISA);
	VF_COVER(vector, LETTER('V'));
	cpuinfo_riscv_linux_decode_isa_from_hwcap(&ISA);
	VF_POST(DECODE, 0);
	VF_REACH(end);
}

#elif defined(UNIT_UARCH)
static enum cpuinfo_vendor VENDOR;
static enum cpuinfo_uarch UARCH;
/* 0x489: JEDEC number of SiFive; no microarchitecture is documented */
#define DECODE(REQ, ENS, RET) \
	ENS(vendor, VENDOR == (IN.vendor_id == 0x489 ? cpuinfo_vendor_sifive : cpuinfo_vendor_unknown)) \
	ENS(uarch, UARCH == cpuinfo_uarch_unknown)
void cpuinfo_riscv_decode_vendor_uarch(
	uint32_t vendor_id,
	uint32_t arch_id,
	uint32_t imp_id,
	enum cpuinfo_vendor vendor[restrict static 1],
	enum cpuinfo_uarch uarch[restrict static 1]) VF_CONTRACT(DECODE) VF_ASSIGNS(VENDOR, UARCH);
#include <riscv/uarch.c>
void harness(void) {
	VF_LOAD();
	VENDOR = (enum cpuinfo_vendor)IN.old_vendor;
	UARCH = (enum cpuinfo_uarch)IN.old_uarch;
	cpuinfo_riscv_decode_vendor_uarch(IN.vendor_id, IN.arch_id, IN.imp_id, &VENDOR, &UARCH);
	VF_POST(DECODE, 0);
	VF_REACH(end);
}

#else
static enum cpuinfo_vendor VENDOR;
static enum cpuinfo_uarch UARCH;
static struct { uint32_t queries, decodes, frees; void* set; } G;

#define WORD_BITS (8 * sizeof(unsigned long))
#ifdef VF_CBMC
#define WORDS 64
static unsigned long SET[WORDS];
/* the verifier's own memset is imprecise on word arrays with a symbolic length */
static void* vf_memset(void* p, int c, size_t n) {
	unsigned long* words = p;
	size_t i;
	VF_ASSERT(clears_whole_words, c == 0 && n % sizeof(unsigned long) == 0 && n <= sizeof SET);
	for (i = 0; i < WORDS; i++)
		if (i * sizeof(unsigned long) < n) words[i] = 0;
	return p;
}
#define __builtin_memset vf_memset
#define memset vf_memset
cpu_set_t* __sched_cpualloc(size_t count) {
	if (IN.no_memory) return NULL;
	/* the kernel's set is made of words; room for count processors */
	VF_ASSERT(set_large_enough, count > IN.processor);
	G.set = SET;
	return G.set;
}
void __sched_cpufree(cpu_set_t* set) {
	VF_ASSERT(frees_its_set, (void*)set == G.set && G.frees == 0);
	G.frees++;
}
#endif
struct hwprobe_pair { int64_t key; uint64_t value; };
/* the answer for one key: the first pair with that key asked for and answered */
static long vf_hwprobe(long number, void* p, size_t count, size_t set_size, unsigned long* set, unsigned flags) {
	struct hwprobe_pair* pairs = p;
	size_t i;
	VF_ASSERT(hwprobe_syscall, number == 258);
	VF_ASSERT(no_flags, flags == 0);
	VF_ASSERT(room, count <= 3);
	VF_ASSERT(asked_for_this_processor, (IN.processor / WORD_BITS + 1) * sizeof(unsigned long) <= set_size &&
		set[IN.processor / WORD_BITS] == 1UL << (IN.processor % WORD_BITS));
	VF_ASSERT(asked_for_nothing_else, IN.word == IN.processor / WORD_BITS ||
		(IN.word + 1) * sizeof(unsigned long) > set_size || set[IN.word] == 0);
	G.queries++;
	if (IN.failed) return -1;
	for (i = 0; i < count; i++) {
		/* unknown keys are answered with -1 */
		if (IN.key[i] == -1) pairs[i].key = -1;
		pairs[i].value = IN.value[i];
	}
	return 0;
}
#define syscall vf_hwprobe
static struct { uint32_t vendor_id, arch_id, imp_id; } A;
void cpuinfo_riscv_decode_vendor_uarch(
	uint32_t vendor_id,
	uint32_t arch_id,
	uint32_t imp_id,
	enum cpuinfo_vendor vendor[restrict static 1],
	enum cpuinfo_uarch uarch[restrict static 1]) {
	G.decodes++;
	A.vendor_id = vendor_id;
	A.arch_id = arch_id;
	A.imp_id = imp_id;
	*vendor = (enum cpuinfo_vendor)IN.vendor;
	*uarch = (enum cpuinfo_uarch)IN.uarch;
}
#define ANSWERED (!IN.no_memory && !IN.failed)
#define ID(i) (IN.key[i] == -1 ? 0 : (uint32_t)IN.value[i])
#define HW(REQ, ENS, RET) \
	REQ(processor_number, IN.processor < 4096 && IN.word < 64) \
	ENS(one_query, G.queries == (IN.no_memory ? 0 : 1)) \
	ENS(decoded_only_if_answered, G.decodes == (ANSWERED ? 1 : 0)) \
	ENS(identifiers, !ANSWERED || (A.vendor_id == ID(0) && A.arch_id == ID(1) && A.imp_id == ID(2))) \
	ENS(vendor, VENDOR == (ANSWERED ? (enum cpuinfo_vendor)IN.vendor : cpuinfo_vendor_unknown)) \
	ENS(uarch, UARCH == (ANSWERED ? (enum cpuinfo_uarch)IN.uarch : cpuinfo_uarch_unknown)) \
	HW_FREED(ENS)
#ifdef VF_CBMC
#define HW_FREED(ENS) ENS(set_released, G.frees == (IN.no_memory ? 0 : 1))
#else
#define HW_FREED(ENS)
#endif
void cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe(
	uint32_t processor,
	enum cpuinfo_vendor vendor[restrict static 1],
	enum cpuinfo_uarch uarch[restrict static 1]) VF_CONTRACT(HW) VF_ASSIGNS(VENDOR, UARCH, G, A
#ifdef VF_CBMC
	, __CPROVER_object_whole(SET)
#endif
	);
#include <riscv/linux/riscv-hw.c>
void harness(void) {
	VF_LOAD();
	VF_PRE(HW);
	G.queries = G.decodes = G.frees = 0;
	G.set = NULL;
	VENDOR = (enum cpuinfo_vendor)IN.old_vendor;
	UARCH = (enum cpuinfo_uarch)IN.old_uarch;
	VF_COVER(unsupported_key, ANSWERED && IN.key[1] == -1);
	VF_COVER(failed, !IN.no_memory && IN.failed);
	cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe(IN.processor, &VENDOR, &UARCH);
	VF_POST(HW, 0);
	VF_REACH(end);
}
#endif
