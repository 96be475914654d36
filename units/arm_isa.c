/* ARM instruction-set flags from the kernel capability words (and documented overrides).
 * Default: the decoder (64-bit on AArch64, 32-bit otherwise). UNIT_HWCAP: the capability words themselves. */
#include "vf.h"
#include <string.h>
#include <cpuinfo.h>
#include <arm/linux/api.h>

typedef struct {
	uint32_t features;
	uint64_t features2;
	uint32_t midr, arch_version, arch_flags;
	uint32_t series, model;
	int vector_length; /* answer of the kernel's vector length query */
	uint32_t wcid, fpsid;
	unsigned long auxv[2];
} inputs_t;
VF_INPUTS(inputs_t)

#define IMPL (IN.midr >> 24)
#define VARIANT ((IN.midr >> 20) & 15)
#define PART ((IN.midr >> 4) & 0xFFF)
#define CORE(impl, part) (((uint32_t)(impl) << 12) | (part))
#define THE_CORE CORE(IMPL, PART)
#define F(bit) VF_BIT(IN.features, bit)
#define F2(bit) VF_BIT(IN.features2, bit)
static struct cpuinfo_arm_isa ISA;
static struct cpuinfo_arm_chipset CHIPSET;

#if defined(UNIT_HWCAP)
#include <sys/auxv.h>
static unsigned long vf_getauxval(unsigned long type) {
	return type == 16 ? IN.auxv[0] : type == 26 ? IN.auxv[1] : 0;
}
#define getauxval vf_getauxval
static uint32_t WORD;
static uint64_t WORD2;
#if CPUINFO_ARCH_ARM
#define RESULT(RET) ((RET) != 0)
#else
#define RESULT(RET) true
#endif
#define HWCAP(REQ, ENS, RET) \
	ENS(word1_is_hwcap, WORD == (uint32_t)IN.auxv[0]) \
	ENS(word2_is_hwcap2, WORD2 == (uint64_t)IN.auxv[1]) \
	HWCAP_RESULT(ENS, RET)
#if CPUINFO_ARCH_ARM
#define HWCAP_RESULT(ENS, RET) ENS(reported, RET)
bool cpuinfo_arm_linux_hwcap_from_getauxval(uint32_t hwcap[restrict static 1], uint64_t hwcap2[restrict static 1])
	VF_CONTRACT(HWCAP) VF_ASSIGNS(WORD, WORD2);
#else
#define HWCAP_RESULT(ENS, RET)
void cpuinfo_arm_linux_hwcap_from_getauxval(uint32_t hwcap[restrict static 1], uint64_t hwcap2[restrict static 1])
	VF_CONTRACT(HWCAP) VF_ASSIGNS(WORD, WORD2);
#endif
#include <arm/linux/hwcap.c>
void harness(void) {
	VF_LOAD();
#if CPUINFO_ARCH_ARM
	bool r = cpuinfo_arm_linux_hwcap_from_getauxval(&WORD, &WORD2);
#else
	bool r = true;
	cpuinfo_arm_linux_hwcap_from_getauxval(&WORD, &WORD2);
#endif
	VF_POST(HWCAP, r);
	(void)r;
	VF_REACH(end);
}

#else

/* cores whose kernels may not report half-precision arithmetic and rounding-doubling multiply */
static bool spec_core_fp16_rdm(void) {
	switch (THE_CORE) {
#if CPUINFO_ARCH_ARM64
		case CORE('A', 0xD06):
#else
		case CORE('A', 0xD41): case CORE('A', 0xD44): case CORE('A', 0xD46): case CORE('A', 0xD47): case CORE('A', 0xD48):
		case CORE('A', 0xD4D): case CORE('A', 0xD4E):
#endif
		case CORE('A', 0xD05): case CORE('A', 0xD0A): case CORE('A', 0xD0B): case CORE('A', 0xD0C): case CORE('A', 0xD0D):
		case CORE('A', 0xD0E): case CORE('A', 0xD40): case CORE('A', 0xD49): case CORE('A', 0xD4F): case CORE('H', 0xD40):
		case CORE('Q', 0x802): case CORE('Q', 0x803): case CORE('Q', 0x804): case CORE('Q', 0x805): case CORE('S', 3):
		case CORE('S', 4):
			return true;
		default:
			return false;
	}
}
/* dot product: 1 always, 0 never, -1 as the kernel says */
static int spec_core_dot(void) {
	switch (THE_CORE) {
#if CPUINFO_ARCH_ARM64
		case CORE('A', 0xD06): case CORE('A', 0xD4A):
#else
		case CORE('A', 0xD41): case CORE('A', 0xD44): case CORE('A', 0xD46): case CORE('A', 0xD47): case CORE('A', 0xD48):
		case CORE('A', 0xD4D): case CORE('A', 0xD4E):
#endif
		case CORE('A', 0xD0B): case CORE('A', 0xD0C): case CORE('A', 0xD0D): case CORE('A', 0xD0E): case CORE('A', 0xD40):
		case CORE('A', 0xD49): case CORE('A', 0xD4F): case CORE('H', 0xD40): case CORE('Q', 0x804): case CORE('Q', 0x805):
		case CORE('S', 3): case CORE('S', 4):
			return 1;
		case CORE('A', 0xD05): return VARIANT >= 1;
		case CORE('A', 0xD0A): return VARIANT >= 2;
		default: return -1;
	}
}
#define EXYNOS_9810 (IN.series == cpuinfo_arm_chipset_series_samsung_exynos && IN.model == 9810)
#define IS(ENS, flag, spec) ENS(flag, (bool)ISA.flag == (bool)(spec))

#if CPUINFO_ARCH_ARM64
#include <sys/prctl.h>
static int vf_prctl(int option) {
	VF_ASSERT(vector_length_query, option == 51);
	return IN.vector_length;
}
#define prctl vf_prctl
/* bit numbers of arch/arm64/include/uapi/asm/hwcap.h */
#define DECODE(REQ, ENS, RET) \
	IS(ENS, aes, F(3)) IS(ENS, pmull, F(4)) IS(ENS, sha1, F(5)) IS(ENS, sha2, F(6)) IS(ENS, crc32, F(7)) IS(ENS, atomics, F(8)) \
	IS(ENS, jscvt, F(13)) IS(ENS, fcma, F(14)) IS(ENS, sve, F(22)) IS(ENS, fhm, F(23)) \
	IS(ENS, fp16arith, !EXYNOS_9810 && (spec_core_fp16_rdm() || (F(9) && F(10)))) \
	IS(ENS, rdm, !EXYNOS_9810 && (spec_core_fp16_rdm() || F(12))) \
	IS(ENS, dot, spec_core_dot() == 1 || (spec_core_dot() == -1 && F(20))) \
	IS(ENS, sve2, F2(1)) IS(ENS, i8mm, F2(13)) IS(ENS, bf16, F2(14) || F2(12)) IS(ENS, sme, F2(23)) IS(ENS, sme2, F2(37)) IS(ENS, sme2p1, F2(38)) \
	IS(ENS, sme_i16i32, F2(39)) IS(ENS, sme_bi32i32, F2(40)) IS(ENS, sme_b16b16, F2(41)) IS(ENS, sme_f16f16, F2(42)) \
	ENS(vector_length, ISA.svelen == (IN.vector_length < 0 ? 0 : (uint32_t)IN.vector_length & 0xFFFF))
void cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(
	uint32_t features,
	uint64_t features2,
	uint32_t midr,
	const struct cpuinfo_arm_chipset chipset[restrict static 1],
	struct cpuinfo_arm_isa isa[restrict static 1]) VF_CONTRACT(DECODE) VF_ASSIGNS(ISA);
#include <arm/linux/aarch64-isa.c>
#define RUN() cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(IN.features, IN.features2, IN.midr, &CHIPSET, &ISA)

#else
/* bit numbers of arch/arm/include/uapi/asm/hwcap.h */
#define VFP F(6)
#define EDSP F(7)
#define JAVA F(8)
#define IWMMXT F(9)
#define NEON F(12)
#define VFPV3 F(13)
#define VFPV3D16 F(14)
#define VFPV4 F(16)
#define IDIVA F(17)
#define IDIVT F(18)
#define IDIV (IDIVA && IDIVT)
#define VFPD32 F(19)
#define V8_FEATURES ((IN.features2 & 0x1F) != 0)
#define V7_FEATURES (VFPV3 || VFPV3D16 || VFPV4 || VFPD32 || NEON || IDIVA || IDIVT)
#define ARM11 (IMPL == 'A' && PART >> 8 == 0xB)
#define ARM1156 (THE_CORE == CORE('A', 0xB56))
#define KRAIT (THE_CORE == CORE('Q', 0x04D) || THE_CORE == CORE('Q', 0x06F))
#define SCORPION (THE_CORE == CORE('Q', 0x00F) || THE_CORE == CORE('Q', 0x02D))
#define CORTEX_A9 (THE_CORE == CORE('A', 0xC09))
/* architecture version, corrected for kernels known to misreport it */
static uint32_t spec_version(void) {
	uint32_t v = IN.arch_version;
	if (v >= 8 || V8_FEATURES) return 8;
	if (v == 7 && ARM11) v = 6;
	if (v < 7 && V7_FEATURES) v = 7;
	return v;
}
#define VER spec_version()
#define V8 (VER == 8)
#define MP_CORE (THE_CORE == CORE('A', 0xC05) || CORTEX_A9 || THE_CORE == CORE('Q', 0x02D) || KRAIT)
#define WCID_TYPE ((IN.wcid >> 8) & 0xFF)
#if defined(__ARM_ARCH) && __ARM_ARCH >= 8
#define HAS_WCID 0
#else
#define HAS_WCID 1
#endif
#if defined(__ARM_ARCH) && __ARM_ARCH >= 7
#define BUILD_V7 1
#else
#define BUILD_V7 0
#endif
#define ANY_VFP (VFP || VFPV3 || VFPV3D16 || VFPD32 || VFPV4 || NEON)
#define VFP3 (VFPV3 || VFPV3D16 || VFPD32 || VFPV4 || NEON)
#define NO_DOT_CHIPSET ((IN.series == cpuinfo_arm_chipset_series_spreadtrum_sc && IN.model == 9863) || \
	(IN.series == cpuinfo_arm_chipset_series_unisoc_t && IN.model == 310) || \
	(IN.series == cpuinfo_arm_chipset_series_unisoc_ums && IN.model == 312))
#define DECODE(REQ, ENS, RET) \
	IS(ENS, armv5e, VER >= 6 || EDSP || (IN.arch_flags & CPUINFO_ARM_LINUX_ARCH_E)) \
	IS(ENS, armv6, VER >= 6) IS(ENS, armv6k, VER >= 7) IS(ENS, armv7, VER >= 7) IS(ENS, armv8, V8) \
	IS(ENS, armv7mp, V8 || (VER >= 7 && (MP_CORE || IDIV))) \
	IS(ENS, thumb, V8 || F(2) || (IN.arch_flags & CPUINFO_ARM_LINUX_ARCH_T)) \
	IS(ENS, thumb2, V8 || ((F(2) || (IN.arch_flags & CPUINFO_ARM_LINUX_ARCH_T)) && (VER >= 7 || ARM1156))) \
	IS(ENS, thumbee, !V8 && F(11)) \
	IS(ENS, jazelle, !V8 && (JAVA || (IN.arch_flags & CPUINFO_ARM_LINUX_ARCH_J))) \
	IS(ENS, idiv, V8 || IDIV || KRAIT) \
	IS(ENS, wmmx, !V8 && HAS_WCID && IWMMXT && WCID_TYPE >= 0x10) \
	IS(ENS, wmmx2, !V8 && HAS_WCID && IWMMXT && WCID_TYPE >= 0x20) \
	IS(ENS, vfpv3, V8 || (ANY_VFP && (VER >= 7 || VFP3 || BUILD_V7))) \
	IS(ENS, vfpv2, !V8 && !BUILD_V7 && VFP && !VFP3 && VER < 7 && ((IN.fpsid >> 16) & 0x7F) >= 1) \
	IS(ENS, d32, V8 || VFPD32 || NEON) \
	IS(ENS, neon, V8 || NEON) \
	IS(ENS, fp16, V8 || VFPV4 || CORTEX_A9 || SCORPION) \
	IS(ENS, fma, V8 || VFPV4) \
	IS(ENS, fp16arith, V8 && !EXYNOS_9810 && spec_core_fp16_rdm()) \
	IS(ENS, rdm, V8 && !EXYNOS_9810 && spec_core_fp16_rdm()) \
	IS(ENS, dot, V8 && !NO_DOT_CHIPSET && spec_core_dot() == 1) \
	IS(ENS, jscvt, 0) IS(ENS, fcma, 0) IS(ENS, fhm, 0) \
	IS(ENS, aes, F2(0)) IS(ENS, pmull, F2(1)) IS(ENS, sha1, F2(2)) IS(ENS, sha2, F2(3)) IS(ENS, crc32, F2(4)) \
	ENS(v8_implies_v7, !ISA.armv8 || (ISA.armv7 && ISA.armv7mp)) \
	ENS(v7_implies_v6, !ISA.armv7 || (ISA.armv6 && ISA.armv6k)) \
	ENS(v6_implies_v5e, !ISA.armv6 || ISA.armv5e) \
	ENS(mp_implies_v7, !ISA.armv7mp || ISA.armv7) \
	ENS(thumb2_implies_thumb, !ISA.thumb2 || ISA.thumb) \
	ENS(wmmx2_implies_wmmx, !ISA.wmmx2 || ISA.wmmx) \
	ENS(neon_implies_d32, !ISA.neon || (ISA.vfpv3 && ISA.d32))
void cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo(
	uint32_t features,
	uint64_t features2,
	uint32_t midr,
	uint32_t architecture_version,
	uint32_t architecture_flags,
	const struct cpuinfo_arm_chipset chipset[restrict static 1],
	struct cpuinfo_arm_isa isa[restrict static 1]) VF_CONTRACT(DECODE) VF_ASSIGNS(ISA);
/* the repository's own switch that replaces the coprocessor register reads (inline assembly) by variables */
#define CPUINFO_MOCK 1
#include <arm/linux/aarch32-isa.c>
#define RUN() (cpuinfo_arm_wcid = IN.wcid, cpuinfo_arm_fpsid = IN.fpsid, \
	cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo(IN.features, IN.features2, IN.midr, IN.arch_version, IN.arch_flags, &CHIPSET, &ISA))
#endif

void harness(void) {
	VF_LOAD();
	VF_PRE(DECODE);
	CHIPSET = (struct cpuinfo_arm_chipset){0};
	CHIPSET.series = (enum cpuinfo_arm_chipset_series)IN.series;
	CHIPSET.model = IN.model;
	ISA = (struct cpuinfo_arm_isa){0};
	VF_COVER(errata, EXYNOS_9810);
	VF_COVER(core, THE_CORE == CORE('A', 0xD05) && VARIANT == 1);
	RUN();
	VF_POST(DECODE, 0);
	VF_REACH(end);
}
#endif
