/* cpuinfo_x86_detect_isa: every flag is its documented CPUID bit, in a declared leaf, gated by the
 * register state the operating system enabled. */
#include "vf.h"
#include "vf_cpuid.h"

typedef struct {
	struct cpuid_regs basic, ext;
	uint32_t max_base, max_ext;
	int vendor, uarch;
	struct cpuid_regs leaf7_0, leaf7_1, leaf24, leafd, cap, padlock0, padlock1, other;
	uint64_t xcr0;
} inputs_t;
VF_INPUTS(inputs_t)

static struct cpuid_regs vf_cpuid(uint32_t eax, uint32_t ecx) {
	if (eax == 7 && ecx == 0) return IN.leaf7_0;
	if (eax == 7 && ecx == 1) return IN.leaf7_1;
	if (eax == 0x24 && ecx == 0) return IN.leaf24;
	if (eax == 0xD && ecx == 0) return IN.leafd;
	if (eax == UINT32_C(0x80000008)) return IN.cap;
	if (eax == UINT32_C(0xC0000000)) return IN.padlock0;
	if (eax == UINT32_C(0xC0000001)) return IN.padlock1;
	return IN.other;
}
static uint64_t vf_xgetbv(uint32_t r) {
	return r == 0 ? IN.xcr0 : ~IN.xcr0;
}

/* specification */
#define B IN.basic
#define E IN.ext
static bool s7_0(uint32_t r, int n) { return IN.max_base >= 7 && VF_BIT(r, n); }
#define S0(r, n) s7_0(IN.leaf7_0.r, n)
#define S1(r, n) s7_0(IN.leaf7_1.r, n)
/* XSAVE supported and enabled, state component valid on the processor and enabled by the OS */
static bool os_state(uint64_t mask) {
	return VF_BIT(B.ecx, 26) && VF_BIT(B.ecx, 27) && IN.max_base >= 0xD &&
		((((uint64_t)IN.leafd.edx << 32) | IN.leafd.eax) & mask) == mask && (IN.xcr0 & mask) == mask;
}
#define YMM os_state(0x6)
#define ZMM os_state(0xE6)
#define BND os_state(0x18)
#define TILE os_state(0x60000)
static bool is_amd(void) { return IN.vendor == cpuinfo_vendor_amd || IN.vendor == cpuinfo_vendor_hygon; }
static bool spec_padlock(int n) {
	return IN.vendor == cpuinfo_vendor_via && IN.padlock0.eax >= UINT32_C(0xC0000001) &&
		VF_BIT(IN.padlock1.edx, n) && VF_BIT(IN.padlock1.edx, n + 1);
}
static bool spec_prefetch(void) {
	const bool now3d = VF_BIT(E.edx, 31) || VF_BIT(E.edx, 30);
	if (IN.vendor == cpuinfo_vendor_intel) return false;
	if (is_amd()) return VF_BIT(E.ecx, 8) || now3d || VF_BIT(E.edx, 29);
	return now3d;
}
static bool spec_prefetchw(void) {
	const bool now3d = VF_BIT(E.edx, 31) || VF_BIT(E.edx, 30);
	return VF_BIT(E.ecx, 8) || now3d || (is_amd() && VF_BIT(E.edx, 29));
}
#if CPUINFO_ARCH_X86
static bool spec_fxsave(void) {
	if (IN.vendor == cpuinfo_vendor_cyrix || IN.vendor == cpuinfo_vendor_nsc) return false;
	return VF_BIT(B.edx, 24) || VF_BIT(E.edx, 24);
}
#define ISA_32(ENS, R) \
	ENS(rdtsc, R.rdtsc == (VF_BIT(B.edx, 4) || VF_BIT(E.edx, 4))) \
	ENS(syscall, R.syscall == VF_BIT(E.edx, 11)) \
	ENS(emmx, R.emmx == ((IN.vendor == cpuinfo_vendor_cyrix || IN.vendor == cpuinfo_vendor_nsc) && VF_BIT(E.edx, 24))) \
	ENS(fpu, R.fpu == (VF_BIT(B.edx, 0) || VF_BIT(E.edx, 0))) \
	ENS(mmx, R.mmx == (VF_BIT(B.edx, 23) || VF_BIT(E.edx, 23))) \
	ENS(mmx_plus, R.mmx_plus == (VF_BIT(B.edx, 25) || VF_BIT(E.edx, 22))) \
	ENS(three_d_now_geode, R.three_d_now_geode == (VF_BIT(E.edx, 30) && IN.uarch == cpuinfo_uarch_geode)) \
	ENS(daz_sse3, !VF_BIT(B.ecx, 0) || R.daz) \
	ENS(daz_none, VF_BIT(B.ecx, 0) || (VF_BIT(B.edx, 25) && spec_fxsave()) || !R.daz) \
	ENS(sse, R.sse == VF_BIT(B.edx, 25)) \
	ENS(sse2, R.sse2 == VF_BIT(B.edx, 26)) \
	ENS(cmov, R.cmov == (VF_BIT(B.edx, 15) || VF_BIT(E.edx, 15))) \
	ENS(cmpxchg8b, R.cmpxchg8b == (VF_BIT(B.edx, 8) || VF_BIT(E.edx, 8)))
#define SPEC_FXSAVE spec_fxsave()
#else
#define ISA_32(ENS, R) ENS(lahf_sahf, R.lahf_sahf == VF_BIT(E.ecx, 0))
#define SPEC_FXSAVE (VF_BIT(B.edx, 24) || VF_BIT(E.edx, 24))
#endif

#define ISA(REQ, ENS, R) \
	ENS(rdtscp, R.rdtscp == VF_BIT(E.edx, 27)) \
	ENS(rdpid, R.rdpid == S0(ecx, 22)) \
	ENS(sysenter, R.sysenter == VF_BIT(B.edx, 11)) \
	ENS(msr, R.msr == (VF_BIT(B.edx, 5) || VF_BIT(E.edx, 5))) \
	ENS(clzero, R.clzero == (IN.max_ext >= UINT32_C(0x80000008) && VF_BIT(IN.cap.ebx, 0))) \
	ENS(clflush, R.clflush == VF_BIT(B.edx, 19)) \
	ENS(clflushopt, R.clflushopt == S0(ebx, 23)) \
	ENS(mwait, R.mwait == VF_BIT(B.ecx, 3)) \
	ENS(mwaitx, R.mwaitx == VF_BIT(E.ecx, 29)) \
	ENS(fxsave, R.fxsave == SPEC_FXSAVE) \
	ENS(xsave, R.xsave == VF_BIT(B.ecx, 26)) \
	ENS(three_d_now, R.three_d_now == VF_BIT(E.edx, 31)) \
	ENS(three_d_now_plus, R.three_d_now_plus == VF_BIT(E.edx, 30)) \
	ENS(prefetch, R.prefetch == spec_prefetch()) \
	ENS(prefetchw, R.prefetchw == spec_prefetchw()) \
	ENS(prefetchwt1, R.prefetchwt1 == S0(ecx, 0)) \
	ENS(sse3, R.sse3 == VF_BIT(B.ecx, 0)) \
	ENS(ssse3, R.ssse3 == VF_BIT(B.ecx, 9)) \
	ENS(sse4_1, R.sse4_1 == VF_BIT(B.ecx, 19)) \
	ENS(sse4_2, R.sse4_2 == VF_BIT(B.ecx, 20)) \
	ENS(sse4a, R.sse4a == VF_BIT(E.ecx, 6)) \
	ENS(misaligned_sse, R.misaligned_sse == VF_BIT(E.ecx, 7)) \
	ENS(avx, R.avx == (YMM && VF_BIT(B.ecx, 28))) \
	ENS(avxvnni, R.avxvnni == (YMM && S1(eax, 4))) \
	ENS(fma3, R.fma3 == (YMM && VF_BIT(B.ecx, 12))) \
	ENS(fma4, R.fma4 == (YMM && VF_BIT(E.ecx, 16))) \
	ENS(xop, R.xop == (YMM && VF_BIT(E.ecx, 11))) \
	ENS(f16c, R.f16c == (YMM && VF_BIT(B.ecx, 29))) \
	ENS(avx2, R.avx2 == (YMM && S0(ebx, 5))) \
	ENS(avx512f, R.avx512f == (ZMM && S0(ebx, 16))) \
	ENS(avx512pf, R.avx512pf == (ZMM && S0(ebx, 26))) \
	ENS(avx512er, R.avx512er == (ZMM && S0(ebx, 27))) \
	ENS(avx512cd, R.avx512cd == (ZMM && S0(ebx, 28))) \
	ENS(avx512dq, R.avx512dq == (ZMM && S0(ebx, 17))) \
	ENS(avx512bw, R.avx512bw == (ZMM && S0(ebx, 30))) \
	ENS(avx512vl, R.avx512vl == (ZMM && S0(ebx, 31))) \
	ENS(avx512ifma, R.avx512ifma == (ZMM && S0(ebx, 21))) \
	ENS(avx512vbmi, R.avx512vbmi == (ZMM && S0(ecx, 1))) \
	ENS(avx512vbmi2, R.avx512vbmi2 == (ZMM && S0(ecx, 6))) \
	ENS(avx512bitalg, R.avx512bitalg == (ZMM && S0(ecx, 12))) \
	ENS(avx512vpopcntdq, R.avx512vpopcntdq == (ZMM && S0(ecx, 14))) \
	ENS(avx512vnni, R.avx512vnni == (ZMM && S0(ecx, 11))) \
	ENS(avx512bf16, R.avx512bf16 == (ZMM && S1(eax, 5))) \
	ENS(avx512fp16, R.avx512fp16 == (ZMM && S0(edx, 23))) \
	ENS(avx512vp2intersect, R.avx512vp2intersect == (ZMM && S0(edx, 8))) \
	ENS(avx512_4vnniw, R.avx512_4vnniw == (ZMM && S0(edx, 2))) \
	ENS(avx512_4fmaps, R.avx512_4fmaps == (ZMM && S0(edx, 3))) \
	ENS(avx10_1, R.avx10_1 == (ZMM && S1(edx, 19))) \
	ENS(avx10_2, R.avx10_2 == (ZMM && S1(edx, 19) && IN.max_base >= 0x24 && (IN.leaf24.ebx & 0xFF) >= 2)) \
	ENS(amx_bf16, R.amx_bf16 == (TILE && S0(edx, 22))) \
	ENS(amx_tile, R.amx_tile == (TILE && S0(edx, 24))) \
	ENS(amx_int8, R.amx_int8 == (TILE && S0(edx, 25))) \
	ENS(amx_fp16, R.amx_fp16 == (TILE && S1(eax, 21))) \
	ENS(avx_vnni_int8, R.avx_vnni_int8 == (YMM && S1(edx, 4))) \
	ENS(avx_vnni_int16, R.avx_vnni_int16 == (YMM && S1(edx, 10))) \
	ENS(avx_ne_convert, R.avx_ne_convert == (YMM && S1(edx, 5))) \
	ENS(hle, R.hle == S0(ebx, 4)) \
	ENS(rtm, R.rtm == S0(ebx, 11)) \
	ENS(xtest, R.xtest == (S0(ebx, 4) || S0(ebx, 11))) \
	ENS(mpx, R.mpx == (BND && S0(ebx, 14))) \
	ENS(cmpxchg16b, R.cmpxchg16b == VF_BIT(B.ecx, 13)) \
	ENS(clwb, R.clwb == S0(ebx, 24)) \
	ENS(movbe, R.movbe == VF_BIT(B.ecx, 22)) \
	ENS(fs_gs_base, R.fs_gs_base == S0(ebx, 0)) \
	ENS(lzcnt, R.lzcnt == VF_BIT(E.ecx, 5)) \
	ENS(popcnt, R.popcnt == VF_BIT(B.ecx, 23)) \
	ENS(tbm, R.tbm == VF_BIT(E.ecx, 21)) \
	ENS(bmi, R.bmi == S0(ebx, 3)) \
	ENS(bmi2, R.bmi2 == S0(ebx, 8)) \
	ENS(adx, R.adx == S0(ebx, 19)) \
	ENS(aes, R.aes == VF_BIT(B.ecx, 25)) \
	ENS(vaes, R.vaes == (YMM && S0(ecx, 9))) \
	ENS(pclmulqdq, R.pclmulqdq == VF_BIT(B.ecx, 1)) \
	ENS(vpclmulqdq, R.vpclmulqdq == (YMM && S0(ecx, 10))) \
	ENS(gfni, R.gfni == S0(ecx, 8)) \
	ENS(rdrand, R.rdrand == VF_BIT(B.ecx, 30)) \
	ENS(rdseed, R.rdseed == S0(ebx, 18)) \
	ENS(sha, R.sha == S0(ebx, 29)) \
	ENS(rng, R.rng == spec_padlock(2)) \
	ENS(ace, R.ace == spec_padlock(6)) \
	ENS(ace2, R.ace2 == spec_padlock(8)) \
	ENS(phe, R.phe == spec_padlock(10)) \
	ENS(pmm, R.pmm == spec_padlock(12)) \
	ENS(lwp, R.lwp == VF_BIT(E.ecx, 15)) \
	ISA_32(ENS, R)

struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
	const struct cpuid_regs basic_info,
	const struct cpuid_regs extended_info,
	uint32_t max_base_index,
	uint32_t max_extended_index,
	enum cpuinfo_vendor vendor,
	enum cpuinfo_uarch uarch) VF_CONTRACT(ISA) VF_ASSIGNS();

#include <x86/isa.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(ISA);
	VF_COVER(avx512, ZMM && S0(ebx, 16));
	VF_COVER(padlock, spec_padlock(2));
	VF_COVER(unknown_vendor, IN.vendor == cpuinfo_vendor_unknown);
	struct cpuinfo_x86_isa r = cpuinfo_x86_detect_isa(
		IN.basic, IN.ext, IN.max_base, IN.max_ext, (enum cpuinfo_vendor)IN.vendor, (enum cpuinfo_uarch)IN.uarch);
	VF_POST(ISA, r);
	VF_REACH(end);
}
