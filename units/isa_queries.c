/* Public instruction-set queries: each returns its own flag, for every value of the published record;
 * queries of another architecture are false. */
#include "vf.h"
#include <cpuinfo.h>

#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
typedef struct { struct cpuinfo_x86_isa isa; } inputs_t;
struct cpuinfo_x86_isa cpuinfo_isa;
#elif CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64
typedef struct { struct cpuinfo_arm_isa isa; } inputs_t;
struct cpuinfo_arm_isa cpuinfo_isa;
#else
typedef struct { struct cpuinfo_riscv_isa isa; } inputs_t;
struct cpuinfo_riscv_isa cpuinfo_isa;
#endif
VF_INPUTS(inputs_t)
#define I(field) IN.isa.field

#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
#define X86_ANY(Q) \
	Q(x86_rdtscp, I(rdtscp)) \
	Q(x86_rdpid, I(rdpid)) \
	Q(x86_clzero, I(clzero)) \
	Q(x86_mwait, I(mwait)) \
	Q(x86_mwaitx, I(mwaitx)) \
	Q(x86_fxsave, I(fxsave)) \
	Q(x86_xsave, I(xsave)) \
	Q(x86_3dnow, I(three_d_now)) \
	Q(x86_3dnow_plus, I(three_d_now_plus)) \
	Q(x86_prefetch, I(prefetch)) \
	Q(x86_prefetchw, I(prefetchw)) \
	Q(x86_prefetchwt1, I(prefetchwt1)) \
	Q(x86_sse3, I(sse3)) \
	Q(x86_ssse3, I(ssse3)) \
	Q(x86_sse4_1, I(sse4_1)) \
	Q(x86_sse4_2, I(sse4_2)) \
	Q(x86_sse4a, I(sse4a)) \
	Q(x86_misaligned_sse, I(misaligned_sse)) \
	Q(x86_avx, I(avx)) \
	Q(x86_avxvnni, I(avxvnni)) \
	Q(x86_fma3, I(fma3)) \
	Q(x86_fma4, I(fma4)) \
	Q(x86_xop, I(xop)) \
	Q(x86_f16c, I(f16c)) \
	Q(x86_avx2, I(avx2)) \
	Q(x86_avx512f, I(avx512f)) \
	Q(x86_avx512pf, I(avx512pf)) \
	Q(x86_avx512er, I(avx512er)) \
	Q(x86_avx512cd, I(avx512cd)) \
	Q(x86_avx512dq, I(avx512dq)) \
	Q(x86_avx512bw, I(avx512bw)) \
	Q(x86_avx512vl, I(avx512vl)) \
	Q(x86_avx512ifma, I(avx512ifma)) \
	Q(x86_avx512vbmi, I(avx512vbmi)) \
	Q(x86_avx512vbmi2, I(avx512vbmi2)) \
	Q(x86_avx512bitalg, I(avx512bitalg)) \
	Q(x86_avx512vpopcntdq, I(avx512vpopcntdq)) \
	Q(x86_avx512vnni, I(avx512vnni)) \
	Q(x86_avx512bf16, I(avx512bf16)) \
	Q(x86_avx512fp16, I(avx512fp16)) \
	Q(x86_avx512vp2intersect, I(avx512vp2intersect)) \
	Q(x86_avx512_4vnniw, I(avx512_4vnniw)) \
	Q(x86_avx512_4fmaps, I(avx512_4fmaps)) \
	Q(x86_amx_bf16, I(amx_bf16)) \
	Q(x86_amx_tile, I(amx_tile)) \
	Q(x86_amx_int8, I(amx_int8)) \
	Q(x86_amx_fp16, I(amx_fp16)) \
	Q(x86_avx_vnni_int8, I(avx_vnni_int8)) \
	Q(x86_avx_vnni_int16, I(avx_vnni_int16)) \
	Q(x86_avx_ne_convert, I(avx_ne_convert)) \
	Q(x86_avx10_1, I(avx10_1)) \
	Q(x86_avx10_2, I(avx10_2)) \
	Q(x86_hle, I(hle)) \
	Q(x86_rtm, I(rtm)) \
	Q(x86_xtest, I(xtest)) \
	Q(x86_mpx, I(mpx)) \
	Q(x86_clwb, I(clwb)) \
	Q(x86_movbe, I(movbe)) \
	Q(x86_lzcnt, I(lzcnt)) \
	Q(x86_popcnt, I(popcnt)) \
	Q(x86_tbm, I(tbm)) \
	Q(x86_bmi, I(bmi)) \
	Q(x86_bmi2, I(bmi2)) \
	Q(x86_adx, I(adx)) \
	Q(x86_aes, I(aes)) \
	Q(x86_vaes, I(vaes)) \
	Q(x86_pclmulqdq, I(pclmulqdq)) \
	Q(x86_vpclmulqdq, I(vpclmulqdq)) \
	Q(x86_gfni, I(gfni)) \
	Q(x86_rdrand, I(rdrand)) \
	Q(x86_rdseed, I(rdseed)) \
	Q(x86_sha, I(sha))
#if CPUINFO_ARCH_X86_64
/* part of the x86-64 baseline */
#define X86(Q) X86_ANY(Q) \
	Q(x86_rdtsc, 1) Q(x86_fpu, 1) Q(x86_mmx, 1) Q(x86_mmx_plus, 1) Q(x86_daz, 1) Q(x86_sse, 1) Q(x86_sse2, 1) \
	Q(x86_cmov, 1) Q(x86_cmpxchg8b, 1) Q(x86_3dnow_geode, 0) \
	Q(x86_cmpxchg16b, I(cmpxchg16b)) Q(x86_lahf_sahf, I(lahf_sahf))
#else
#define X86(Q) X86_ANY(Q) \
	Q(x86_rdtsc, I(rdtsc)) Q(x86_fpu, I(fpu)) Q(x86_mmx, I(mmx)) Q(x86_mmx_plus, I(mmx_plus)) Q(x86_daz, I(daz)) \
	Q(x86_sse, I(sse)) Q(x86_sse2, I(sse2)) Q(x86_cmov, I(cmov)) Q(x86_cmpxchg8b, I(cmpxchg8b)) \
	Q(x86_3dnow_geode, I(three_d_now_geode)) Q(x86_cmpxchg16b, 0) Q(x86_lahf_sahf, 1)
#endif
#else
/* foreign architecture: a sample of families is enough for the compiler to see all of them return false */
#define X86(Q) Q(x86_rdtsc, 0) Q(x86_sse2, 0) Q(x86_avx, 0) Q(x86_avx2, 0) Q(x86_avx512f, 0) Q(x86_fma3, 0)
#endif

#if CPUINFO_ARCH_ARM64
#define ARM(Q) \
	Q(arm_thumb, 0) \
	Q(arm_thumb2, 0) \
	Q(arm_v5e, 0) \
	Q(arm_v6, 0) \
	Q(arm_v6k, 0) \
	Q(arm_v7, 0) \
	Q(arm_v7mp, 0) \
	Q(arm_v8, 1) \
	Q(arm_idiv, 1) \
	Q(arm_vfpv2, 0) \
	Q(arm_vfpv3, 1) \
	Q(arm_vfpv3_d32, 1) \
	Q(arm_vfpv3_fp16, 1) \
	Q(arm_vfpv3_fp16_d32, 1) \
	Q(arm_vfpv4, 1) \
	Q(arm_vfpv4_d32, 1) \
	Q(arm_fp16_arith, I(fp16arith)) \
	Q(arm_bf16, I(bf16)) \
	Q(arm_wmmx, 0) \
	Q(arm_wmmx2, 0) \
	Q(arm_neon, 1) \
	Q(arm_neon_fp16, 1) \
	Q(arm_neon_fma, 1) \
	Q(arm_neon_v8, 1) \
	Q(arm_atomics, I(atomics)) \
	Q(arm_neon_rdm, I(rdm)) \
	Q(arm_neon_fp16_arith, I(fp16arith)) \
	Q(arm_fhm, I(fhm)) \
	Q(arm_neon_dot, I(dot)) \
	Q(arm_neon_bf16, I(bf16)) \
	Q(arm_jscvt, I(jscvt)) \
	Q(arm_fcma, I(fcma)) \
	Q(arm_i8mm, I(i8mm)) \
	Q(arm_aes, I(aes)) \
	Q(arm_sha1, I(sha1)) \
	Q(arm_sha2, I(sha2)) \
	Q(arm_pmull, I(pmull)) \
	Q(arm_crc32, I(crc32)) \
	Q(arm_sve, I(sve)) \
	Q(arm_sve_bf16, I(sve) && I(bf16)) \
	Q(arm_sve2, I(sve2)) \
	Q(arm_sme, I(sme)) \
	Q(arm_sme2, I(sme2)) \
	Q(arm_sme2p1, I(sme2p1)) \
	Q(arm_sme_i16i32, I(sme_i16i32)) \
	Q(arm_sme_bi32i32, I(sme_bi32i32)) \
	Q(arm_sme_b16b16, I(sme_b16b16)) \
	Q(arm_sme_f16f16, I(sme_f16f16))
#elif CPUINFO_ARCH_ARM
#define ARM(Q) \
	Q(arm_thumb, I(thumb)) \
	Q(arm_thumb2, I(thumb2)) \
	Q(arm_v5e, I(armv5e)) \
	Q(arm_v6, I(armv6)) \
	Q(arm_v6k, I(armv6k)) \
	Q(arm_v7, I(armv7)) \
	Q(arm_v7mp, I(armv7mp)) \
	Q(arm_v8, I(armv8)) \
	Q(arm_idiv, I(idiv)) \
	Q(arm_vfpv2, I(vfpv2)) \
	Q(arm_vfpv3, I(vfpv3)) \
	Q(arm_vfpv3_d32, I(vfpv3) && I(d32)) \
	Q(arm_vfpv3_fp16, I(vfpv3) && I(fp16)) \
	Q(arm_vfpv3_fp16_d32, I(vfpv3) && I(fp16) && I(d32)) \
	Q(arm_vfpv4, I(vfpv3) && I(fma)) \
	Q(arm_vfpv4_d32, I(vfpv3) && I(fma) && I(d32)) \
	Q(arm_fp16_arith, I(fp16arith)) \
	Q(arm_bf16, 0) \
	Q(arm_wmmx, I(wmmx)) \
	Q(arm_wmmx2, I(wmmx2)) \
	Q(arm_neon, I(neon)) \
	Q(arm_neon_fp16, I(neon) && I(fp16)) \
	Q(arm_neon_fma, I(neon) && I(fma)) \
	Q(arm_neon_v8, I(neon) && I(armv8)) \
	Q(arm_atomics, 0) \
	Q(arm_neon_rdm, I(rdm)) \
	Q(arm_neon_fp16_arith, I(neon) && I(fp16arith)) \
	Q(arm_fhm, I(fhm)) \
	Q(arm_neon_dot, I(dot)) \
	Q(arm_neon_bf16, 0) \
	Q(arm_jscvt, I(jscvt)) \
	Q(arm_fcma, I(fcma)) \
	Q(arm_i8mm, 0) \
	Q(arm_aes, I(aes)) \
	Q(arm_sha1, I(sha1)) \
	Q(arm_sha2, I(sha2)) \
	Q(arm_pmull, I(pmull)) \
	Q(arm_crc32, I(crc32)) \
	Q(arm_sve, 0) \
	Q(arm_sve_bf16, 0) \
	Q(arm_sve2, 0) \
	Q(arm_sme, 0) \
	Q(arm_sme2, 0) \
	Q(arm_sme2p1, 0) \
	Q(arm_sme_i16i32, 0) \
	Q(arm_sme_bi32i32, 0) \
	Q(arm_sme_b16b16, 0) \
	Q(arm_sme_f16f16, 0)
#else
#define ARM(Q) \
	Q(arm_thumb, 0) \
	Q(arm_thumb2, 0) \
	Q(arm_v5e, 0) \
	Q(arm_v6, 0) \
	Q(arm_v6k, 0) \
	Q(arm_v7, 0) \
	Q(arm_v7mp, 0) \
	Q(arm_v8, 0) \
	Q(arm_idiv, 0) \
	Q(arm_vfpv2, 0) \
	Q(arm_vfpv3, 0) \
	Q(arm_vfpv3_d32, 0) \
	Q(arm_vfpv3_fp16, 0) \
	Q(arm_vfpv3_fp16_d32, 0) \
	Q(arm_vfpv4, 0) \
	Q(arm_vfpv4_d32, 0) \
	Q(arm_fp16_arith, 0) \
	Q(arm_bf16, 0) \
	Q(arm_wmmx, 0) \
	Q(arm_wmmx2, 0) \
	Q(arm_neon, 0) \
	Q(arm_neon_fp16, 0) \
	Q(arm_neon_fma, 0) \
	Q(arm_neon_v8, 0) \
	Q(arm_atomics, 0) \
	Q(arm_neon_rdm, 0) \
	Q(arm_neon_fp16_arith, 0) \
	Q(arm_fhm, 0) \
	Q(arm_neon_dot, 0) \
	Q(arm_neon_bf16, 0) \
	Q(arm_jscvt, 0) \
	Q(arm_fcma, 0) \
	Q(arm_i8mm, 0) \
	Q(arm_aes, 0) \
	Q(arm_sha1, 0) \
	Q(arm_sha2, 0) \
	Q(arm_pmull, 0) \
	Q(arm_crc32, 0) \
	Q(arm_sve, 0) \
	Q(arm_sve_bf16, 0) \
	Q(arm_sve2, 0) \
	Q(arm_sme, 0) \
	Q(arm_sme2, 0) \
	Q(arm_sme2p1, 0) \
	Q(arm_sme_i16i32, 0) \
	Q(arm_sme_bi32i32, 0) \
	Q(arm_sme_b16b16, 0) \
	Q(arm_sme_f16f16, 0)
#endif

#if CPUINFO_ARCH_RISCV64
#define RISCV(Q) \
	Q(riscv_i, I(i)) Q(riscv_e, 0) Q(riscv_m, I(m)) Q(riscv_a, I(a)) Q(riscv_f, I(f)) Q(riscv_d, I(d)) \
	Q(riscv_g, I(i) && I(m) && I(a) && I(f) && I(d)) Q(riscv_c, I(c)) Q(riscv_v, I(v))
#else
#define RISCV(Q) \
	Q(riscv_i, 0) Q(riscv_e, 0) Q(riscv_m, 0) Q(riscv_a, 0) Q(riscv_f, 0) Q(riscv_d, 0) Q(riscv_g, 0) Q(riscv_c, 0) Q(riscv_v, 0)
#endif

/* the queries take no arguments and only read, so one contract covers them all */
#define Q_FIELD(q, spec) bool q;
#define Q_GET(q, spec) r.q = cpuinfo_has_##q();
struct answers {
	X86(Q_FIELD) ARM(Q_FIELD) RISCV(Q_FIELD)
	uint32_t sve_length;
};
#define Q_ENS(q, spec) ENS_(q, (bool)R_.q == (bool)(spec))
#ifdef VF_CBMC
#define ENS_(q, c) VF_ENS(q, c)
#define R_ __CPROVER_return_value
struct answers ask_all(void) X86(Q_ENS) ARM(Q_ENS) RISCV(Q_ENS)
#if CPUINFO_ARCH_ARM64
__CPROVER_ensures(R_.sve_length == I(svelen) * 8)
#else
__CPROVER_ensures(R_.sve_length == 0)
#endif
__CPROVER_assigns();
#undef R_
#undef ENS_
#endif
struct answers ask_all(void) {
	struct answers r;
	X86(Q_GET) ARM(Q_GET) RISCV(Q_GET)
	r.sve_length = cpuinfo_get_max_arm_sve_length();
	return r;
}

void harness(void) {
	VF_LOAD();
	cpuinfo_isa = IN.isa;
	struct answers r = ask_all();
#ifndef VF_CBMC
#define R_ r
#define ENS_(q, c) if (!(c)) vf_fail(#q);
	X86(Q_ENS) ARM(Q_ENS) RISCV(Q_ENS)
#if CPUINFO_ARCH_ARM64
	if (r.sve_length != I(svelen) * 8) vf_fail("sve_length");
#else
	if (r.sve_length != 0) vf_fail("sve_length");
#endif
#endif
	VF_REACH(end);
}
