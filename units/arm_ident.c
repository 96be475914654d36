/* ARM core identification from the main ID register.
 * UNIT_UARCH: vendor and microarchitecture tables.
 * UNIT_MIDR:  register field accessors, core recognisers.
 * UNIT_ROLES: role score, LITTLE-core pairing.
 * UNIT_ORDER: ordering of processors. */
#include "vf.h"
#include <string.h>
#include <cpuinfo.h>
#include <arm/linux/api.h>

typedef struct {
	uint32_t midr, other, value;
	bool vfpv4;
	uint32_t old_vendor, old_uarch;
	struct cpuinfo_arm_linux_processor a, b, c;
} inputs_t;
VF_INPUTS(inputs_t)

/* architected fields: [31:24] implementer, [23:20] variant, [19:16] architecture, [15:4] part, [3:0] revision */
#define IMPL(m) ((m) >> 24)
#define VARIANT(m) (((m) >> 20) & 15)
#define ARCH(m) (((m) >> 16) & 15)
#define PART(m) (((m) >> 4) & 0xFFF)
#define REVISION(m) ((m) & 15)
#define MIDR(impl, variant, arch, part, revision) \
	((((uint32_t)(impl) & 255) << 24) | (((uint32_t)(variant) & 15) << 20) | (((uint32_t)(arch) & 15) << 16) | \
		(((uint32_t)(part) & 0xFFF) << 4) | ((uint32_t)(revision) & 15))
#define CORE(impl, part) (((uint32_t)(impl) << 12) | (part))
#define CORE_OF(m) CORE(IMPL(m), PART(m))

#if defined(UNIT_UARCH)
typedef struct { uint32_t vendor, uarch; } ident_t;
#define V(v) cpuinfo_vendor_##v
#define U(u) cpuinfo_uarch_##u
static ident_t spec_uarch(uint32_t m, bool vfpv4, ident_t old) {
	switch (CORE_OF(m)) {
#if CPUINFO_ARCH_ARM
		case CORE('A', 0xC05): return (ident_t){V(arm), U(cortex_a5)};
		case CORE('A', 0xC07): return (ident_t){V(arm), U(cortex_a7)};
		case CORE('A', 0xC08): return (ident_t){V(arm), U(cortex_a8)};
		case CORE('A', 0xC09): return (ident_t){V(arm), U(cortex_a9)};
		case CORE('A', 0xC0C): case CORE('A', 0xC0D): return (ident_t){V(arm), U(cortex_a12)};
		case CORE('A', 0xC0E): return (ident_t){V(arm), U(cortex_a17)};
		case CORE('A', 0xC0F): return (ident_t){V(arm), U(cortex_a15)};
		case CORE('Q', 0x00F): return vfpv4 ? (ident_t){V(arm), U(cortex_a5)} : (ident_t){V(qualcomm), U(scorpion)};
		case CORE('Q', 0x02D): return (ident_t){V(qualcomm), U(scorpion)};
		case CORE('Q', 0x04D): case CORE('Q', 0x06F): return (ident_t){V(qualcomm), U(krait)};
		case CORE('V', 0x581): case CORE('V', 0x584): return (ident_t){V(marvell), U(pj4)};
#else
		case CORE('A', 0xD4A): return (ident_t){V(arm), U(neoverse_e1)};
		case CORE('B', 0x516): return (ident_t){V(cavium), U(thunderx2)};
		case CORE('C', 0x0A0): case CORE('C', 0x0A1): case CORE('C', 0x0A2): case CORE('C', 0x0A3):
			return (ident_t){V(cavium), U(thunderx)};
		case CORE('C', 0x0AF): return (ident_t){V(cavium), U(thunderx2)};
		case CORE('H', 0xD01): return (ident_t){V(huawei), U(taishan_v110)};
		case CORE('Q', 0x001): return (ident_t){V(qualcomm), U(oryon)};
		case CORE('Q', 0xC00): return (ident_t){V(qualcomm), U(falkor)};
		case CORE('Q', 0xC01): return (ident_t){V(qualcomm), U(saphira)};
#endif
		case CORE('A', 0xD01): return (ident_t){V(arm), U(cortex_a32)};
		case CORE('A', 0xD03): return (ident_t){V(arm), U(cortex_a53)};
		case CORE('A', 0xD04): return (ident_t){V(arm), U(cortex_a35)};
		case CORE('A', 0xD05): return (ident_t){V(arm), VARIANT(m) == 0 ? U(cortex_a55r0) : U(cortex_a55)};
		case CORE('A', 0xD06): return (ident_t){V(arm), U(cortex_a65)};
		case CORE('A', 0xD07): return (ident_t){V(arm), U(cortex_a57)};
		case CORE('A', 0xD08): return (ident_t){V(arm), U(cortex_a72)};
		case CORE('A', 0xD09): return (ident_t){V(arm), U(cortex_a73)};
		case CORE('A', 0xD0A): return (ident_t){V(arm), U(cortex_a75)};
		case CORE('A', 0xD0B): case CORE('A', 0xD0E): return (ident_t){V(arm), U(cortex_a76)};
		case CORE('A', 0xD0C): return (ident_t){V(arm), U(neoverse_n1)};
		case CORE('A', 0xD0D): return (ident_t){V(arm), U(cortex_a77)};
		case CORE('A', 0xD40): return (ident_t){V(arm), U(neoverse_v1)};
		case CORE('A', 0xD41): return (ident_t){V(arm), U(cortex_a78)};
		case CORE('A', 0xD44): return (ident_t){V(arm), U(cortex_x1)};
		case CORE('A', 0xD46): return (ident_t){V(arm), U(cortex_a510)};
		case CORE('A', 0xD47): return (ident_t){V(arm), U(cortex_a710)};
		case CORE('A', 0xD48): return (ident_t){V(arm), U(cortex_x2)};
		case CORE('A', 0xD49): return (ident_t){V(arm), U(neoverse_n2)};
		case CORE('A', 0xD4D): return (ident_t){V(arm), U(cortex_a715)};
		case CORE('A', 0xD4E): return (ident_t){V(arm), U(cortex_x3)};
		case CORE('A', 0xD4F): return (ident_t){V(arm), U(neoverse_v2)};
		case CORE('B', 0x00F): return (ident_t){V(broadcom), U(brahma_b15)};
		case CORE('B', 0x100): return (ident_t){V(broadcom), U(brahma_b53)};
		case CORE('H', 0xD40): return (ident_t){V(arm), U(cortex_a76)};
		case CORE('N', 0x000): return (ident_t){V(nvidia), U(denver)};
		case CORE('N', 0x003): return (ident_t){V(nvidia), U(denver2)};
		case CORE('N', 0x004): return (ident_t){V(nvidia), U(carmel)};
		case CORE('P', 0x000): return (ident_t){V(apm), U(xgene)};
		case CORE('Q', 0x201): case CORE('Q', 0x205): case CORE('Q', 0x211): return (ident_t){V(qualcomm), U(kryo)};
		case CORE('Q', 0x800): return (ident_t){V(arm), U(cortex_a73)};
		case CORE('Q', 0x801): return (ident_t){V(arm), U(cortex_a53)};
		case CORE('Q', 0x802): return (ident_t){V(arm), U(cortex_a75)};
		case CORE('Q', 0x803): return (ident_t){V(arm), U(cortex_a55r0)};
		case CORE('Q', 0x804): return (ident_t){V(arm), U(cortex_a76)};
		case CORE('Q', 0x805): return (ident_t){V(arm), U(cortex_a55)};
		case CORE('S', 0x001): if (VARIANT(m) == 1) return (ident_t){V(samsung), U(exynos_m1)};
			if (VARIANT(m) == 4) return (ident_t){V(samsung), U(exynos_m2)};
			break;
		case CORE('S', 0x002): if (VARIANT(m) == 1) return (ident_t){V(samsung), U(exynos_m3)}; break;
		case CORE('S', 0x003): if (VARIANT(m) == 1) return (ident_t){V(samsung), U(exynos_m4)}; break;
		case CORE('S', 0x004): if (VARIANT(m) == 1) return (ident_t){V(samsung), U(exynos_m5)}; break;
	}
	/* part not documented: the implementer's vendor is kept */
	switch (IMPL(m)) {
		case 'A':
#if CPUINFO_ARCH_ARM
			if (PART(m) >> 8 == 7) return (ident_t){V(arm), U(arm7)};
			if (PART(m) >> 8 == 9) return (ident_t){V(arm), U(arm9)};
			if (PART(m) >> 8 == 11) return (ident_t){V(arm), U(arm11)};
#endif
			return (ident_t){V(arm), old.uarch};
		case 'B': return (ident_t){V(broadcom), old.uarch};
		case 'H': return (ident_t){V(huawei), old.uarch};
		case 'N': return (ident_t){V(nvidia), old.uarch};
		case 'P': return (ident_t){V(apm), old.uarch};
		case 'Q': return (ident_t){V(qualcomm), old.uarch};
		case 'S': return (ident_t){V(samsung), old.uarch};
#if CPUINFO_ARCH_ARM
		case 'V': return (ident_t){V(marvell), old.uarch};
		case 'i': return (ident_t){V(intel), PART(m) >> 8 == 2 || PART(m) >> 8 == 4 || PART(m) >> 8 == 6 ? U(xscale) : old.uarch};
#else
		case 'C': return (ident_t){V(cavium), old.uarch};
#endif
		default: return old;
	}
}
static enum cpuinfo_vendor VENDOR;
static enum cpuinfo_uarch UARCH;
#define OLD ((ident_t){IN.old_vendor, IN.old_uarch})
#define DECODE(REQ, ENS, RET) \
	ENS(vendor_as_documented, VENDOR == (enum cpuinfo_vendor)spec_uarch(IN.midr, IN.vfpv4, OLD).vendor) \
	ENS(uarch_as_documented, UARCH == (enum cpuinfo_uarch)spec_uarch(IN.midr, IN.vfpv4, OLD).uarch)
void cpuinfo_arm_decode_vendor_uarch(
	uint32_t midr,
#if CPUINFO_ARCH_ARM
	bool has_vfpv4,
#endif
	enum cpuinfo_vendor vendor[RESTRICT_STATIC 1],
	enum cpuinfo_uarch uarch[RESTRICT_STATIC 1]) VF_CONTRACT(DECODE) VF_ASSIGNS(VENDOR, UARCH);
#include <arm/uarch.c>

void harness(void) {
	VF_LOAD();
	VENDOR = (enum cpuinfo_vendor)IN.old_vendor;
	UARCH = (enum cpuinfo_uarch)IN.old_uarch;
	VF_COVER(known, spec_uarch(IN.midr, false, OLD).uarch == U(cortex_a55));
	VF_COVER(unknown, IMPL(IN.midr) == 'Z');
#if CPUINFO_ARCH_ARM
	cpuinfo_arm_decode_vendor_uarch(IN.midr, IN.vfpv4, &VENDOR, &UARCH);
#else
	cpuinfo_arm_decode_vendor_uarch(IN.midr, &VENDOR, &UARCH);
#endif
	VF_POST(DECODE, 0);
	VF_REACH(end);
}

#else
/* role score: 6 prime .. 1 always LITTLE, 3 unknown */
static uint32_t spec_score(uint32_t m) {
	switch (CORE_OF(m)) {
		case CORE('S', 3): case CORE('S', 4): case CORE('A', 0xD44): case CORE('A', 0xD48): case CORE('A', 0xD4E):
			return 6;
		case CORE('A', 0xD08): case CORE('A', 0xD09): case CORE('A', 0xD0A): case CORE('A', 0xD0B): case CORE('A', 0xD0D):
		case CORE('A', 0xD0E): case CORE('A', 0xD41): case CORE('A', 0xD47): case CORE('A', 0xD4D): case CORE('H', 0xD40):
		case CORE('N', 3): case CORE('Q', 0x205): case CORE('Q', 0x800): case CORE('Q', 0x802): case CORE('Q', 0x804):
		case CORE('S', 1): case CORE('S', 2):
#if CPUINFO_ARCH_ARM
		case CORE('A', 0xC0C): case CORE('A', 0xC0D): case CORE('A', 0xC0E): case CORE('A', 0xC0F):
#endif
			return 5;
		case CORE('A', 0xD07):
			return 4;
		case CORE('A', 0xD03): case CORE('A', 0xD05): case CORE('A', 0xD46):
#if CPUINFO_ARCH_ARM64
		case CORE('A', 0xD06):
#endif
			return 2;
		case CORE('A', 0xD04): case CORE('Q', 0x805): case CORE('Q', 0x803): case CORE('Q', 0x801): case CORE('Q', 0x211):
		case CORE('Q', 0x201):
#if CPUINFO_ARCH_ARM
		case CORE('A', 0xC07):
#endif
			return 1;
		default:
			return 3;
	}
}
#if defined(UNIT_MIDR) || defined(UNIT_ROLES)
/* LITTLE core paired with a big core; cores are described by the architecture-code-15 register layout */
static uint32_t spec_little(uint32_t m) {
	if (ARCH(m) != 15) return m;
	switch (CORE_OF(m)) {
		case CORE('A', 0xD0A): return MIDR('A', 0, 15, 0xD05, 0);
		case CORE('A', 0xD09): case CORE('A', 0xD08): case CORE('A', 0xD07): case CORE('S', 1):
			return MIDR('A', 0, 15, 0xD03, 0);
		case CORE('A', 0xC0E): case CORE('A', 0xC0F): return MIDR('A', 0, 15, 0xC07, 0);
		case CORE('Q', 0x800): return MIDR('Q', 10, 15, 0x801, 4);
		case CORE('Q', 0x205): return MIDR('Q', 0, 15, 0x211, 0);
		case CORE('N', 3): return MIDR('A', 0, 15, 0xD07, 0);
		default: return m;
	}
}
static struct {
	uint32_t get_implementer, get_variant, get_part, get_revision;
	uint32_t set_implementer, set_variant, set_architecture, set_part, set_revision;
	uint32_t copy_implementer, copy_variant, copy_architecture, copy_part, copy_revision;
	uint32_t score, little;
	bool is_arm1156, is_arm11, is_a9, is_scorpion, is_krait, is_a53, is_a53_silver, is_a55_silver, is_kryo280_gold,
		is_kryo_silver, is_kryo_gold, is_altra;
} R;
#define M IN.midr
#define N IN.other
#define X IN.value
#define FIELDS(REQ, ENS, RET) \
	ENS(get_implementer, R.get_implementer == IMPL(M)) ENS(get_variant, R.get_variant == VARIANT(M)) \
	ENS(get_part, R.get_part == PART(M)) ENS(get_revision, R.get_revision == REVISION(M)) \
	ENS(set_implementer, R.set_implementer == MIDR(X, VARIANT(M), ARCH(M), PART(M), REVISION(M))) \
	ENS(set_variant, R.set_variant == MIDR(IMPL(M), X, ARCH(M), PART(M), REVISION(M))) \
	ENS(set_architecture, R.set_architecture == MIDR(IMPL(M), VARIANT(M), X, PART(M), REVISION(M))) \
	ENS(set_part, R.set_part == MIDR(IMPL(M), VARIANT(M), ARCH(M), X, REVISION(M))) \
	ENS(set_revision, R.set_revision == MIDR(IMPL(M), VARIANT(M), ARCH(M), PART(M), X)) \
	ENS(copy_implementer, R.copy_implementer == MIDR(IMPL(N), VARIANT(M), ARCH(M), PART(M), REVISION(M))) \
	ENS(copy_variant, R.copy_variant == MIDR(IMPL(M), VARIANT(N), ARCH(M), PART(M), REVISION(M))) \
	ENS(copy_architecture, R.copy_architecture == MIDR(IMPL(M), VARIANT(M), ARCH(N), PART(M), REVISION(M))) \
	ENS(copy_part, R.copy_part == MIDR(IMPL(M), VARIANT(M), ARCH(M), PART(N), REVISION(M))) \
	ENS(copy_revision, R.copy_revision == MIDR(IMPL(M), VARIANT(M), ARCH(M), PART(M), REVISION(N))) \
	ENS(is_arm1156, R.is_arm1156 == (CORE_OF(M) == CORE('A', 0xB56))) \
	ENS(is_arm11, R.is_arm11 == (IMPL(M) == 'A' && PART(M) >> 8 == 0xB)) \
	ENS(is_cortex_a9, R.is_a9 == (CORE_OF(M) == CORE('A', 0xC09))) \
	ENS(is_scorpion, R.is_scorpion == (CORE_OF(M) == CORE('Q', 0x00F) || CORE_OF(M) == CORE('Q', 0x02D))) \
	ENS(is_krait, R.is_krait == (CORE_OF(M) == CORE('Q', 0x04D) || CORE_OF(M) == CORE('Q', 0x06F))) \
	ENS(is_cortex_a53, R.is_a53 == (CORE_OF(M) == CORE('A', 0xD03))) \
	ENS(is_a53_silver, R.is_a53_silver == (CORE_OF(M) == CORE('Q', 0x801))) \
	ENS(is_a55_silver, R.is_a55_silver == (CORE_OF(M) == CORE('Q', 0x803))) \
	ENS(is_kryo280_gold, R.is_kryo280_gold == (CORE_OF(M) == CORE('Q', 0x800))) \
	ENS(is_kryo_silver, R.is_kryo_silver == (ARCH(M) == 15 && (CORE_OF(M) == CORE('Q', 0x211) || CORE_OF(M) == CORE('Q', 0x201)))) \
	ENS(is_kryo_gold, R.is_kryo_gold == (CORE_OF(M) == CORE('Q', 0x205))) \
	ENS(is_altra, R.is_altra == (CORE_OF(M) == CORE('A', 0xD0C)))
#define ROLES(REQ, ENS, RET) \
	ENS(role_score, R.score == spec_score(M)) \
	ENS(little_core, R.little == spec_little(M))
#ifdef UNIT_MIDR
static void ask_all(void) VF_CONTRACT(FIELDS) VF_ASSIGNS(R);
static void ask_all(void) {
	R.get_implementer = midr_get_implementer(M);
	R.get_variant = midr_get_variant(M);
	R.get_part = midr_get_part(M);
	R.get_revision = midr_get_revision(M);
	R.set_implementer = midr_set_implementer(M, X);
	R.set_variant = midr_set_variant(M, X);
	R.set_architecture = midr_set_architecture(M, X);
	R.set_part = midr_set_part(M, X);
	R.set_revision = midr_set_revision(M, X);
	R.copy_implementer = midr_copy_implementer(M, N);
	R.copy_variant = midr_copy_variant(M, N);
	R.copy_architecture = midr_copy_architecture(M, N);
	R.copy_part = midr_copy_part(M, N);
	R.copy_revision = midr_copy_revision(M, N);
	R.is_arm1156 = midr_is_arm1156(M);
	R.is_arm11 = midr_is_arm11(M);
	R.is_a9 = midr_is_cortex_a9(M);
	R.is_scorpion = midr_is_scorpion(M);
	R.is_krait = midr_is_krait(M);
	R.is_a53 = midr_is_cortex_a53(M);
	R.is_a53_silver = midr_is_qualcomm_cortex_a53_silver(M);
	R.is_a55_silver = midr_is_qualcomm_cortex_a55_silver(M);
	R.is_kryo280_gold = midr_is_kryo280_gold(M);
	R.is_kryo_silver = midr_is_kryo_silver(M);
	R.is_kryo_gold = midr_is_kryo_gold(M);
	R.is_altra = midr_is_ampere_altra(M);
}
#else
static void ask_roles(void) VF_CONTRACT(ROLES) VF_ASSIGNS(R);
static void ask_roles(void) {
	R.score = midr_score_core(M);
	R.little = midr_little_core_for_big(M);
}
#endif
void harness(void) {
	VF_LOAD();
	VF_COVER(little, spec_little(IN.midr) != IN.midr && VARIANT(IN.midr) == 7);
#ifdef UNIT_ROLES
	ask_roles();
	VF_POST(ROLES, 0);
#else
	ask_all();
	VF_POST(FIELDS, 0);
#endif
	VF_REACH(end);
}

#else
/* the documented order: usable first, then higher role, higher frequency, higher cluster leader, lower id */
typedef struct cpuinfo_arm_linux_processor cpu_t;
#define USABLE(p) (((p)->flags & CPUINFO_LINUX_FLAG_VALID) == CPUINFO_LINUX_FLAG_VALID)
static int spec_sign(int64_t x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int spec_order(const cpu_t* a, const cpu_t* b) {
	if (USABLE(a) != USABLE(b)) return USABLE(a) ? -1 : 1;
	if (spec_score(a->midr) != spec_score(b->midr)) return spec_score(a->midr) > spec_score(b->midr) ? -1 : 1;
	if (a->max_frequency != b->max_frequency) return a->max_frequency > b->max_frequency ? -1 : 1;
	if (a->package_leader_id != b->package_leader_id) return a->package_leader_id > b->package_leader_id ? -1 : 1;
	return spec_sign((int64_t)a->system_processor_id - (int64_t)b->system_processor_id);
}
static struct { int ab, ba, bc, ac, aa; } R;
#define ORDER(REQ, ENS, RET) \
	ENS(as_documented, spec_sign(R.ab) == spec_order(&IN.a, &IN.b)) \
	ENS(antisymmetric, spec_sign(R.ab) == -spec_sign(R.ba)) \
	ENS(reflexive, R.aa == 0) \
	ENS(transitive, !(R.ab <= 0 && R.bc <= 0) || R.ac <= 0) \
	ENS(transitive_strict, !(R.ab < 0 && R.bc <= 0) || R.ac < 0) \
	ENS(distinct_processors_never_tie, IN.a.system_processor_id == IN.b.system_processor_id || R.ab != 0)
static void ask_order(void) VF_CONTRACT(ORDER) VF_ASSIGNS(R);

#include <arm/linux/init.c>

static void ask_order(void) {
	R.ab = cmp_arm_linux_processor(&IN.a, &IN.b);
	R.ba = cmp_arm_linux_processor(&IN.b, &IN.a);
	R.bc = cmp_arm_linux_processor(&IN.b, &IN.c);
	R.ac = cmp_arm_linux_processor(&IN.a, &IN.c);
	R.aa = cmp_arm_linux_processor(&IN.a, &IN.a);
}
void harness(void) {
	VF_LOAD();
	VF_COVER(less, spec_order(&IN.a, &IN.b) < 0 && spec_order(&IN.b, &IN.c) < 0);
	ask_order();
	VF_POST(ORDER, 0);
	VF_REACH(end);
}
#endif
#endif
