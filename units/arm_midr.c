/* Core types of cluster leaders when /proc/cpuinfo reports only some of them.
 * Bounded: N processors. LAYOUT: leader of each, 9: unusable. CHIPSET: a tabulated chipset. */
#include "vf.h"
#include <cpuinfo.h>
#include <linux/api.h>
#include <arm/linux/api.h>

typedef struct {
	struct { uint32_t flags, midr, max_frequency; } a[N];
	uint32_t series, model;
	uint8_t row;  /* tabulated chipset */
	uint8_t p;    /* arbitrary processor */
} inputs_t;
VF_INPUTS(inputs_t)
static struct cpuinfo_arm_linux_processor T[N];

static const uint32_t layout[N] = {LAYOUT};
#define LEADER(i) layout[i]
#define USABLE(i) (layout[i] != 9)
#define HAS(i, flag) ((IN.a[i].flags & (flag)) == (flag))
#define CORE_KNOWN(i) HAS(i, CPUINFO_ARM_LINUX_VALID_IMPLEMENTER | CPUINFO_ARM_LINUX_VALID_PART)
#define ALL_KNOWN(i) HAS(i, CPUINFO_ARM_LINUX_VALID_MIDR)
#define LEADS(i) (USABLE(i) && LEADER(i) == (i))

/* chipsets with tabulated core types: consecutive clusters, LITTLE cores first */
typedef struct { uint32_t series, model; uint8_t clusters, cores[3]; uint32_t midr[3]; } chipset_t;
#define S(name) cpuinfo_arm_chipset_series_##name
static const chipset_t chipsets[] = {
	{S(qualcomm_msm), 8956, 2, {4, 2}, {0x410FD034, 0x410FD080}},
	{S(qualcomm_msm), 8976, 2, {4, 4}, {0x410FD034, 0x410FD080}},
	{S(qualcomm_msm), 8992, 2, {4, 2}, {0x410FD033, 0x411FD072}},
	{S(qualcomm_msm), 8994, 2, {4, 4}, {0x410FD032, 0x411FD071}},
	{S(samsung_exynos), 5433, 2, {4, 4}, {0x410FD031, 0x411FD070}},
	{S(samsung_exynos), 7420, 2, {4, 4}, {0x410FD032, 0x411FD070}},
	{S(samsung_exynos), 8890, 2, {4, 4}, {0x410FD034, 0x531F0011}},
	{S(hisilicon_kirin), 950, 2, {4, 4}, {0x410FD034, 0x410FD080}},
	{S(hisilicon_kirin), 955, 2, {4, 4}, {0x410FD034, 0x410FD080}},
	{S(mediatek_mt), 8173, 2, {2, 2}, {0x410FD032, 0x410FD080}},
	{S(mediatek_mt), 8176, 2, {4, 2}, {0x410FD032, 0x410FD080}},
	{S(mediatek_mt), 6797, 3, {4, 4, 2}, {0x410FD034, 0x410FD034, 0x410FD081}},
	{S(mediatek_mt), 6799, 3, {4, 4, 2}, {0x410FD041, 0x410FD034, 0x410FD092}},
	{S(rockchip_rk), 3399, 2, {4, 2}, {0x410FD034, 0x410FD082}},
#if CPUINFO_ARCH_ARM
	{S(qualcomm_msm), 8916, 1, {4}, {0x410FD030}},
	{S(qualcomm_msm), 8939, 2, {4, 4}, {0x410FD034, 0x410FD034}},
	{S(samsung_exynos), 5422, 2, {4, 4}, {0x410FC073, 0x412FC0F3}},
	{S(samsung_exynos), 5430, 2, {4, 4}, {0x410FC074, 0x413FC0F3}},
	{S(hisilicon_kirin), 920, 2, {4, 4}, {0x410FC075, 0x413FC0F3}},
	{S(hisilicon_kirin), 925, 2, {4, 4}, {0x410FC075, 0x413FC0F3}},
	{S(hisilicon_kirin), 928, 2, {4, 4}, {0x410FC075, 0x413FC0F3}},
	{S(mediatek_mt), 8135, 2, {2, 2}, {0x410FC073, 0x413FC0F2}},
	{S(mediatek_mt), 6595, 2, {4, 4}, {0x410FC075, 0x410FC0E0}},
	{S(actions_atm), 7029, 1, {4}, {0x410FC051}},
#else
	{S(mediatek_mt), 8735, 1, {4}, {0x410FD034}},
#endif
};
#define ROWS (sizeof(chipsets) / sizeof(chipsets[0]))

/* LITTLE core usually paired with a big core */
static uint32_t little_for(uint32_t midr) {
	switch (midr & UINT32_C(0xFF0FFFF0)) {
		case 0x410FD0A0: return 0x410FD050;                                     /* A75: A55 */
		case 0x410FD090: case 0x410FD080: case 0x410FD070: case 0x530F0010: return 0x410FD030; /* A73, A72, A57, M1: A53 */
		case 0x410FC0E0: case 0x410FC0F0: return 0x410FC070;                    /* A17, A15: A7 */
		case 0x510F8000: return 0x51AF8014;                                     /* Kryo 280 */
		case 0x510F2050: return 0x510F2110;                                     /* Kryo */
		case 0x4E0F0030: return 0x410FD070;                                     /* Denver 2: A57 */
		default: return midr;
	}
}

/* what is known about the clusters before reconstruction */
static struct { uint32_t midr, flags, frequency, members; } known[N];
static uint32_t clusters, usable, reporting, last_reporting, last_listed, first_leader, second_leader, complete;
static void expect(void) {
	last_reporting = last_listed = N;
	for (uint32_t i = 0; i < N; i++) {
		if (!USABLE(i)) continue;
		usable++;
		if (HAS(i, CPUINFO_ARM_LINUX_VALID_PROCESSOR)) last_listed = i;
		if (CORE_KNOWN(i)) { last_reporting = i; reporting++; }
		if (LEADER(i) == i) {
			if (clusters == 0) first_leader = i;
			if (clusters == 1) second_leader = i;
			clusters++;
			known[i].midr = IN.a[i].midr;
			known[i].flags = IN.a[i].flags;
			known[i].frequency = IN.a[i].max_frequency;
			for (uint32_t j = i; j < N; j++) {
				if (!USABLE(j) || LEADER(j) != i) continue;
				known[i].members++;
				/* a leader takes over the complete report of a member */
				if ((known[i].flags & CPUINFO_ARM_LINUX_VALID_MIDR) != CPUINFO_ARM_LINUX_VALID_MIDR && ALL_KNOWN(j)) {
					known[i].midr = IN.a[j].midr;
					known[i].flags |= CPUINFO_ARM_LINUX_VALID_MIDR;
				}
				if (!(known[i].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) && HAS(j, CPUINFO_LINUX_FLAG_MAX_FREQUENCY)) {
					known[i].frequency = IN.a[j].max_frequency;
					known[i].flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
				}
			}
			if ((known[i].flags & CPUINFO_ARM_LINUX_VALID_MIDR) == CPUINFO_ARM_LINUX_VALID_MIDR) complete++;
		}
	}
}
#define COMPLETE(l) ((known[l].flags & CPUINFO_ARM_LINUX_VALID_MIDR) == CPUINFO_ARM_LINUX_VALID_MIDR)
static bool contradicts(uint32_t l, uint32_t midr) {
	uint32_t mask = 0;
	if (known[l].flags & CPUINFO_ARM_LINUX_VALID_IMPLEMENTER) mask |= UINT32_C(0xFF000000);
	if (known[l].flags & CPUINFO_ARM_LINUX_VALID_VARIANT) mask |= UINT32_C(0x00F00000);
	if (known[l].flags & CPUINFO_ARM_LINUX_VALID_PART) mask |= UINT32_C(0x0000FFF0);
	if (known[l].flags & CPUINFO_ARM_LINUX_VALID_REVISION) mask |= UINT32_C(0x0000000F);
	return ((known[l].midr ^ midr) & mask) != 0;
}
/* the only report may describe any processor */
static bool unattributable(void) { return reporting == 1 && last_listed == last_reporting && clusters > 1; }
static bool missing(void) { return unattributable() || (reporting < usable && complete < clusters); }

/* 1. table */
static uint32_t tabulated[N];
static bool in_table, listed_chipset;
static void look_up(void) {
#ifdef CHIPSET
	const chipset_t* t = &chipsets[IN.row];
	listed_chipset = true;
#else
	for (uint32_t r = 0; r < ROWS; r++)
		if (chipsets[r].series == IN.series && chipsets[r].model == IN.model) listed_chipset = true;
	if (listed_chipset) return; /* the other runs */
	const chipset_t* t = &chipsets[0];
#endif
	bool same = clusters == t->clusters && usable == (uint32_t)t->cores[0] + t->cores[1] + t->cores[2];
	uint32_t k = 0;
	for (uint32_t i = 0; i < N; i++)
		if (LEADS(i)) {
			if (k < 3) {
				tabulated[i] = t->midr[k];
				if (known[i].members != t->cores[k]) same = false;
				if (!unattributable() && contradicts(i, t->midr[k])) same = false;
			}
			k++;
		}
	in_table = listed_chipset && same;
}
/* 2. pairing */
static uint32_t paired(uint32_t l) {
	uint32_t little = first_leader, big = known[LEADER(last_reporting)].midr;
	if ((known[first_leader].flags & known[second_leader].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) &&
		known[first_leader].frequency > known[second_leader].frequency)
		little = second_leader;
	return l == little ? little_for(big) : big;
}
static bool pair_allowed(void) {
	return clusters == 2 && reporting != 0 && (unattributable() || (!contradicts(first_leader, paired(first_leader)) && !contradicts(second_leader, paired(second_leader))));
}
/* 3. nearest preceding complete report, or the last one */
static uint32_t scanned(uint32_t l) {
	uint32_t midr = known[LEADER(last_reporting)].midr;
	for (uint32_t i = 0; i <= l; i++)
		if (LEADS(i) && COMPLETE(i)) midr = known[i].midr;
	return midr;
}

#define P IN.p
#define PARTS UINT32_C(0xFFF0FFFF) /* register without the architecture field */
#define UNCHANGED(i) (T[i].midr == IN.a[i].midr && T[i].flags == IN.a[i].flags && T[i].max_frequency == IN.a[i].max_frequency)
#define MIDR(REQ, ENS, RET) \
	REQ(choice, IN.p < N) \
	ENS(clusters, (RET) == clusters) \
	ENS(others_untouched, LEADS(P) || UNCHANGED(P)) \
	ENS(rest_untouched, T[P].package_leader_id == LEADER(P) && T[P].system_processor_id == P) \
	ENS(reported_frequency, !LEADS(P) || !(known[P].flags & CPUINFO_LINUX_FLAG_MAX_FREQUENCY) || T[P].max_frequency == known[P].frequency) \
	ENS(complete_report_kept, !LEADS(P) || !COMPLETE(P) || unattributable() || ((T[P].midr ^ known[P].midr) & PARTS) == 0) \
	ENS(nothing_to_guess_from, !LEADS(P) || reporting != 0 || in_table || T[P].midr == known[P].midr) \
	ENS(nothing_missing, !LEADS(P) || missing() || T[P].midr == known[P].midr) \
	ENS(table, !LEADS(P) || !missing() || !in_table || T[P].midr == tabulated[P]) \
	ENS(pair, !LEADS(P) || !missing() || in_table || !pair_allowed() || reporting != 1 || COMPLETE(P) || T[P].midr == paired(P)) \
	ENS(scan, !LEADS(P) || !missing() || in_table || pair_allowed() || reporting == 0 || COMPLETE(P) || T[P].midr == scanned(P)) \
	ENS(pair_or_scan, !LEADS(P) || !missing() || in_table || reporting == 0 || COMPLETE(P) || T[P].midr == scanned(P) || (pair_allowed() && T[P].midr == paired(P))) \
	ENS(complete_report_kept_by_guess, !LEADS(P) || !COMPLETE(P) || in_table || T[P].midr == known[P].midr)

#include <arm/linux/midr.c>

void harness(void) {
	VF_LOAD();
	VF_PRE(MIDR);
	for (uint32_t i = 0; i < N; i++) {
		VF_ASSUME(((IN.a[i].flags & CPUINFO_LINUX_FLAG_VALID) != 0) == USABLE(i));
	}
#ifdef CHIPSET
	VF_ASSUME(IN.row < ROWS && IN.series == chipsets[IN.row].series && IN.model == chipsets[IN.row].model);
#endif
	expect();
	look_up();
	for (uint32_t i = 0; i < N; i++) {
		T[i].flags = IN.a[i].flags;
		T[i].midr = IN.a[i].midr;
		T[i].max_frequency = IN.a[i].max_frequency;
		T[i].package_leader_id = LEADER(i);
		T[i].system_processor_id = i;
		for (uint32_t l = 0; l < N; l++)
			if (LEADER(i) == l) T[i].package_processor_count = known[l].members;
	}
#ifdef CHIPSET
	VF_COVER(table, in_table && missing());
#else
	VF_ASSUME(!listed_chipset);
	VF_COVER(scan, missing() && reporting != 0);
#endif
	struct cpuinfo_arm_chipset chipset = {.series = IN.series, .model = IN.model};
	uint32_t r = cpuinfo_arm_linux_detect_cluster_midr(&chipset, N, usable, T);
	VF_POST(MIDR, r);
	(void)r;
	VF_REACH(end);
}
