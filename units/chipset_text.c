/* cpuinfo_arm_linux_decode_chipset: the Hardware text (and, for Broadcom, the Revision text) decodes to the chipset its documented
 * signature names, or to the unknown chipset.
 * LENGTH: characters of the Hardware text; it fills its buffer, whose size is set to LENGTH + SPARE characters for the run
 * (with SPARE, a NUL and arbitrary characters follow the text).
 * GUARD: bytes behind the buffer that belong to it for the verifier (see registry.py).
 * PREFIX: fixed characters the text starts with (default: none). */
#include "vf.h"
#include <string.h>
#include <cpuinfo.h>
#include <arm/linux/api.h>

#ifndef SPARE
	#define SPARE 0
#endif
#ifndef PREFIX
	#define PREFIX ""
#endif
#ifndef GUARD
	#define GUARD 0
#endif
#define FIXED (sizeof(PREFIX) - 1)

typedef struct {
	char text[LENGTH + SPARE + GUARD];
	char revision[CPUINFO_REVISION_VALUE_MAX];
	uint32_t cores;
	uint32_t frequency;
} inputs_t;
VF_INPUTS(inputs_t)

static char TEXT[LENGTH + SPARE + GUARD];

static size_t vf_strnlen(const char* s, size_t n) {
	if (s == TEXT) return n < LENGTH ? n : LENGTH; /* the text has no NUL among its LENGTH characters */
	size_t k = 0;
	while (k < n && s[k] != 0) k++;
	return k;
}
static int vf_strncmp(const char* a, const char* b, size_t n) {
	for (size_t k = 0; k < n; k++) {
		if (a[k] != b[k]) return (uint8_t)a[k] < (uint8_t)b[k] ? -1 : 1;
		if (a[k] == 0) return 0;
	}
	return 0;
}
static int vf_memcmp(const void* a, const void* b, size_t n) {
	for (size_t k = 0; k < n; k++)
		if (((const uint8_t*)a)[k] != ((const uint8_t*)b)[k]) return ((const uint8_t*)a)[k] < ((const uint8_t*)b)[k] ? -1 : 1;
	return 0;
}

/* reference */
typedef struct {
	uint32_t vendor, series, model;
	char suffix[CPUINFO_ARM_CHIPSET_SUFFIX_MAX];
} chip;

static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static char upper(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 'a' + 'A') : c; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
/* the text from `at` on starts with s; any case: s is in capitals and either case is accepted */
static bool starts(uint32_t at, const char* s, bool any_case) {
	for (uint32_t k = 0; s[k] != 0; k++) {
		if (at + k >= LENGTH) return false;
		if ((any_case ? upper(TEXT[at + k]) : TEXT[at + k]) != s[k]) return false;
	}
	return true;
}
/* n digits at `at` */
static bool number(uint32_t at, uint32_t n, uint32_t* value) {
	if (at + n > LENGTH) return false;
	*value = 0;
	for (uint32_t k = 0; k < n; k++) {
		if (!digit(TEXT[at + k])) return false;
		*value = 10 * *value + (uint32_t)(TEXT[at + k] - '0');
	}
	return true;
}
static bool is(uint32_t vendor, uint32_t series, uint32_t model, chip* c) {
	chip made = {0};
	made.vendor = vendor;
	made.series = series;
	made.model = model;
	*c = made;
	return true;
}
#define IS(v, s, m) is(cpuinfo_arm_chipset_vendor_##v, cpuinfo_arm_chipset_series_##v##_##s, m, c)

/* signatures a word may start with */
static bool word(uint32_t at, chip* c) {
	const uint32_t rest = LENGTH - at;
	uint32_t model = 0;
	/* (MSM|APQ) ?\d{4}[A-Z-]*, any case */
	if (starts(at, "MSM", true) || starts(at, "APQ", true)) {
		const uint32_t from = at + 3 + (at + 3 < LENGTH && TEXT[at + 3] == ' ');
		if (number(from, 4, &model)) {
			if (starts(at, "MSM", true)) IS(qualcomm, msm, model);
			else IS(qualcomm, apq, model);
			for (uint32_t k = 0; k < CPUINFO_ARM_CHIPSET_SUFFIX_MAX && from + 4 + k < LENGTH; k++) {
				const char s = TEXT[from + 4 + k];
				if (!letter(s) && s != '-') break;
				c->suffix[k] = upper(s);
			}
			return true;
		}
	}
	/* SDM\d{3}$ and SM\d{4}$ */
	if (rest == 6 && starts(at, "SDM", false) && number(at + 3, 3, &model)) return IS(qualcomm, snapdragon, model);
	if (rest == 6 && starts(at, "SM", false) && number(at + 2, 4, &model)) return IS(qualcomm, snapdragon, model);
	/* MTK?\d{4}[A-Z/]{0,8}$, any case */
	if (starts(at, "MT", true)) {
		const uint32_t from = at + 2 + (at + 2 < LENGTH && upper(TEXT[at + 2]) == 'K');
		if (number(from, 4, &model) && LENGTH - from - 4 <= CPUINFO_ARM_CHIPSET_SUFFIX_MAX) {
			bool fine = true;
			for (uint32_t k = from + 4; k < LENGTH; k++)
				if (!letter(TEXT[k]) && TEXT[k] != '/') fine = false;
			if (fine) {
				IS(mediatek, mt, model);
				for (uint32_t k = 0; from + 4 + k < LENGTH; k++) c->suffix[k] = upper(TEXT[from + 4 + k]);
				return true;
			}
		}
	}
	/* [Kk]irin\s?\d{3}$ */
	if (rest >= 8 && rest <= 9 && (TEXT[at] == 'k' || TEXT[at] == 'K') && starts(at + 1, "irin", false)) {
		const char gap = TEXT[at + 5];
		if ((rest == 8 || gap == ' ' || gap == '\t' || gap == '\r' || gap == '\n') && number(LENGTH - 3, 3, &model)) return IS(hisilicon, kirin, model);
	}
	/* rk\d{4}[a-z]?$, any case */
	if (rest >= 6 && rest <= 7 && starts(at, "RK", true) && number(at + 2, 4, &model) && (rest == 6 || letter(TEXT[at + 6]))) {
		IS(rockchip, rk, model);
		if (rest == 7) c->suffix[0] = upper(TEXT[at + 6]);
		return true;
	}
	return false;
}
/* the documented text may be in any case or with a capital at the start of its words only: both kinds count as either */
static bool unspecified;

#ifdef __arm__
	#define ARM32 1
#else
	#define ARM32 0
#endif
static bool named(const char* s) { return starts(0, s, false) && strlen(s) == LENGTH; }

static chip decoded(void) {
	chip made = {0}, *c = &made;
	uint32_t model = 0;
	unspecified = false;
	for (uint32_t at = 0; at < LENGTH; at++)
		if ((at == 0 || TEXT[at - 1] == ' ' || TEXT[at - 1] == '\t' || TEXT[at - 1] == ',') && letter(TEXT[at]) && word(at, c)) return made;
	/* Samsung Exynos ?\d{4}, at most 19 characters (a carriage return may follow the digits) */
	if (starts(0, "SAMSUNG EXYNOS", true)) {
		const uint32_t from = 14 + (14 < LENGTH && TEXT[14] == ' ');
		if (LENGTH >= 18 && LENGTH <= 19 && number(from, 4, &model)) {
			unspecified = TEXT[0] != 'S' || TEXT[8] != 'E';
			IS(samsung, exynos, model);
			return made;
		}
	}
	if (LENGTH == 13 && starts(0, "UNIVERSAL", true) && number(9, 4, &model)) { IS(samsung, exynos, model); return made; }
	if (ARM32 && LENGTH == 8 && starts(0, "SMDK", true)) {
		if (starts(4, "4210", false)) { IS(samsung, exynos, 4210); return made; }
		if (starts(4, "4x12", false) && (IN.cores == 2 || IN.cores == 4)) { IS(samsung, exynos, IN.cores == 2 ? 4212 : 4412); return made; }
	}
	/* s[cp]\d{4}[a-z]*$ and scx15$, any case */
	if (LENGTH == 5 && starts(0, "SCX15", true)) { IS(spreadtrum, sc, 7715); return made; }
	if ((starts(0, "SC", true) || starts(0, "SP", true)) && number(2, 4, &model)) {
		bool fine = true;
		for (uint32_t k = 6; k < LENGTH && k < 6 + CPUINFO_ARM_CHIPSET_SUFFIX_MAX; k++)
			if (!letter(TEXT[k])) fine = false;
		if (fine) {
			IS(spreadtrum, sc, model);
			for (uint32_t k = 0; 6 + k < LENGTH && k < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; k++) c->suffix[k] = upper(TEXT[6 + k]);
			return made;
		}
	}
	if (LENGTH >= 11 && LENGTH <= 12 && starts(0, "Unisoc T", false) && number(8, LENGTH - 8, &model)) { IS(unisoc, t, model); return made; }
	if (LENGTH >= 13 && LENGTH <= 14 && starts(0, "Unisoc UMS", false) && number(10, LENGTH - 10, &model)) { IS(unisoc, ums, model); return made; }
	if (ARM32 && LENGTH >= 6 && LENGTH <= 7 && starts(0, "PXA", false)) {
		if (named("PXA1L88")) { IS(marvell, pxa, 1088); return made; }
		if (number(3, LENGTH - 3, &model)) { IS(marvell, pxa, model); return made; }
	}
	/* sun\d{1,2}i */
	if (starts(0, "sun", false)) {
		uint32_t end = 4;
		if (number(3, 2, &model)) end = 5;
		else if (!number(3, 1, &model)) end = 0;
		if (end != 0 && end < LENGTH && TEXT[end] == 'i') {
			const uint32_t n = IN.cores;
			uint32_t a = 0;
			if (model == 50 && n == 4) a = 64;
			if (ARM32) {
				if (model == 4 && n == 1) a = 10;
				if (model == 5 && n == 1) a = 13;
				if (model == 6 && n == 4) a = 31;
				if (model == 7 && n == 2) a = 20;
				if (model == 8 && n == 2) a = 23;
				if (model == 8 && n == 4) a = 33;
				if (model == 8 && n == 8) a = 83;
				if (model == 9 && n == 8) a = 80;
			}
			IS(allwinner, a, a);
			if (a == 83) c->suffix[0] = 'T';
			return made;
		}
	}
	if (LENGTH == 7 && starts(0, "BCM", false) && number(3, 4, &model)) { IS(broadcom, bcm, model); return made; }
	if (ARM32 && LENGTH == 8 && starts(0, "OMAP", false) && number(4, 4, &model)) { IS(texas_instruments, omap, model); return made; }
	if (ARM32 && named("WMT")) {
		IS(wondermedia, wm, IN.cores == 1 && IN.frequency == 1008000 ? 8950 : IN.cores == 1 && IN.frequency == 1200000 ? 8850 : IN.cores == 2 && IN.frequency == 1500000 ? 8880 : 0);
		return made;
	}
	if (LENGTH == 7 && starts(0, "tcc", false) && number(3, 3, &model) && TEXT[6] == 'x') { IS(telechips, tcc, model); c->suffix[0] = 'X'; return made; }
	if (named("hi6250")) IS(hisilicon, kirin, 650);
	if (named("hi6210sft")) IS(hisilicon, kirin, 620);
	if (named("hi3751")) IS(hisilicon, hi, 3751);
	if (named("hi3635")) IS(hisilicon, kirin, 930);
	if (ARM32) {
		if (named("k3v2oem1")) IS(hisilicon, k3v, 2);
		if (named("hi6620oem")) { IS(hisilicon, kirin, 910); c->suffix[0] = 'T'; }
		if (named("hi3630")) IS(hisilicon, kirin, 920);
		if (named("gs702a")) IS(actions, atm, 7029);
		if (named("gs702c")) { IS(actions, atm, 7029); c->suffix[0] = 'B'; }
		if (named("gs703d")) { IS(actions, atm, 7039); c->suffix[0] = 'S'; }
		if (named("gs705a")) { IS(actions, atm, 7059); c->suffix[0] = 'A'; }
		if (named("Amlogic Meson8")) IS(amlogic, s, 812);
		if (named("Amlogic Meson8B")) IS(amlogic, s, 805);
		if (named("mapphone_CDMA")) IS(texas_instruments, omap, 4430);
		if (named("Superior")) IS(texas_instruments, omap, 4470);
		if (named("Tuna")) IS(texas_instruments, omap, 4460);
		if (named("Manta")) IS(samsung, exynos, 5250);
		if (named("Odin")) IS(lg, nuclun, 7111);
		if (named("Madison")) IS(mstar, 6a, 338);
	}
	return made;
}

/* the suffix is exactly s */
static bool suffix_is(const chip* c, const char* s) {
	uint32_t k = 0;
	for (; s[k] != 0; k++)
		if (c->suffix[k] != s[k]) return false;
	return k == CPUINFO_ARM_CHIPSET_SUFFIX_MAX || c->suffix[k] == 0;
}
static void set_suffix(chip* c, const char* s) {
	uint32_t k = 0;
	for (; s[k] != 0; k++) c->suffix[k] = s[k];
	for (; k < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; k++) c->suffix[k] = 0;
}
/* `model` is reported for chipsets of n and of m processors; the latter is really `other` */
static void split(chip* c, uint32_t model, uint32_t n, uint32_t m, uint32_t other) {
	if (c->model == model && IN.cores != n) c->model = IN.cores == m ? other : 0;
}
/* documented misreports */
static chip repaired(chip from) {
	chip made = from, *c = &made;
	switch (from.series) {
		case cpuinfo_arm_chipset_series_qualcomm_msm:
			if (from.suffix[0] == 0) {
				if (from.model == 8216) c->model = 8916;
				else if (from.model == 8916) split(c, 8916, 4, 8, 8939);
				else if (from.model == 8937) split(c, 8937, 8, 4, 8917);
				else if (from.model == 8996) split(c, 8996, 4, 8, 8994);
				else if (from.model == 8610 && ARM32) split(c, 8610, 2, 4, 8612);
				else if (from.model == 8960) {
					if (IN.cores == 4) c->series = cpuinfo_arm_chipset_series_qualcomm_apq;
					split(c, 8960, 2, 4, 8064);
				}
			} else if (suffix_is(c, "MSM")) set_suffix(c, "");
			else if (from.model == 8976 && suffix_is(c, "SG")) set_suffix(c, "PRO");
			else if (from.model == 8996 && suffix_is(c, "PRO")) set_suffix(c, IN.frequency >= 2188800 ? "PRO-AC" : "PRO-AB");
			break;
		case cpuinfo_arm_chipset_series_qualcomm_apq:
			if (suffix_is(c, "APQ")) set_suffix(c, "");
			break;
		case cpuinfo_arm_chipset_series_samsung_exynos:
			if (from.model == 4410 && ARM32) c->model = 4412;
			if (from.model == 5420 && ARM32) split(c, 5420, 4, 6, 5260);
			if (from.model == 7580) split(c, 7580, 8, 4, 7578);
			break;
		case cpuinfo_arm_chipset_series_mediatek_mt:
			split(c, 6752, 8, 4, 6732);
			if (suffix_is(c, "TURBO") || suffix_is(c, "TRUBO")) set_suffix(c, "T");
			break;
		case cpuinfo_arm_chipset_series_rockchip_rk:
			split(c, 3288, 4, 6, 3399);
			break;
		case cpuinfo_arm_chipset_series_broadcom_bcm: {
			uint32_t n = 0;
			while (n < CPUINFO_REVISION_VALUE_MAX && IN.revision[n] != 0) n++;
			if (n == 4 && ARM32 && from.model == 2708) c->model = 2835;
			if (n >= 5 && n <= 8) {
				const char code = IN.revision[n - 4];
				if (code >= '0' && code <= '3') c->model = code == '0' ? 2835 : code == '1' ? 2836 : code == '2' ? 2837 : 2711;
			}
			break;
		}
	}
	return made;
}

#define strnlen vf_strnlen
#define strncmp vf_strncmp
#define memcmp vf_memcmp
#include <arm/linux/chipset.c>
#undef strnlen
#undef strncmp
#undef memcmp

void harness(void) {
	VF_LOAD();
	for (uint32_t k = 0; k < LENGTH + SPARE + GUARD; k++) {
		TEXT[k] = k < FIXED ? PREFIX[k] : IN.text[k];
		if (k < LENGTH) VF_ASSUME(TEXT[k] != 0);
	}
#if SPARE
	TEXT[LENGTH] = 0;
#endif
	const chip expected = repaired(decoded());
	const struct cpuinfo_arm_chipset got = cpuinfo_arm_linux_decode_chipset(TEXT, IN.revision, IN.cores, IN.frequency);
	if (!unspecified) {
		VF_ASSERT(vendor, got.vendor == expected.vendor);
		VF_ASSERT(series, got.series == expected.series);
		VF_ASSERT(model, got.model == expected.model);
		for (uint32_t k = 0; k < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; k++) VF_ASSERT(suffix, got.suffix[k] == expected.suffix[k]);
	}
#if LENGTH >= 6
	VF_COVER(known, expected.vendor != cpuinfo_arm_chipset_vendor_unknown);
#endif
	VF_COVER(unknown, expected.vendor == cpuinfo_arm_chipset_vendor_unknown);
	VF_REACH(end);
}
