/* cpuinfo_arm_chipset_to_string: the printed name is the vendor, series, model and suffix, terminated within its buffer.
 * A decoded chipset has the vendor of its series (C28), and no model without series.
 * FROM: first of the STEP series checked in this run, and every vendor without series.
 * snprintf and strncpy follow their standard descriptions. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <cpuinfo.h>
#include <arm/api.h>

typedef struct {
	uint32_t model;
	char suffix[CPUINFO_ARM_CHIPSET_SUFFIX_MAX];
	char before;          /* what the name buffer held */
} inputs_t;
VF_INPUTS(inputs_t)

static char NAME[CPUINFO_ARM_CHIPSET_NAME_MAX];
static char digits[11]; /* decimal digits of the model */

/* decimal digits without leading zeroes */
static void decimal(uint32_t value, char text[11]) {
	char reversed[10];
	uint32_t n = 0;
	do { reversed[n++] = (char)('0' + value % 10); value /= 10; } while (value != 0);
	for (uint32_t i = 0; i < n; i++) text[i] = reversed[n - 1 - i];
	text[n] = 0;
}

/* standard functions */
static size_t room, used;
static char* to;
static void put(char c) {
	if (used + 1 < room) to[used] = c;
	used++;
}
static int vf_snprintf(char* s, size_t n, const char* format, ...) {
	va_list args;
	VF_ASSERT(writes_within_the_buffer, n <= CPUINFO_ARM_CHIPSET_NAME_MAX - (size_t)(s - NAME));
	va_start(args, format);
	to = s;
	room = n;
	used = 0;
	for (size_t i = 0; format[i] != 0; i++) {
		if (format[i] != '%') { put(format[i]); continue; }
		i++;
		size_t limit = SIZE_MAX;
		if (format[i] == '.') {
			VF_FITS(known_format, format[i + 1] == '*' && format[i + 2] == 's');
			int given = va_arg(args, int);
			if (given >= 0) limit = (size_t)given;
			i += 2;
		}
		if (format[i] == 's') {
			const char* text = va_arg(args, const char*);
			for (size_t k = 0; k < limit && text[k] != 0; k++) put(text[k]);
		} else {
			VF_FITS(known_format, format[i] == 'u' || format[i] == 'c');
			uint32_t value = va_arg(args, uint32_t);
			if (format[i] == 'c') put((char)value);
			else if (value == IN.model) { for (size_t k = 0; digits[k] != 0; k++) put(digits[k]); }
			else {
				char other[11];
				decimal(value, other);
				for (size_t k = 0; other[k] != 0; k++) put(other[k]);
			}
		}
	}
	va_end(args);
	if (n != 0) s[used < n ? used : n - 1] = 0;
	return (int)used;
}
static size_t vf_strnlen(const char* s, size_t n) {
	size_t k = 0;
	while (k < n && s[k] != 0) k++;
	return k;
}
static char* vf_strncpy(char* s, const char* from, size_t n) {
	VF_ASSERT(copies_within_the_buffer, n <= CPUINFO_ARM_CHIPSET_NAME_MAX - (size_t)(s - NAME));
	size_t k = 0;
	for (; k < n && from[k] != 0; k++) s[k] = from[k];
	for (; k < n; k++) s[k] = 0;
	return s;
}

/* reference */
static const char* vendor_text(uint32_t v) {
	switch (v) {
#define V(name, text) case cpuinfo_arm_chipset_vendor_##name: return text;
		V(qualcomm, "Qualcomm") V(mediatek, "MediaTek") V(samsung, "Samsung") V(hisilicon, "HiSilicon") V(actions, "Actions") V(allwinner, "Allwinner")
		V(amlogic, "Amlogic") V(broadcom, "Broadcom") V(lg, "LG") V(leadcore, "Leadcore") V(marvell, "Marvell") V(mstar, "MStar") V(novathor, "NovaThor")
		V(nvidia, "Nvidia") V(pinecone, "Pinecone") V(renesas, "Renesas") V(rockchip, "Rockchip") V(spreadtrum, "Spreadtrum") V(telechips, "Telechips")
		V(texas_instruments, "Texas Instruments") V(unisoc, "Unisoc") V(wondermedia, "WonderMedia")
		default: return "Unknown";
	}
}
/* X(vendor, series of the vendor, text) */
#define ALL_SERIES(X) \
	X(qualcomm, qsd, "QSD") X(qualcomm, msm, "MSM") X(qualcomm, apq, "APQ") X(qualcomm, snapdragon, "Snapdragon ") \
	X(mediatek, mt, "MT") X(samsung, exynos, "Exynos ") X(hisilicon, k3v, "K3V") X(hisilicon, hi, "Hi") \
	X(hisilicon, kirin, "Kirin ") X(actions, atm, "ATM") X(allwinner, a, "A") X(amlogic, aml, "AML") X(amlogic, s, "S") \
	X(broadcom, bcm, "BCM") X(lg, nuclun, "Nuclun ") X(leadcore, lc, "LC") X(marvell, pxa, "PXA") X(mstar, 6a, "6A") \
	X(novathor, u, "U") X(nvidia, tegra_t, "Tegra T") X(nvidia, tegra_ap, "Tegra AP") X(nvidia, tegra_sl, "Tegra SL") \
	X(pinecone, surge_s, "Surge S") X(renesas, mp, "MP") X(rockchip, rk, "RK") X(spreadtrum, sc, "SC") X(telechips, tcc, "TCC") \
	X(texas_instruments, omap, "OMAP") X(unisoc, t, "T") X(unisoc, ums, "UMS") X(wondermedia, wm, "WM")
#define TEXT(vendor, name, text) case cpuinfo_arm_chipset_series_##vendor##_##name: return text;
#define VENDOR(vendor, name, text) case cpuinfo_arm_chipset_series_##vendor##_##name: return cpuinfo_arm_chipset_vendor_##vendor;
static const char* series_text(uint32_t s) {
	switch (s) {
		ALL_SERIES(TEXT)
		default: return 0;
	}
}
static uint32_t vendor_of(uint32_t s) {
	switch (s) {
		ALL_SERIES(VENDOR)
		default: return cpuinfo_arm_chipset_vendor_unknown;
	}
}
static bool spelled(uint32_t v, uint32_t s) {
	const char *vendor = vendor_text(v), *series = series_text(s);
	uint32_t n = 0;
	for (uint32_t k = 0; vendor[k] != 0; k++)
		if (NAME[n++] != vendor[k]) return false;
	if (series != 0) {
		if (NAME[n++] != ' ') return false;
		for (uint32_t k = 0; series[k] != 0; k++)
			if (NAME[n++] != series[k]) return false;
		if (IN.model != 0) {
			for (uint32_t k = 0; digits[k] != 0; k++)
				if (NAME[n++] != digits[k]) return false;
			for (uint32_t k = 0; k < CPUINFO_ARM_CHIPSET_SUFFIX_MAX && IN.suffix[k] != 0; k++)
				if (NAME[n++] != IN.suffix[k]) return false;
		}
	}
	return NAME[n] == 0; /* at most 17 + 1 + 11 + 10 + 8 = 47 */
}

#define snprintf vf_snprintf
#define strncpy vf_strncpy
#define strnlen vf_strnlen
#include <arm/linux/chipset.c>

static void check(uint32_t vendor, uint32_t series) {
	struct cpuinfo_arm_chipset chipset = {.vendor = vendor, .series = series, .model = series_text(series) ? IN.model : 0};
	for (uint32_t i = 0; i < CPUINFO_ARM_CHIPSET_SUFFIX_MAX; i++) chipset.suffix[i] = IN.suffix[i];
	for (uint32_t i = 0; i < CPUINFO_ARM_CHIPSET_NAME_MAX; i++) NAME[i] = IN.before;
	cpuinfo_arm_chipset_to_string(&chipset, NAME);
	VF_ASSERT(name, spelled(vendor, series));
}
void harness(void) {
	VF_LOAD();
	decimal(IN.model, digits);
	for (uint32_t k = FROM; k < FROM + STEP; k++) check(vendor_of(k), k);
#if FROM == 0
	for (uint32_t k = 0; k <= cpuinfo_arm_chipset_vendor_max; k++) check(k, cpuinfo_arm_chipset_series_unknown);
#endif
	VF_COVER(longest, IN.model > 4000000000 && IN.suffix[7] != 0);
	VF_REACH(end);
}
