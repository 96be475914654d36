/* x86 vendor string, signature fields and microarchitecture table. UNIT selects the function. */
#include "vf.h"
#include <string.h>
#include <cpuinfo.h>
#include <x86/api.h>

typedef struct {
	uint32_t eax, ebx, ecx, edx;
	int vendor;
} inputs_t;
VF_INPUTS(inputs_t)

/* ---- specification ---- */
#define CHR4(a, b, c, d) ((uint32_t)(a) | (uint32_t)(b) << 8 | (uint32_t)(c) << 16 | (uint32_t)(d) << 24)
#define SIG(v, s) \
	if (IN.ebx == CHR4(s[0], s[1], s[2], s[3]) && IN.edx == CHR4(s[4], s[5], s[6], s[7]) && \
	    IN.ecx == CHR4(s[8], s[9], s[10], s[11])) \
		return cpuinfo_vendor_##v;
static int spec_vendor(void) {
	SIG(intel, "GenuineIntel")
	SIG(amd, "AuthenticAMD")
	SIG(via, "CentaurHauls")
	SIG(hygon, "HygonGenuine")
#if CPUINFO_ARCH_X86
	SIG(transmeta, "GenuineTMx86")
	SIG(rdc, "Genuine  RDC")
	SIG(amd, "AMDisbetter!")
	SIG(amd, "AMD ISBETTER")
	SIG(via, "VIA VIA VIA ")
	SIG(transmeta, "TransmetaCPU")
	SIG(cyrix, "CyrixInstead")
	SIG(rise, "RiseRiseRise")
	SIG(nsc, "Geode by NSC")
	SIG(sis, "SiS SiS SiS ")
	SIG(nexgen, "NexGenDriven")
	SIG(umc, "UMC UMC UMC ")
	SIG(dmp, "Vortex86 SoC")
#endif
	return cpuinfo_vendor_unknown;
}

#define BASE_MODEL ((IN.eax >> 4) & 15)
#define BASE_FAMILY ((IN.eax >> 8) & 15)
#define EXT_MODEL ((IN.eax >> 16) & 15)
#define EXT_FAMILY ((IN.eax >> 20) & 255)
#define FAMILY (BASE_FAMILY + EXT_FAMILY)
#define MODEL (BASE_MODEL + 16 * EXT_MODEL)

struct row {
	uint16_t vendor, family, first, last;
	uint32_t uarch;
};
#define N(x) cpuinfo_uarch_##x
#define R(v, f, a, b, u) {cpuinfo_vendor_##v, f, a, b, N(u)},
#define M(v, f, a, u) R(v, f, a, a, u)
static const struct row table[] = {
#if CPUINFO_ARCH_X86
	R(intel, 5, 0x01, 0x04, p5) M(intel, 5, 0x09, quark)
	M(intel, 6, 0x01, p6) M(intel, 6, 0x03, p6) R(intel, 6, 0x05, 0x08, p6) R(intel, 6, 0x0A, 0x0B, p6)
	M(intel, 6, 0x09, dothan) M(intel, 6, 0x0D, dothan) M(intel, 6, 0x15, dothan) M(intel, 6, 0x0E, yonah)
	R(amd, 5, 0x00, 0x02, k5) R(amd, 5, 0x06, 0x08, k6) M(amd, 5, 0x0D, k6) M(amd, 5, 0x0A, geode)
	R(amd, 6, 0x00, 0xFF, k7)
#endif
	M(intel, 6, 0x0F, conroe) M(intel, 6, 0x16, conroe) M(intel, 6, 0x17, penryn) M(intel, 6, 0x1D, penryn)
	M(intel, 6, 0x1A, nehalem) M(intel, 6, 0x1E, nehalem) M(intel, 6, 0x1F, nehalem) M(intel, 6, 0x2E, nehalem)
	M(intel, 6, 0x25, nehalem) M(intel, 6, 0x2C, nehalem) M(intel, 6, 0x2F, nehalem)
	M(intel, 6, 0x2A, sandy_bridge) M(intel, 6, 0x2D, sandy_bridge)
	M(intel, 6, 0x3A, ivy_bridge) M(intel, 6, 0x3E, ivy_bridge)
	M(intel, 6, 0x3C, haswell) M(intel, 6, 0x3F, haswell) M(intel, 6, 0x45, haswell) M(intel, 6, 0x46, haswell)
	M(intel, 6, 0x3D, broadwell) M(intel, 6, 0x47, broadwell) M(intel, 6, 0x4F, broadwell) M(intel, 6, 0x56, broadwell)
	M(intel, 6, 0x4E, sky_lake) M(intel, 6, 0x55, sky_lake) M(intel, 6, 0x5E, sky_lake) M(intel, 6, 0x8E, sky_lake)
	M(intel, 6, 0x9E, sky_lake) M(intel, 6, 0xA5, sky_lake) M(intel, 6, 0xA6, sky_lake)
	M(intel, 6, 0x66, palm_cove)
	M(intel, 6, 0x6A, sunny_cove) M(intel, 6, 0x6C, sunny_cove) M(intel, 6, 0x7D, sunny_cove) M(intel, 6, 0x7E, sunny_cove)
	M(intel, 6, 0x8F, golden_cove) M(intel, 6, 0xCF, raptor_cove) M(intel, 6, 0xAD, redwood_cove)
	M(intel, 6, 0x1C, bonnell) M(intel, 6, 0x26, bonnell)
	M(intel, 6, 0x27, saltwell) M(intel, 6, 0x35, saltwell) M(intel, 6, 0x36, saltwell)
	M(intel, 6, 0x37, silvermont) M(intel, 6, 0x4A, silvermont) M(intel, 6, 0x4D, silvermont) M(intel, 6, 0x5A, silvermont)
	M(intel, 6, 0x5D, silvermont) M(intel, 6, 0x4C, airmont) M(intel, 6, 0x75, airmont)
	M(intel, 6, 0x5C, goldmont) M(intel, 6, 0x5F, goldmont) M(intel, 6, 0x7A, goldmont_plus)
	M(intel, 6, 0x57, knights_landing) M(intel, 6, 0x85, knights_mill)
	R(intel, 15, 0x00, 0x02, willamette) R(intel, 15, 0x03, 0x04, prescott) M(intel, 15, 0x06, prescott)
	R(amd, 0x0F, 0x00, 0xFF, k8) R(amd, 0x11, 0x00, 0xFF, k8) R(amd, 0x10, 0x00, 0xFF, k10) R(amd, 0x12, 0x00, 0xFF, k10)
	R(amd, 0x14, 0x00, 0xFF, bobcat)
	/* listed models first, then the whole row of 16 models */
	M(amd, 0x15, 0x02, piledriver)
	M(amd, 0x15, 0x60, excavator) M(amd, 0x15, 0x65, excavator) M(amd, 0x15, 0x70, excavator)
	R(amd, 0x15, 0x00, 0x0F, bulldozer) R(amd, 0x15, 0x10, 0x2F, piledriver) R(amd, 0x15, 0x30, 0x4F, steamroller)
	R(amd, 0x16, 0x00, 0x2F, jaguar) R(amd, 0x16, 0x30, 0xFF, puma)
	R(amd, 0x17, 0x00, 0x1F, zen) R(amd, 0x17, 0x30, 0x4F, zen2) R(amd, 0x17, 0x60, 0x7F, zen2) R(amd, 0x17, 0x90, 0x9F, zen2)
	R(amd, 0x19, 0x00, 0x0F, zen3) R(amd, 0x19, 0x20, 0x5F, zen3)
	R(amd, 0x19, 0x10, 0x1F, zen4) R(amd, 0x19, 0x60, 0x7F, zen4) R(amd, 0x19, 0xA0, 0xAF, zen4)
	R(amd, 0x1A, 0x00, 0xFF, zen5)
	R(hygon, 0x18, 0x00, 0xFF, dhyana)
};
static uint32_t spec_uarch(void) {
	for (unsigned i = 0; i < sizeof(table) / sizeof(table[0]); i++) {
		if (IN.vendor == table[i].vendor && FAMILY == table[i].family && MODEL >= table[i].first && MODEL <= table[i].last) {
			return table[i].uarch;
		}
	}
	return cpuinfo_uarch_unknown;
}

/* ---- contracts ---- */
#define VENDOR(REQ, ENS, RES) ENS(vendor_is_the_one_whose_string_was_returned, RES == spec_vendor())
#define INFO(REQ, ENS, RES) \
	ENS(stepping, RES.stepping == (IN.eax & 15)) \
	ENS(base_model, RES.base_model == BASE_MODEL) \
	ENS(base_family, RES.base_family == BASE_FAMILY) \
	ENS(type, RES.processor_type == ((IN.eax >> 12) & 3)) \
	ENS(extended_model, RES.extended_model == EXT_MODEL) \
	ENS(extended_family, RES.extended_family == EXT_FAMILY) \
	ENS(family, RES.family == FAMILY) \
	ENS(model, RES.model == MODEL)
#define UARCH(REQ, ENS, RES) ENS(uarch_is_the_listed_one, RES == spec_uarch())

#ifdef UNIT_VENDOR
enum cpuinfo_vendor cpuinfo_x86_decode_vendor(uint32_t ebx, uint32_t ecx, uint32_t edx) VF_CONTRACT(VENDOR) VF_ASSIGNS();
#include <x86/vendor.c>
#endif
#ifdef UNIT_INFO
struct cpuinfo_x86_model_info cpuinfo_x86_decode_model_info(uint32_t eax) VF_CONTRACT(INFO) VF_ASSIGNS();
#include <x86/info.c>
#endif
#ifdef UNIT_UARCH
enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
	enum cpuinfo_vendor vendor,
	const struct cpuinfo_x86_model_info* model_info) VF_CONTRACT(UARCH) VF_ASSIGNS();
#include <x86/uarch.c>
#endif

void harness(void) {
	VF_LOAD();
#ifdef UNIT_VENDOR
	VF_COVER(known, spec_vendor() == cpuinfo_vendor_hygon);
	VF_COVER(unknown, spec_vendor() == cpuinfo_vendor_unknown);
	int r = cpuinfo_x86_decode_vendor(IN.ebx, IN.ecx, IN.edx);
	VF_POST(VENDOR, r);
#endif
#ifdef UNIT_INFO
	struct cpuinfo_x86_model_info r = cpuinfo_x86_decode_model_info(IN.eax);
	VF_POST(INFO, r);
#endif
#ifdef UNIT_UARCH
	VF_COVER(last_row, spec_uarch() == cpuinfo_uarch_dhyana);
	VF_COVER(unknown, spec_uarch() == cpuinfo_uarch_unknown);
	struct cpuinfo_x86_model_info info = {
		.model = MODEL,
		.family = FAMILY,
		.base_model = BASE_MODEL,
		.base_family = BASE_FAMILY,
		.stepping = IN.eax & 15,
		.extended_model = EXT_MODEL,
		.extended_family = EXT_FAMILY,
		.processor_type = (IN.eax >> 12) & 3,
	};
	uint32_t r = cpuinfo_x86_decode_uarch((enum cpuinfo_vendor)IN.vendor, &info);
	VF_POST(UARCH, r);
#endif
	VF_REACH(end);
}
