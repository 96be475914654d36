From b338fa369c7710dcca95e174db3b760f96809c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:15 +0000
Subject: [PATCH 01/35] fix: read CPUID leaf 0x24 only when the processor
 declares it

The AVX10 version leaf was read whenever leaf 7 existed. A leaf above the
reported maximum returns unrelated data, so avx10_2 could be set wrongly.
---
 src/x86/isa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index 222bd23..c6ab41c 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -47,7 +47,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	const struct cpuid_regs structured_feature_info1 =
 		(max_base_index >= 7) ? cpuidex(7, 1) : (struct cpuid_regs){0, 0, 0, 0};
 	const struct cpuid_regs structured_feature_info2 =
-		(max_base_index >= 7) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
+		(max_base_index >= 0x24) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
 
 	const uint32_t processor_capacity_info_index = UINT32_C(0x80000008);
 	const struct cpuid_regs processor_capacity_info = (max_extended_index >= processor_capacity_info_index)
-- 
2.43.0


From 491137bebef86c9eaf672b4d95a04682b59bc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:15 +0000
Subject: [PATCH 02/35] fix: report AMX only when the OS enables the tile
 registers

AMX flags were gated by AVX-512 register state. AMX instructions need
XCR0 bits 17 and 18 (TILECFG and TILEDATA).
---
 src/x86/isa.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index c6ab41c..d0f233c 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -54,7 +54,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		? cpuid(processor_capacity_info_index)
 		: (struct cpuid_regs){0, 0, 0, 0};
 
-	bool avx_regs = false, avx512_regs = false, mpx_regs = false;
+	bool avx_regs = false, avx512_regs = false, mpx_regs = false, amx_regs = false;
 	/*
 	 * OSXSAVE: Operating system enabled XSAVE instructions for application
 	 * use:
@@ -112,6 +112,16 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		if ((xcr0_valid_bits & mpx_regs_mask) == mpx_regs_mask) {
 			mpx_regs = (xfeature_enabled_mask & mpx_regs_mask) == mpx_regs_mask;
 		}
+
+		/*
+		 * AMX registers:
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 17] for TILECFG
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 18] for TILEDATA
+		 */
+		const uint64_t amx_regs_mask = UINT64_C(0x0000000000060000);
+		if ((xcr0_valid_bits & amx_regs_mask) == amx_regs_mask) {
+			amx_regs = (xfeature_enabled_mask & amx_regs_mask) == amx_regs_mask;
+		}
 	}
 
 #if CPUINFO_ARCH_X86
@@ -555,25 +565,25 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * AMX_BF16 instructions:
 	 * - Intel: edx[bit 22] in structured feature info (ecx = 0).
 	 */
-	isa.amx_bf16 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
+	isa.amx_bf16 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
 
 	/*
 	 * AMX_TILE instructions:
 	 * - Intel: edx[bit 24] in structured feature info (ecx = 0).
 	 */
-	isa.amx_tile = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
+	isa.amx_tile = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
 
 	/*
 	 * AMX_INT8 instructions:
 	 * - Intel: edx[bit 25] in structured feature info (ecx = 0).
 	 */
-	isa.amx_int8 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
+	isa.amx_int8 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
 
 	/*
 	 * AMX_FP16 instructions:
 	 * - Intel: eax[bit 21] in structured feature info (ecx = 1).
 	 */
-	isa.amx_fp16 = avx512_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
+	isa.amx_fp16 = amx_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
 
 	/*
 	 * AVX_VNNI_INT8 instructions:
-- 
2.43.0


From da88da2c855bbc8a23e0d0e8c76222277bde3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:15 +0000
Subject: [PATCH 03/35] fix: report VAES and VPCLMULQDQ only when the OS
 enables AVX registers

Both instruction groups are VEX/EVEX encoded and fault without enabled ymm
state, like the other AVX extensions that are already gated.
---
 src/x86/isa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index d0f233c..b23279d 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -723,7 +723,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VAES instructions:
 	 * - Intel: ecx[bit 9] in structured feature info (ecx = 0).
 	 */
-	isa.vaes = !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
+	isa.vaes = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
 
 	/*
 	 * PCLMULQDQ instruction:
@@ -735,7 +735,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VPCLMULQDQ instruction:
 	 * - Intel: ecx[bit 10] in structured feature info (ecx = 0).
 	 */
-	isa.vpclmulqdq = !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
+	isa.vpclmulqdq = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
 
 	/*
 	 * GFNI instructions:
-- 
2.43.0


From 64bee01a3b33c3eabe68f03cb43390d9e094cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:19 +0000
Subject: [PATCH 04/35] fix: identify Sapphire, Emerald and Granite Rapids
 cores

These documented Intel server models were reported with an unknown
microarchitecture, so the core known_uarch test failed on such machines.
---
 include/cpuinfo.h | 6 ++++++
 src/x86/uarch.c   | 6 ++++++
 tools/cpu-info.c  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/cpuinfo.h b/include/cpuinfo.h
index 5f93819..9d67492 100644
--- a/include/cpuinfo.h
+++ b/include/cpuinfo.h
@@ -353,6 +353,12 @@ enum cpuinfo_uarch {
 	cpuinfo_uarch_palm_cove = 0x0010020B,
 	/** Intel Sunny Cove microarchitecture (10 nm, Ice Lake). */
 	cpuinfo_uarch_sunny_cove = 0x0010020C,
+	/** Intel Golden Cove microarchitecture (Sapphire Rapids). */
+	cpuinfo_uarch_golden_cove = 0x0010020E,
+	/** Intel Raptor Cove microarchitecture (Emerald Rapids). */
+	cpuinfo_uarch_raptor_cove = 0x0010020F,
+	/** Intel Redwood Cove microarchitecture (Granite Rapids). */
+	cpuinfo_uarch_redwood_cove = 0x00100210,
 
 	/** Pentium 4 with Willamette, Northwood, or Foster cores. */
 	cpuinfo_uarch_willamette = 0x00100300,
diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index a21eabb..114e5c5 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -167,6 +167,12 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 						case 0x7D: // Ice Lake-Y
 						case 0x7E: // Ice Lake-U
 							return cpuinfo_uarch_sunny_cove;
+						case 0x8F: // Sapphire Rapids
+							return cpuinfo_uarch_golden_cove;
+						case 0xCF: // Emerald Rapids
+							return cpuinfo_uarch_raptor_cove;
+						case 0xAD: // Granite Rapids
+							return cpuinfo_uarch_redwood_cove;
 
 						/* Low-power cores */
 						case 0x1C: // Diamondville,
diff --git a/tools/cpu-info.c b/tools/cpu-info.c
index ca3ebfa..94c8a74 100644
--- a/tools/cpu-info.c
+++ b/tools/cpu-info.c
@@ -80,6 +80,12 @@ static const char* uarch_to_string(enum cpuinfo_uarch uarch) {
 			return "Palm Cove";
 		case cpuinfo_uarch_sunny_cove:
 			return "Sunny Cove";
+		case cpuinfo_uarch_golden_cove:
+			return "Golden Cove";
+		case cpuinfo_uarch_raptor_cove:
+			return "Raptor Cove";
+		case cpuinfo_uarch_redwood_cove:
+			return "Redwood Cove";
 		case cpuinfo_uarch_willamette:
 			return "Willamette";
 		case cpuinfo_uarch_prescott:
-- 
2.43.0


From 6f5ab7d5223b9e71a6c608780bdecbc6c77f64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:33 +0000
Subject: [PATCH 05/35] fix: identify Hygon Dhyana by its family number

Dhyana reports base family 0xF and extended family 9, that is family 0x18.
The table listed family 0, which no Hygon processor reports.
---
 src/x86/uarch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index 114e5c5..650a314 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -399,7 +399,7 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 			break;
 		case cpuinfo_vendor_hygon:
 			switch (model_info->family) {
-				case 0x00:
+				case 0x18:
 					return cpuinfo_uarch_dhyana;
 			}
 			break;
-- 
2.43.0


From 66dfbbfdd025ae5ec015a6b301e2166509af895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:00 +0000
Subject: [PATCH 06/35] fix: report descriptor 0x82 as the 8-way L2 cache it is
 documented to be

---
 src/x86/cache/descriptor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 93d855a..2194b31 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1255,8 +1255,8 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 */
 			cache->l2 = (struct cpuinfo_x86_cache){
 				.size = 256 * 1024,
-				.associativity = 4,
-				.sets = 2048,
+				.associativity = 8,
+				.sets = 1024,
 				.partitions = 1,
 				.line_size = 32,
 				.flags = CPUINFO_CACHE_INCLUSIVE,
-- 
2.43.0


From 147164ca286e4d274a54acf5482c4d07bc912bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:00 +0000
Subject: [PATCH 07/35] fix: correct the size typo in cache descriptor 0xD2

---
 src/x86/cache/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 2194b31..9caa7f4 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1593,7 +1593,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * size"
 			 */
 			cache->l3 = (struct cpuinfo_x86_cache){
-				.size = 2 * 1024 * 2014,
+				.size = 2 * 1024 * 1024,
 				.associativity = 4,
 				.sets = 8192,
 				.partitions = 1,
-- 
2.43.0


From 535ea86e4f3b6f0e95cb77d28821dc348f0f673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:00 +0000
Subject: [PATCH 08/35] fix: store data TLB descriptors 0xBA and 0xC0 as data
 TLBs

---
 src/x86/cache/descriptor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 9caa7f4..bf227dc 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1462,7 +1462,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * entries" Application Note 485: "Data TLB: 4-KB Pages,
 			 * 4-way set associative, 64 entries"
 			 */
-			*itlb_4KB = (struct cpuinfo_tlb){
+			*dtlb_4KB = (struct cpuinfo_tlb){
 				.entries = 64,
 				.associativity = 4,
 				.pages = CPUINFO_PAGE_SIZE_4KB,
@@ -1476,7 +1476,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * TLB: 4-KB or 4-MB Pages, 4-way set associative, 8
 			 * entries"
 			 */
-			*itlb_4KB = *itlb_4MB = (struct cpuinfo_tlb){
+			*dtlb_4KB = *dtlb_4MB = (struct cpuinfo_tlb){
 				.entries = 8,
 				.associativity = 4,
 				.pages = CPUINFO_PAGE_SIZE_4KB | CPUINFO_PAGE_SIZE_4MB,
-- 
2.43.0


From f0eaff77fa3282cd6bb0acd832469ae3f018926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:47 +0000
Subject: [PATCH 09/35] fix: do not underflow the thread field when leaf 1
 lists fewer processors than leaf 4 lists cores

---
 src/x86/topology.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 5253089..eac3af7 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -78,8 +78,11 @@ void cpuinfo_x86_detect_topology(
 			const uint32_t logical_processors = (leaf1.ebx >> 16) & UINT32_C(0x000000FF);
 			if (logical_processors != 0) {
 				const uint32_t log2_max_logical_processors = bit_length(logical_processors);
+				/* Hypervisors may report fewer logical processors than cores */
 				const uint32_t log2_max_threads_per_core =
-					log2_max_logical_processors - topology->core_bits_length;
+					log2_max_logical_processors > topology->core_bits_length
+					? log2_max_logical_processors - topology->core_bits_length
+					: 0;
 				topology->core_bits_offset = log2_max_threads_per_core;
 				topology->thread_bits_length = log2_max_threads_per_core;
 			}
-- 
2.43.0


From 09af135a99632563131e69e377d2d18435820080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:47 +0000
Subject: [PATCH 10/35] fix: treat x2APIC level shifts as cumulative

---
 src/x86/topology.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index eac3af7..c1f222d 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -107,7 +107,14 @@ void cpuinfo_x86_detect_topology(
 		do {
 			const struct cpuid_regs leafB = cpuidex(UINT32_C(0xB), level);
 			type = (leafB.ecx >> 8) & UINT32_C(0x000000FF);
-			const uint32_t level_shift = leafB.eax & UINT32_C(0x0000001F);
+			/*
+			 * Number of x2APIC ID bits below the next level: it includes
+			 * the bits of all lower levels.
+			 * - Intel: eax[bits 0-4] in leaf 0xB.
+			 */
+			const uint32_t next_level_shift = leafB.eax & UINT32_C(0x0000001F);
+			const uint32_t level_shift =
+				next_level_shift > total_shift ? next_level_shift - total_shift : 0;
 			const uint32_t x2apic_id = leafB.edx;
 			apic_id = x2apic_id;
 			switch (type) {
-- 
2.43.0


From 09deb760edfcda5885c3dbbdc98508b3a95a61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:20 +0000
Subject: [PATCH 11/35] fix: never report a maximum cache size below the
 detected size on ARM

ThunderX (16 MB L2) and TaiShan v110 (1 MB of L3 per core) fell into the
default case, which reported 4 MB.
---
 src/arm/cache.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/arm/cache.c b/src/arm/cache.c
index 97740c4..3abf69f 100644
--- a/src/arm/cache.c
+++ b/src/arm/cache.c
@@ -1650,12 +1650,7 @@ void cpuinfo_arm_decode_cache(
 	}
 }
 
-uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* processor) {
-	/*
-	 * There is no precise way to detect cache size on ARM/ARM64, and cache
-	 * size reported by cpuinfo may underestimate the actual cache size.
-	 * Thus, we use microarchitecture-specific maximum.
-	 */
+static uint32_t compute_worst_case_cache_size(const struct cpuinfo_processor* processor) {
 	switch (processor->core->uarch) {
 		case cpuinfo_uarch_xscale:
 		case cpuinfo_uarch_arm11:
@@ -1784,3 +1779,15 @@ uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* proc
 			return 4 * 1024 * 1024;
 	}
 }
+
+uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* processor) {
+	/*
+	 * There is no precise way to detect cache size on ARM/ARM64, and cache
+	 * size reported by cpuinfo may underestimate the actual cache size.
+	 * Thus, we use microarchitecture-specific maximum, unless
+	 * the detected size is even larger (e.g. ThunderX, TaiShan v110).
+	 */
+	const uint32_t detected_size = cpuinfo_compute_max_cache_size(processor);
+	const uint32_t worst_case_size = compute_worst_case_cache_size(processor);
+	return detected_size > worst_case_size ? detected_size : worst_case_size;
+}
-- 
2.43.0


From dcb51fe319f39e724ef21e6bdf47455640694a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:28 +0000
Subject: [PATCH 12/35] fix: pair Kryo 280 Gold cores with Kryo 280 Silver

The table constant includes variant and revision bits, which are masked
out of the value it is compared with, so the entry never matched.
---
 src/arm/midr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/midr.h b/src/arm/midr.h
index 5530d5a..0dc50b3 100644
--- a/src/arm/midr.h
+++ b/src/arm/midr.h
@@ -261,7 +261,7 @@ inline static uint32_t midr_little_core_for_big(uint32_t midr) {
 		case CPUINFO_ARM_MIDR_CORTEX_A17:
 		case CPUINFO_ARM_MIDR_CORTEX_A15:
 			return CPUINFO_ARM_MIDR_CORTEX_A7;
-		case CPUINFO_ARM_MIDR_KRYO280_GOLD:
+		case CPUINFO_ARM_MIDR_KRYO280_GOLD & ~(CPUINFO_ARM_MIDR_VARIANT_MASK | CPUINFO_ARM_MIDR_REVISION_MASK):
 			return CPUINFO_ARM_MIDR_KRYO280_SILVER;
 		case CPUINFO_ARM_MIDR_KRYO_GOLD:
 			return CPUINFO_ARM_MIDR_KRYO_SILVER_820;
-- 
2.43.0


From 156e790e1551a5155606b1cdda69b805804e3e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:57 +0000
Subject: [PATCH 13/35] fix: keep the last character of log messages that
 exactly fill the stack buffer

The newline replaces the terminator written by vsnprintf, so the space reserved for it must be available to vsnprintf.
---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 2f85128..873ab51 100644
--- a/src/log.c
+++ b/src/log.c
@@ -67,7 +67,7 @@ static void cpuinfo_vlog(
 
 	const int format_chars = vsnprintf(
 		&stack_buffer[prefix_length],
-		CPUINFO_LOG_STACK_BUFFER_SIZE - (prefix_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char),
+		CPUINFO_LOG_STACK_BUFFER_SIZE - prefix_length * sizeof(char),
 		format,
 		args);
 	if (format_chars < 0) {
-- 
2.43.0


From 0fdcdd0c4c38bf087f61761951c8f9da9229d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:57 +0000
Subject: [PATCH 14/35] fix: keep the last character of clog messages that
 exactly fill the stack buffer

The newline replaces the terminator written by vsnprintf, so the space reserved for it must be available to vsnprintf.
---
 deps/clog/src/clog.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 27658f9..3a6eab7 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -79,7 +79,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -157,7 +157,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -235,7 +235,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -313,7 +313,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -391,7 +391,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
-- 
2.43.0


From abc4322668d93b854b55ecf2c5e6a2d64f13438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:57 +0000
Subject: [PATCH 15/35] fix: keep the last character of clog prefixes exactly
 as long as the stack buffer

snprintf truncates such a prefix by one character to store its terminator, so it must be formatted again on the heap.
---
 deps/clog/src/clog.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 3a6eab7..1b36f6b 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -94,7 +94,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_FATAL_PREFIX_FORMAT, module);
 			} else {
@@ -172,7 +172,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_ERROR_PREFIX_FORMAT, module);
 			} else {
@@ -250,7 +250,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_WARNING_PREFIX_FORMAT, module);
 			} else {
@@ -328,7 +328,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_INFO_PREFIX_FORMAT, module);
 			} else {
@@ -406,7 +406,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_DEBUG_PREFIX_FORMAT, module);
 			} else {
-- 
2.43.0


From 134ace07c909d7227008d8fa0ea939cae7075cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:45 +0000
Subject: [PATCH 16/35] fix: do not mistake an over-long line for the end of
 file

A line which fills the whole buffer left no room for the next read.
The read of zero bytes was taken for the end of the file, a truncated line
was passed to the callback, and all following lines were silently dropped.
Skip such a line with a warning and continue with the next one.
---
 src/linux/multiline.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/linux/multiline.c b/src/linux/multiline.c
index 00f4583..6f1ecb5 100644
--- a/src/linux/multiline.c
+++ b/src/linux/multiline.c
@@ -1,5 +1,6 @@
 #include <alloca.h>
 #include <errno.h>
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -40,6 +41,8 @@ bool cpuinfo_linux_parse_multiline_file(
 	uint64_t line_number = 1;
 	const char* buffer_end = &buffer[buffer_size];
 	char* data_start = buffer;
+	/* Inside a line which doesn't fit into the buffer */
+	bool skip_line = false;
 	ssize_t bytes_read;
 	do {
 #if CPUINFO_MOCK
@@ -61,7 +64,7 @@ bool cpuinfo_linux_parse_multiline_file(
 			/* No more data in the file: process the remaining text
 			 * in the buffer as a single entry */
 			const char* line_end = data_end;
-			if (!callback(line_start, line_end, context, line_number)) {
+			if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 				goto cleanup;
 			}
 		} else {
@@ -82,7 +85,10 @@ bool cpuinfo_linux_parse_multiline_file(
 				 * data at the end; read the file once again.
 				 */
 				if (line_end != data_end) {
-					if (!callback(line_start, line_end, context, line_number++)) {
+					if (skip_line) {
+						skip_line = false;
+						line_number++;
+					} else if (!callback(line_start, line_end, context, line_number++)) {
 						goto cleanup;
 					}
 					line_start = line_end + 1;
@@ -94,6 +100,16 @@ bool cpuinfo_linux_parse_multiline_file(
 			const size_t line_length = (size_t)(line_end - line_start);
 			memmove(buffer, line_start, line_length);
 			data_start = &buffer[line_length];
+			if (data_start == buffer_end) {
+				/* The line doesn't fit into the buffer: skip it rather than mistake it for the end of file */
+				cpuinfo_log_warning(
+					"line %" PRIu64 " in file %s is longer than %zu characters and is ignored",
+					line_number,
+					filename,
+					buffer_size - 1);
+				skip_line = true;
+				data_start = buffer;
+			}
 		}
 	} while (bytes_read != 0);
 
-- 
2.43.0


From ae7f36225ac72fe67113c596a898fb36f55efe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:36 +0000
Subject: [PATCH 17/35] fix: do not print a character past the end of a cpu
 list entry

When the last number of a range is missing the warning printed the
character after the entry, which may be uninitialized memory at the
end of the file.
---
 src/linux/cpulist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/linux/cpulist.c b/src/linux/cpulist.c
index f6c4c29..78217aa 100644
--- a/src/linux/cpulist.c
+++ b/src/linux/cpulist.c
@@ -115,8 +115,7 @@ inline static bool parse_entry(
 	if (number_end == number_start) {
 		/* Failed to parse the second number; ignore the entry */
 		cpuinfo_log_warning(
-			"invalid character '%c' in the cpu list entry \"%.*s\": entry is ignored",
-			*number_start,
+			"invalid last cpu number in the cpu list entry \"%.*s\": entry is ignored",
 			(int)entry_length,
 			entry_start);
 		return false;
-- 
2.43.0


From 51d032e4e3b3d1f0f73a207566eb1d49b17355fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:36 +0000
Subject: [PATCH 18/35] fix: do not mistake an over-long cpu list entry for the
 end of file

An entry which fills the whole buffer left no room for the next read.
The read of zero bytes was taken for the end of the file, a truncated
entry was parsed, and the rest of the list was silently dropped while
the list was reported as successfully parsed.
---
 src/linux/cpulist.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linux/cpulist.c b/src/linux/cpulist.c
index 78217aa..cc79020 100644
--- a/src/linux/cpulist.c
+++ b/src/linux/cpulist.c
@@ -225,6 +225,12 @@ bool cpuinfo_linux_parse_cpulist(const char* filename, cpuinfo_cpulist_callback
 			const size_t entry_length = (size_t)(entry_end - entry_start);
 			memmove(buffer, entry_start, entry_length);
 			data_start = &buffer[entry_length];
+			if (data_start == buffer_end) {
+				/* No room to read the rest of the entry: don't mistake it for the end of file */
+				cpuinfo_log_warning("cpu list entry in file %s is too long", filename);
+				status = false;
+				goto cleanup;
+			}
 		}
 	} while (bytes_read != 0);
 
-- 
2.43.0


From 05bb8405fddeab52fb2cb5e6a26a078b5a984d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:40 +0000
Subject: [PATCH 19/35] fix: do not accept ':' as a digit of a processor number
 in /proc/cpuinfo

---
 src/arm/linux/cpuinfo.c | 2 +-
 src/x86/linux/cpuinfo.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 081d9aa..e915a8a 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -26,7 +26,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index 8f038b0..f5c42a2 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -25,7 +25,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
-- 
2.43.0


From 962d4a9249ab390f42eb7e911a7f3b7f22388035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:29 +0000
Subject: [PATCH 20/35] fix: do not write past hardware and revision buffers

A Hardware or Revision value in /proc/cpuinfo which exactly fills its buffer
got its terminating null character written one byte past the end.
---
 src/arm/linux/cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index e915a8a..2aaf9dc 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -879,7 +879,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_HARDWARE_VALUE_MAX);
 					value_length = CPUINFO_HARDWARE_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_HARDWARE_VALUE_MAX) {
 					state->hardware[value_length] = '\0';
 				}
 				memcpy(state->hardware, value_start, value_length);
@@ -894,7 +894,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_REVISION_VALUE_MAX);
 					value_length = CPUINFO_REVISION_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_REVISION_VALUE_MAX) {
 					state->revision[value_length] = '\0';
 				}
 				memcpy(state->revision, value_start, value_length);
-- 
2.43.0


From 70b9372da58604e075466ee0993f53857563de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:29 +0000
Subject: [PATCH 21/35] fix: initialize the revision string when /proc/cpuinfo
 has no Revision line

---
 src/arm/linux/cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 2aaf9dc..20846ff 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -1011,6 +1011,7 @@ bool cpuinfo_arm_linux_parse_proc_cpuinfo(
 	uint32_t max_processors_count,
 	struct cpuinfo_arm_linux_processor processors[restrict static max_processors_count]) {
 	hardware[0] = '\0';
+	revision[0] = '\0';
 	struct proc_cpuinfo_parser_state state = {
 		.hardware = hardware,
 		.revision = revision,
-- 
2.43.0


From a61a305c2d0821a27716f6177b4d874714361019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:29 +0000
Subject: [PATCH 22/35] fix: ignore invalid cache numbers in /proc/cpuinfo as
 the warnings say

Zero cache parameters and impossible cache line sizes were reported as
ignored in the log, but still stored and flagged as valid.
---
 src/arm/linux/cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 20846ff..0b6dbe4 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -669,6 +669,7 @@ static void parse_cache_number(
 			number_name,
 			(int)(number_end - number_start),
 			number_start);
+		return;
 	}
 
 	/* If the number specifies a cache line size, verify that is a
@@ -686,6 +687,7 @@ static void parse_cache_number(
 					number_name,
 					(int)(number_end - number_start),
 					number_start);
+				return;
 		}
 	}
 
-- 
2.43.0


From 2b79c52278315d3c9ec33806019a06e3be2c3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:36 +0000
Subject: [PATCH 23/35] fix: free the processor table when /proc/cpuinfo cannot
 be read on x86 Linux

---
 src/x86/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index d2b2d47..688bb2e 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -207,7 +207,7 @@ void cpuinfo_x86_linux_init(void) {
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
-- 
2.43.0


From 13b4199a8294530a8e3300679cfe724fa2d8413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:36 +0000
Subject: [PATCH 24/35] fix: fail x86 Linux initialization when no processor is
 usable

---
 src/x86/linux/init.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 688bb2e..2409aee 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -229,6 +229,10 @@ void cpuinfo_x86_linux_init(void) {
 			processors_count++;
 		}
 	}
+	if (processors_count == 0) {
+		cpuinfo_log_error("failed to detect any usable logical processors");
+		goto cleanup;
+	}
 
 	qsort(x86_linux_processors,
 	      x86_linux_processors_count,
-- 
2.43.0


From 258e585efba71001deb37b61f643f327eaa7433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:55 +0000
Subject: [PATCH 25/35] fix: keep threads of a core in one cluster on x86 Linux
 when cache sharing is unknown

---
 src/x86/linux/init.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 2409aee..df6aace 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -62,7 +62,8 @@ static void cpuinfo_x86_count_objects(
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(processor->topology.core_bits_length) << processor->topology.core_bits_offset);
 	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
-	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
+	/* Threads of a core are in the same cluster even if the LLC is not known to be shared */
+	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);
 
 	uint32_t cores_count = 0, clusters_count = 0, packages_count = 0;
 	uint32_t l1i_count = 0, l1d_count = 0, l2_count = 0, l3_count = 0, l4_count = 0;
@@ -385,7 +386,8 @@ void cpuinfo_x86_linux_init(void) {
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(x86_processor.topology.core_bits_length) << x86_processor.topology.core_bits_offset);
 	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
-	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
+	/* Threads of a core are in the same cluster even if the LLC is not known to be shared */
+	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);
 
 	uint32_t processor_index = UINT32_MAX, core_index = UINT32_MAX, cluster_index = UINT32_MAX,
 		 package_index = UINT32_MAX;
-- 
2.43.0


From 812e0bba2cbcbf56005aed46df4108b5c0d73a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 26/35] fix: free the processor table when /proc/cpuinfo cannot
 be read on ARM Linux

---
 src/arm/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1eab69d..daed986 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -185,7 +185,7 @@ void cpuinfo_arm_linux_init(void) {
 		    arm_linux_processors_count,
 		    arm_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
-- 
2.43.0


From dd0d554d566f0b01bf071f668ec713d9ee5f1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:29 +0000
Subject: [PATCH 27/35] fix: count ARM processors not listed in /proc/cpuinfo

Present processors missing in /proc/cpuinfo, e.g. because they are offline,
take part in cluster and core type detection and in sorting, but were left out
of the processor count. The tables were too short for them, and an offline
processor sorted first took the place of an online one.
---
 src/arm/linux/init.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index daed986..cc92567 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -203,14 +203,9 @@ void cpuinfo_arm_linux_init(void) {
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		arm_linux_processors[i].system_processor_id = i;
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
-				/*
-				 * Processor is in possible and present lists,
-				 * and also reported in /proc/cpuinfo. This
-				 * processor is availble for compute.
-				 */
-				valid_processors += 1;
-			} else {
+			valid_processors += 1;
+
+			if (!(arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {
 				/*
 				 * Processor is in possible and present lists,
 				 * but not reported in /proc/cpuinfo. This is
-- 
2.43.0


From c8abf372efb768093d860e5cf4e1dd43017598b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 28/35] fix: fail ARM Linux initialization when no processor is
 usable

---
 src/arm/linux/init.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index cc92567..2973ef5 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -232,6 +232,10 @@ void cpuinfo_arm_linux_init(void) {
 			}
 		}
 	}
+	if (valid_processors == 0) {
+		cpuinfo_log_error("no usable logical processors found");
+		goto cleanup;
+	}
 
 #if defined(__ANDROID__)
 	const struct cpuinfo_arm_chipset chipset =
-- 
2.43.0


From 205f2dce88c7e7da61625b480f378d5d92a13972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 29/35] fix: keep the processor of L1 caches reported in
 /proc/cpuinfo on ARM Linux

---
 src/arm/linux/init.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 2973ef5..25aa3b7 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -679,7 +679,9 @@ void cpuinfo_arm_linux_init(void) {
 				.associativity = arm_linux_processors[i].proc_cpuinfo_cache.i_assoc,
 				.sets = arm_linux_processors[i].proc_cpuinfo_cache.i_sets,
 				.partitions = 1,
-				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.i_line_length};
+				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.i_line_length,
+				.processor_start = i,
+				.processor_count = 1};
 		}
 		/* L1D reported in /proc/cpuinfo overrides defaults */
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_DCACHE)) {
@@ -688,7 +690,9 @@ void cpuinfo_arm_linux_init(void) {
 				.associativity = arm_linux_processors[i].proc_cpuinfo_cache.d_assoc,
 				.sets = arm_linux_processors[i].proc_cpuinfo_cache.d_sets,
 				.partitions = 1,
-				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length};
+				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length,
+				.processor_start = i,
+				.processor_count = 1};
 		}
 #endif
 
-- 
2.43.0


From 4263e3761629db025d96b2584e93455423cb7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 30/35] fix: give every ARM cluster with a separate L3 cache
 its L3 record

When clusters had different L3 sizes, only clusters whose size differed from
that of the first one were counted, so the last clusters got no L3 cache.
---
 src/arm/linux/init.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 25aa3b7..796cb40 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -709,10 +709,12 @@ void cpuinfo_arm_linux_init(void) {
 				if (cluster_id == 0) {
 					big_l3_size = temp_l3.size;
 					l3_count = 1;
-				} else if (temp_l3.size != big_l3_size) {
+				} else {
 					/* If some cores have different L3 size,
 					 * L3 is not shared between all cores */
-					shared_l3 = false;
+					if (temp_l3.size != big_l3_size) {
+						shared_l3 = false;
+					}
 					l3_count += 1;
 				}
 			}
@@ -732,6 +734,10 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (shared_l3) {
+		l3_count = min(l3_count, 1);
+	}
+
 	if (l2_count != 0) {
 		l2 = calloc(l2_count, sizeof(struct cpuinfo_cache));
 		if (l2 == NULL) {
-- 
2.43.0


From dd6acd6321600ff6bea7f795ebc6281da147a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:49 +0000
Subject: [PATCH 31/35] fix: point RISC-V processors to their own core, cluster
 and package

Every processor was attached to the last core, cluster and package created so
far. That is wrong when the processors of a core, cluster or package do not
follow each other, e.g. core_cpus_list "0,2" and "1,3". When processor 0 was
not sorted first, the element before the start of the table was used.
---
 src/riscv/linux/init.c | 75 +++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 9ab3d6e..1b7016a 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -13,13 +13,31 @@ static inline bool bitmask_all(uint32_t flags, uint32_t mask) {
 	return (flags & mask) == mask;
 }
 
-static int compare_riscv_linux_processors(const void* a, const void* b) {
+static inline int cmp(uint32_t a, uint32_t b) {
+	return (a > b) - (a < b);
+}
+
+static int compare_riscv_linux_processors(const void* ptr_a, const void* ptr_b) {
+	const struct cpuinfo_riscv_linux_processor* a = (const struct cpuinfo_riscv_linux_processor*)ptr_a;
+	const struct cpuinfo_riscv_linux_processor* b = (const struct cpuinfo_riscv_linux_processor*)ptr_b;
+
 	/**
-	 * For our purposes, it is only relevant that the list is sorted by
-	 * micro-architecture, so the nature of ordering is irrelevant.
+	 * Sort by micro-architecture, and keep the processors of a package,
+	 * cluster and core together, starting with their leader.
 	 */
-	return ((const struct cpuinfo_riscv_linux_processor*)a)->core.uarch -
-		((const struct cpuinfo_riscv_linux_processor*)b)->core.uarch;
+	if (a->core.uarch != b->core.uarch) {
+		return cmp(a->core.uarch, b->core.uarch);
+	}
+	if (a->package_leader_id != b->package_leader_id) {
+		return cmp(a->package_leader_id, b->package_leader_id);
+	}
+	if (a->cluster_leader_id != b->cluster_leader_id) {
+		return cmp(a->cluster_leader_id, b->cluster_leader_id);
+	}
+	if (a->core_leader_id != b->core_leader_id) {
+		return cmp(a->core_leader_id, b->core_leader_id);
+	}
+	return cmp(a->processor.linux_id, b->processor.linux_id);
 }
 
 /**
@@ -539,6 +557,7 @@ void cpuinfo_riscv_linux_init(void) {
 
 		/* Copy cpuinfo_core information, if this is the leader. */
 		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
+			processors[valid_processors_index - 1].core = &cores[valid_cores_index];
 			memcpy(&cores[valid_cores_index++],
 			       &riscv_linux_processors[processor].core,
 			       sizeof(struct cpuinfo_core));
@@ -548,6 +567,7 @@ void cpuinfo_riscv_linux_init(void) {
 
 		/* Copy cpuinfo_cluster information, if this is the leader. */
 		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
+			processors[valid_processors_index - 1].cluster = &clusters[valid_clusters_index];
 			memcpy(&clusters[valid_clusters_index++],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
@@ -555,24 +575,49 @@ void cpuinfo_riscv_linux_init(void) {
 
 		/* Copy cpuinfo_package information, if this is the leader. */
 		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
+			processors[valid_processors_index - 1].package = &packages[valid_packages_index];
 			memcpy(&packages[valid_packages_index++],
 			       &riscv_linux_processors[processor].package,
 			       sizeof(struct cpuinfo_package));
 		}
 
-		/* Commit pointers on the final structures. */
-		processors[valid_processors_index - 1].core = &cores[valid_cores_index - 1];
-		processors[valid_processors_index - 1].cluster = &clusters[valid_clusters_index - 1];
-		processors[valid_processors_index - 1].package = &packages[valid_packages_index - 1];
+		linux_cpu_to_processor_map[linux_id] = &processors[valid_processors_index - 1];
+		linux_cpu_to_uarch_index_map[linux_id] = valid_uarchs_index - 1;
+	}
+
+	/**
+	 * Commit pointers on the final structures. Leaders point to their
+	 * structures already, other processors use those of their leaders.
+	 */
+	valid_processors_index = 0;
+	valid_cores_index = 0;
+	valid_clusters_index = 0;
+	for (size_t processor = 0; processor < max_processor_id; processor++) {
+		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
+			continue;
+		}
+
+		const uint32_t core_leader_id = riscv_linux_processors[processor].core_leader_id;
+		const uint32_t cluster_leader_id = riscv_linux_processors[processor].cluster_leader_id;
+		const uint32_t package_leader_id = riscv_linux_processors[processor].package_leader_id;
+		const uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
 
-		cores[valid_cores_index - 1].cluster = &clusters[valid_clusters_index - 1];
-		cores[valid_cores_index - 1].package = &packages[valid_packages_index - 1];
+		struct cpuinfo_processor* current = &processors[valid_processors_index++];
+		current->core = linux_cpu_to_processor_map[core_leader_id]->core;
+		current->cluster = linux_cpu_to_processor_map[cluster_leader_id]->cluster;
+		current->package = linux_cpu_to_processor_map[package_leader_id]->package;
 
-		clusters[valid_clusters_index - 1].package = &packages[valid_packages_index - 1];
+		if (core_leader_id == linux_id) {
+			cores[valid_cores_index].cluster = current->cluster;
+			cores[valid_cores_index].package = current->package;
+			valid_cores_index++;
+		}
+		if (cluster_leader_id == linux_id) {
+			clusters[valid_clusters_index].package = current->package;
+			valid_clusters_index++;
+		}
 
-		linux_cpu_to_processor_map[linux_id] = &processors[valid_processors_index - 1];
-		linux_cpu_to_core_map[linux_id] = &cores[valid_cores_index - 1];
-		linux_cpu_to_uarch_index_map[linux_id] = valid_uarchs_index - 1;
+		linux_cpu_to_core_map[linux_id] = current->core;
 	}
 
 	/* Commit */
-- 
2.43.0


From b98b2291addb3fe8edce2b017e93641533d44f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:49 +0000
Subject: [PATCH 32/35] fix: report RISC-V ranges as indices of the published
 tables

The start of processor, core and cluster ranges was the Linux number of the
first processor. It is documented as an index, and differs from the number when
processors are absent, share a core, or are reordered by microarchitecture.
---
 src/riscv/linux/init.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 1b7016a..3c71997 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -13,6 +13,10 @@ static inline bool bitmask_all(uint32_t flags, uint32_t mask) {
 	return (flags & mask) == mask;
 }
 
+static inline uint32_t min(uint32_t a, uint32_t b) {
+	return a < b ? a : b;
+}
+
 static inline int cmp(uint32_t a, uint32_t b) {
 	return (a > b) - (a < b);
 }
@@ -561,6 +565,7 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&cores[valid_cores_index++],
 			       &riscv_linux_processors[processor].core,
 			       sizeof(struct cpuinfo_core));
+			cores[valid_cores_index - 1].processor_start = valid_processors_index - 1;
 			/* Update uarch core count. */
 			uarchs[valid_uarchs_index - 1].core_count++;
 		}
@@ -571,6 +576,8 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&clusters[valid_clusters_index++],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
+			clusters[valid_clusters_index - 1].processor_start = valid_processors_index - 1;
+			clusters[valid_clusters_index - 1].core_start = valid_cores_index - 1;
 		}
 
 		/* Copy cpuinfo_package information, if this is the leader. */
@@ -579,6 +586,9 @@ void cpuinfo_riscv_linux_init(void) {
 			memcpy(&packages[valid_packages_index++],
 			       &riscv_linux_processors[processor].package,
 			       sizeof(struct cpuinfo_package));
+			packages[valid_packages_index - 1].processor_start = valid_processors_index - 1;
+			packages[valid_packages_index - 1].core_start = valid_cores_index - 1;
+			packages[valid_packages_index - 1].cluster_start = valid_clusters_index - 1;
 		}
 
 		linux_cpu_to_processor_map[linux_id] = &processors[valid_processors_index - 1];
@@ -617,6 +627,13 @@ void cpuinfo_riscv_linux_init(void) {
 			valid_clusters_index++;
 		}
 
+		/* The package leader is not the first processor of the package
+		 * if another micro-architecture is sorted before its own. */
+		struct cpuinfo_package* package = &packages[current->package - packages];
+		package->processor_start = min(package->processor_start, current - processors);
+		package->core_start = min(package->core_start, current->core - cores);
+		package->cluster_start = min(package->cluster_start, current->cluster - clusters);
+
 		linux_cpu_to_core_map[linux_id] = current->core;
 	}
 
-- 
2.43.0


From 15f2317090fe557d5d5480cc2f2b002b5d9ffd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:59 +0000
Subject: [PATCH 33/35] fix: compare the first processor of a heuristic cluster
 with the others

The heuristic must reject a cluster whose processors have known and
different frequencies or core types. The details of the first processor
of a cluster without sibling lists were not recorded, so a first
processor that differs from the rest was accepted, and the register
parts were read before they were set.
---
 src/arm/linux/clusters.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/clusters.c b/src/arm/linux/clusters.c
index 8dd452a..d55f3cf 100644
--- a/src/arm/linux/clusters.c
+++ b/src/arm/linux/clusters.c
@@ -132,7 +132,10 @@ bool cpuinfo_arm_linux_detect_core_clusters_by_heuristic(
 						return false;
 					}
 				} else {
-					cluster_flags = 0;
+					cluster_flags = processors[i].flags;
+					cluster_midr = processors[i].midr;
+					cluster_max_frequency = processors[i].max_frequency;
+					cluster_min_frequency = processors[i].min_frequency;
 				}
 
 				cluster_start = i;
-- 
2.43.0


From e5f764be5792cac9befa4c9f1ab9b3a1526261a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:50 +0000
Subject: [PATCH 34/35] fix: do not take Kirin followed by four characters for
 a chipset

The text after Kirin is an optional whitespace and three digits.
With nine characters in total the sixth was skipped unchecked, so
kirin9999 was reported as Kirin 999.
---
 src/arm/linux/chipset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index c4977c3..c8a2641 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -704,6 +704,9 @@ static bool match_kirin(const char* start, const char* end, struct cpuinfo_arm_c
 		if (length != 9) {
 			return false;
 		}
+	} else if (length != 8) {
+		/* Without whitespace, expect 8 symbols total */
+		return false;
 	}
 
 	/* Validate and parse 3-digit model number */
-- 
2.43.0


From 6ca8ea26b960a9fca28c6cbdf49cdb8a8d228bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:12 +0000
Subject: [PATCH 35/35] fix: accept only scx15 as the short name of SC7715

The text spx15, which names no chipset, was decoded as SC7715 too.
---
 src/arm/linux/chipset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index c8a2641..b52920e 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -842,7 +842,7 @@ static bool match_sc(const char* start, const char* end, struct cpuinfo_arm_chip
 	}
 
 	/* Special case: "scx" prefix (SC7715 reported as "scx15") */
-	if ((start[2] | '\x20') == 'x') {
+	if (expected_sc_or_sp == UINT16_C(0x6373) /* "cs" = reverse("sc") */ && (start[2] | '\x20') == 'x') {
 		/* Expect exactly 5 characters: "scx15" */
 		if (start + 5 != end) {
 			return false;
-- 
2.43.0

