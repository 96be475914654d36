#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": hook}})


# ---------------------------------------------------------------- x86
prop("C01", "x86 instruction-set flags are exact and OS-gated",
     "Every x86 feature query is true exactly when the processor's CPUID data sets that feature's documented bit in a "
     "leaf the processor declares, and, for features that need extended registers (AVX and the VEX-encoded extensions "
     "built on it, AVX-512, AMX, MPX), only when the operating system has enabled those registers. No CPUID bit, limit"
     " value or OS state other than the documented ones influences a flag, and each public query returns its own flag.",
     ["inputs", "configurations"],
     "All values of every CPUID register read, of the maximum basic/extended leaf, of XCR0, every vendor and "
     "microarchitecture, on 32-bit and 64-bit x86.",
     "Tests replay a handful of recorded CPUID dumps (all from real chips, so correlated bits) and check no "
     "combination with a feature bit set but the register state disabled, nor limits just below a leaf.",
     ["src/x86/isa.c", "include/cpuinfo.h"],
     [("per-feature bit extraction", "src/x86/isa.c:cpuinfo_x86_detect_isa"),
      ("XCR0 gating", "src/x86/isa.c:avx_regs/avx512_regs/mpx_regs"),
      ("public queries", "include/cpuinfo.h:cpuinfo_has_x86_*")],
     observe=["return value of the feature queries"])

prop("C02", "x86 vendor, family/model and microarchitecture identification",
     "For any CPUID signature the vendor is the one whose documented 12-character identification string was returned "
     "(unknown otherwise), family is the base family plus the extended family, model is the base model plus 16 times "
     "the extended model, the stepping and type are the documented fields, and the microarchitecture is the documented"
     " one for that vendor, family and model, or unknown if none is documented.",
     ["inputs", "configurations"],
     "All 2^96 vendor strings, all 2^32 signature words, every vendor/family/model combination, 32-bit and 64-bit x86.",
     "Tests exercise only the signatures of the few recorded devices.",
     ["src/x86/vendor.c", "src/x86/info.c", "src/x86/uarch.c"],
     [("vendor word comparison", "src/x86/vendor.c"), ("field extraction", "src/x86/info.c"),
      ("family/model table", "src/x86/uarch.c")],
     observe=["package/core vendor and uarch", "core cpuid"])

prop("C03", "x86 cache geometry from deterministic cache leaves",
     "For any register values returned by the deterministic cache leaves, the decoded cache at the level and type they "
     "name has exactly the documented ways, partitions, line size and sets, a size equal to their product, the "
     "documented inclusive/unified/complex-index flags and sharing width, and no other cache description changes. "
     "Decoding reports whether a cache was present, and never executes undefined behaviour.",
     ["inputs"], "All values of the four registers, on top of any prior contents of the cache descriptions.",
     "Tests cover only the geometries of recorded devices (never fully associative, complex-indexed, multi-partition "
     "or L4 ones).",
     ["src/x86/cache/deterministic.c", "src/x86/api.h"],
     [("field decode", "src/x86/cache/deterministic.c"), ("level/type routing", "src/x86/cache/deterministic.c")],
     observe=["cpuinfo_get_l1d_cache etc."])

prop("C04", "x86 legacy cache/TLB descriptors update one item consistently",
     "For every one-byte legacy cache/TLB descriptor, vendor and model, decoding either leaves all descriptions "
     "untouched (reserved or null descriptor) or sets exactly the items the vendor manual assigns to that byte to the "
     "documented sizes, with every cache satisfying size = ways x sets x partitions x line size and every TLB having "
     "non-zero entries, ways and pages.",
     ["inputs"], "All 256 descriptor bytes x vendors x family/model values x any prior contents of all descriptions.",
     "Descriptors other than the dozen in recorded dumps are never decoded by a test.",
     ["src/x86/cache/descriptor.c", "src/x86/cache/init.c"],
     [("descriptor table", "src/x86/cache/descriptor.c:cpuinfo_x86_decode_cache_descriptor")],
     observe=["cache and TLB descriptions"])

prop("C05", "x86 APIC-ID topology fields follow the enumeration leaves",
     "For any CPUID topology data, the bit fields used to split an APIC ID into thread, core and package parts are the "
     "ones the enumeration leaves define, the thread and core fields never overlap and always fit the 32-bit ID, and "
     "the APIC ID itself is the one reported by the widest available leaf. Malformed topology data cannot cause "
     "undefined behaviour.",
     ["inputs"], "All CPUID leaf 1/4/0xB/0x80000001/0x80000008 values and leaf limits.",
     "Tests replay real chips only; no test asserts the bit fields, and no test has inconsistent leaves (as emulators "
     "and hypervisors produce).",
     ["src/x86/topology.c", "src/x86/cache/init.c", "src/cpuinfo/utils.h", "src/x86/linux/init.c"],
     [("legacy HTT/CmpLegacy decode", "src/x86/topology.c"), ("x2APIC level walk", "src/x86/topology.c"),
      ("bit_length", "src/cpuinfo/utils.h")],
     observe=["processor apic_id, core/package grouping"])

prop("C06", "x86 brand string clean-up stays in bounds and terminated",
     "For any 48 bytes returned as the processor brand string, the cleaned-up name and the package name derived from it "
     "are NUL-terminated within 48 bytes, no byte outside the two buffers is read or written, and the name is a "
     "sequence of non-empty words separated by single spaces.",
     ["inputs"], "All 2^384 brand strings, all vendors.",
     "Tests contain a finite list of marketing names; none is unterminated, full-length or adversarial (hypervisors let "
     "users set this string).",
     ["src/x86/name.c", "src/x86/api.h"],
     [("tokenizer/normalizer", "src/x86/name.c:cpuinfo_x86_normalize_brand_string"),
      ("package name", "src/x86/name.c:cpuinfo_x86_format_package_name")],
     observe=["cpuinfo_get_package(i)->name"])

prop("C07", "x86 Linux topology is a consistent containment hierarchy",
     "After successful initialisation, for any set of online processors and APIC IDs split into adjoining thread, core"
     " and package fields, every logical processor lies in exactly one core, cluster and package whose processor/core "
     "ranges contain it, ranges at each level are disjoint, contiguous and cover all objects, processors sharing the "
     "core (package) part of the APIC ID share the core (package), processors sharing the last-level cache within a "
     "package share the cluster and so do threads of a core, each cache record covers exactly the processors that "
     "share that cache, counts match the arrays, and the OS-CPU lookup tables point back to the right objects.",
     ["inputs", "configurations"],
     "All assignments of APIC IDs and validity flags to processors, all topology bit fields and cache sharing widths.",
     "Tests check fixed expectations for a few recorded single-package Atom devices.",
     ["src/x86/linux/init.c", "src/x86/linux/cpuinfo.c"],
     [("sort by APIC ID", "src/x86/linux/init.c:cmp_x86_linux_processor"),
      ("object counting", "src/x86/linux/init.c:cpuinfo_x86_count_objects"),
      ("object population", "src/x86/linux/init.c:cpuinfo_x86_linux_init")],
     observe=["cpuinfo_get_processors/cores/clusters/packages and caches"])

prop("C08", "Initialisation is all-or-nothing",
     "If initialisation cannot complete - any allocation fails or any system file is missing or unreadable - the library "
     "stays uninitialised, publishes no table and no count, and releases everything it allocated; if it completes, it "
     "publishes every table and count before declaring itself initialised.",
     ["fault_sequences", "inputs"],
     "Every subset of failing allocations and unreadable system files, for the x86, ARM and RISC-V Linux back ends.",
     "No test injects an allocation or file failure.",
     ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/riscv/linux/init.c"],
     [("cleanup label", "src/*/linux/init.c"), ("commit block", "src/*/linux/init.c")],
     observe=["cpuinfo_initialize() result", "published tables"])

# ---------------------------------------------------------------- public API
prop("C09", "Object accessors are in bounds or null",
     "Once initialised, each count accessor returns the published number of objects of its kind, each by-index accessor "
     "returns the address of that object when the index is below the count and null otherwise, and each table accessor "
     "returns the published table; none of them changes any state.",
     ["inputs", "histories"], "All published tables and counts and all 32-bit indices.",
     "Tests call accessors only with valid indices on one machine.",
     ["src/api.c", "include/cpuinfo.h"],
     [("index guard", "src/api.c:cpuinfo_get_*")],
     state=[("published tables", "arrays and counts set by initialisation", "src/api.c")],
     observe=["return values of accessors"])

prop("C10", "Queries before initialisation stop the program",
     "Any accessor of processors, cores, clusters, packages, microarchitectures, caches or the current processor that "
     "is called while the library is not initialised terminates the process without returning a value.",
     ["histories"], "Every accessor, any arguments, any contents of not-yet-published state.",
     "Tests always initialise first; the abort path is never run.",
     ["src/api.c", "src/cpuinfo/log.h", "src/log.c"],
     [("initialised check", "src/api.c"), ("fatal log + abort", "src/cpuinfo/log.h")],
     observe=["process termination"])

prop("C11", "Current-processor queries are safe for any OS CPU number",
     "Whatever CPU number the operating system reports (including failure and numbers beyond those seen at "
     "initialisation), the current processor and core queries return the object recorded for that CPU or null, and the "
     "microarchitecture-index queries return the recorded index, zero on systems with one microarchitecture, or the "
     "documented default; no read is out of bounds.",
     ["inputs", "schedules"], "Every CPU number and every failure of the system call, for any lookup tables.",
     "Tests observe only the CPU they happen to run on; CPU hot-plug and failure are never exercised.",
     ["src/api.c"],
     [("bounds check on CPU number", "src/api.c:cpuinfo_get_current_*")],
     observe=["cpuinfo_get_current_processor/core/uarch_index[_with_default]"])

prop("C12", "Maximum cache size is a sound upper bound",
     "The published maximum cache size is the size of the largest-level data or unified cache of the representative "
     "processor on x86, and on ARM the larger of that and the documented worst case for microarchitectures whose last-"
     "level cache size varies; it is zero only if no cache is known.",
     ["inputs"], "All combinations of present/absent cache levels, sizes and microarchitectures.",
     "Tests check the value on recorded devices only.",
     ["src/cache.c", "src/arm/cache.c"],
     [("level selection", "src/cache.c:cpuinfo_compute_max_cache_size"),
      ("per-core table", "src/arm/cache.c:cpuinfo_arm_compute_max_cache_size")],
     observe=["cpuinfo_get_max_cache_size()"])

prop("C13", "Initialisation runs once and reports its true outcome",
     "However often and from however many threads initialisation is requested, platform detection runs at most once, "
     "through the operating system's run-once primitive, using the back end of the target platform; each request "
     "returns true exactly when detection completed; de-initialisation leaves published data intact.",
     ["schedules", "histories", "configurations"],
     "Any number and order of calls, on x86/ARM/AArch64/RISC-V Linux builds.",
     "Tests call it once, from one thread, in the successful case.",
     ["src/init.c"],
     [("pthread_once guard", "src/init.c:cpuinfo_initialize")],
     observe=["cpuinfo_initialize() result", "number of detection runs"])

# ---------------------------------------------------------------- Linux parsers
prop("C14", "Kernel CPU lists parse to exactly the listed processors",
     "For any contents of a kernel CPU-list file, however the OS splits it into reads, the ranges delivered are "
     "exactly those written (single numbers and inclusive a-b ranges, numbers below 10^9, in order; characters after a"
     " complete range are ignored), a malformed or over-long entry is reported as failure without delivering an "
     "invented range, and no byte outside the data read is accessed.",
     ["inputs", "schedules"], "All byte sequences and all ways of splitting them across reads, including read errors.",
     "Tests parse a dozen literal files from disk in one read each.",
     ["src/linux/cpulist.c"],
     [("entry parser", "src/linux/cpulist.c:parse_entry"), ("chunk carry-over", "src/linux/cpulist.c:cpuinfo_linux_parse_cpulist")],
     observe=["callback ranges", "return value"])

prop("C15", "Small files are read completely or rejected, for any read splitting",
     "A small system file is handed to its parser exactly once, with exactly the bytes the OS delivered, in order, or "
     "the read is reported as failed - when opening or reading fails or the file does not fit its buffer - without "
     "calling the parser; no byte is stored outside the buffer.",
     ["schedules", "inputs", "fault_sequences"], "Every sequence of read results (sizes, errors), every buffer size.",
     "Tests read small regular files in one read; short reads and errors never occur.",
     ["src/linux/smallfile.c"], [("read loop", "src/linux/smallfile.c:cpuinfo_linux_parse_small_file")],
     observe=["parser callback arguments", "return value"])

prop("C16", "Multi-line files are split into the same lines for any read splitting",
     "For any file contents and any splitting into reads, the line parser is called once per line that fits the "
     "buffer, in order, with exactly that line's bytes and its line number, including a final unterminated (possibly "
     "empty) line; parsing stops at the first rejected line; a line that does not fit the buffer is skipped without "
     "disturbing the others; read errors and rejected lines are reported as failure; no access is outside the buffer.",
     ["schedules", "inputs", "fault_sequences"],
     "Every file contents, every sequence of read results, every buffer size, every line-parser verdict.",
     "Tests read complete small files; the carry-over between reads is exercised only by luck of file size.",
     ["src/linux/multiline.c"], [("line splitting and carry-over", "src/linux/multiline.c:cpuinfo_linux_parse_multiline_file")],
     observe=["line callback arguments", "return value"])

prop("C17", "Sysfs numbers and processor limits are decoded exactly",
     "A numeric sysfs value below 10^9 is decoded as the decimal number its leading digits spell, and a file without "
     "leading digits or unreadable is treated as unavailable (never as a number); the processor limits derived from it"
     " and from the CPU lists are the true maxima capped by the kernel maximum, and presence flags are set for exactly"
     " the listed processors below the limit and nothing outside the caller's table is written.",
     ["inputs", "configurations"],
     "All file contents, all list ranges, all processor counts and record strides.",
     "Tests use well-formed files from recorded devices.",
     ["src/linux/processors.c", "src/linux/api.h"],
     [("number parser", "src/linux/processors.c:uint32_parser"),
      ("range callbacks", "src/linux/processors.c"),
      ("sibling range clamp", "src/linux/processors.c")],
     observe=["processor counts, frequencies, package/core ids"])

prop("C18", "x86 /proc/cpuinfo lines attach the right APIC ID, and only that",
     "For any line of the x86 processor listing, a processor line selects the processor its leading digits spell, an "
     "APIC-ID line of decimal digits records that value for the selected processor, every other line changes nothing, "
     "and no line can write outside the processor table or read outside the line.",
     ["inputs", "histories"], "All lines (any bytes), all parser states reachable by previous lines.",
     "Tests feed well-formed listings of recorded devices only.",
     ["src/x86/linux/cpuinfo.c"],
     [("line parser", "src/x86/linux/cpuinfo.c:parse_line"), ("index guard", "src/x86/linux/cpuinfo.c")],
     observe=["processor apic ids"])

prop("C19", "Detection closes every file it opens",
     "Every file opened while reading system information is closed exactly once before the reading operation returns, "
     "on every path - success, short data, read error, parser rejection - and no descriptor that was not opened is read "
     "or closed.",
     ["fault_sequences", "inputs"], "Every sequence of open/read outcomes and parser verdicts.",
     "Tests neither inject read errors nor count descriptors.",
     ["src/linux/smallfile.c", "src/linux/multiline.c", "src/linux/cpulist.c", "src/arm/linux/hwcap.c"],
     [("cleanup labels", "src/linux/*.c")],
     observe=["open file descriptors"])

# ---------------------------------------------------------------- ARM
prop("C20", "ARM /proc/cpuinfo lines decode to the right record, in bounds",
     "For any line of the ARM processor listing, each recognised key stores exactly its decoded value (processor "
     "number from its leading digits, implementer, variant, part, revision, architecture, feature words, cache "
     "numbers, hardware and revision text) in the selected processor's record or the text buffers, malformed numbers "
     "change nothing, unknown lines change nothing, and no line can read outside itself or write outside those "
     "records.",
     ["inputs", "histories"], "All lines (any bytes) and all parser states reachable by previous lines, ARM and AArch64.",
     "Tests feed listings of recorded phones; none has a maximal-length hardware string or malformed numbers.",
     ["src/arm/linux/cpuinfo.c", "src/arm/midr.h", "src/arm/linux/api.h"],
     [("line parser", "src/arm/linux/cpuinfo.c:parse_line"), ("value parsers", "src/arm/linux/cpuinfo.c:parse_*")],
     observe=["core midr, ISA flags, package name"])

prop("C21", "ARM core identification register decodes to the documented core",
     "For every main ID register value the core vendor and microarchitecture are those documented for its implementer, "
     "part (and variant/revision where needed), unknown parts of known implementers keep the vendor, and the register's "
     "field accessors read and replace exactly the architected bit fields.",
     ["inputs", "configurations"], "All 2^32 register values, with/without VFPv4 on 32-bit ARM.",
     "Tests cover the register values of recorded devices only.",
     ["src/arm/uarch.c", "src/arm/midr.h"],
     [("implementer/part table", "src/arm/uarch.c:cpuinfo_arm_decode_vendor_uarch"), ("bit fields", "src/arm/midr.h")],
     observe=["core vendor/uarch/midr"])

prop("C22", "ARM core role ordering and LITTLE-core pairing",
     "For every main ID register value the big/LITTLE role score used to order cores and the LITTLE core assumed for a "
     "known big core are the documented ones regardless of variant and revision, and processor ordering by "
     "(usable, role, frequency, cluster, id) is a total order: antisymmetric, transitive and never tying distinct "
     "processors.",
     ["inputs"], "All register values; all pairs and triples of processor records.",
     "Tests see only the orderings of recorded devices; order axioms cannot be tested by examples.",
     ["src/arm/midr.h", "src/arm/linux/init.c"],
     [("score table", "src/arm/midr.h:midr_score_core"), ("pairing table", "src/arm/midr.h:midr_little_core_for_big"),
      ("comparator", "src/arm/linux/init.c:cmp_arm_linux_processor")],
     observe=["processor order", "core uarch on partially reported systems"])

prop("C23", "ARM cache geometry is complete and self-consistent",
     "For every ARM core type, cluster of up to 1024 cores, chipset and architecture version, decoding yields an L1 "
     "instruction and data cache of non-zero size, every reported cache level satisfies size = ways x sets x "
     "partitions x line size with power-of-two line sizes, an L3 implies an L2, and decoding never divides by zero or "
     "leaves a field undefined.",
     ["inputs"], "All core types, all cluster core counts up to the supported maximum, all register values and chipsets.",
     "Tests check one cluster configuration per recorded device.",
     ["src/arm/cache.c"], [("per-core tables", "src/arm/cache.c:cpuinfo_arm_decode_cache")],
     observe=["cpuinfo_get_l1i/l1d/l2/l3_caches"])

prop("C24", "AArch64 instruction-set flags follow kernel capabilities and errata",
     "For every kernel capability word pair, main ID register and chipset, each AArch64 feature flag is set exactly when "
     "its documented capability bit is, except where documented core errata override it, and vector lengths are derived "
     "only from a successful kernel query; each public query returns its own flag.",
     ["inputs", "configurations"], "All 2^32 x 2^64 capability words, all registers, all chipset series, all query results.",
     "Tests check the flags of recorded devices only.",
     ["src/arm/linux/aarch64-isa.c", "include/cpuinfo.h"],
     [("capability decode", "src/arm/linux/aarch64-isa.c"), ("public queries", "include/cpuinfo.h:cpuinfo_has_arm_*")],
     observe=["cpuinfo_has_arm_*"])

prop("C25", "AArch32 instruction-set flags follow kernel capabilities and errata",
     "For every capability word pair, main ID register, architecture version/flags and chipset, each 32-bit ARM feature "
     "flag is the documented function of those inputs, including the documented overrides for cores and kernels known to "
     "misreport, and stronger levels imply the weaker ones the kernel documents; each public query returns its own flag.",
     ["inputs", "configurations"], "All capability words, registers, architecture versions and flags, all chipset series.",
     "Tests check the flags of recorded devices only.",
     ["src/arm/linux/aarch32-isa.c", "include/cpuinfo.h"],
     [("capability decode", "src/arm/linux/aarch32-isa.c"), ("public queries", "include/cpuinfo.h")],
     observe=["cpuinfo_has_arm_*"])

prop("C26", "ARM core clustering assigns every usable processor consistently",
     "For any set of processor records, cluster detection gives every usable processor a leader that is a usable "
     "processor, is its own leader and has an id not above it; processors reporting different frequencies or core type"
     " parts are never put into one cluster, neither by the usual-configuration heuristic nor by sequential scan, and "
     "adjacent processors are split only for such a difference; cluster sizes count exactly the members, and unusable "
     "processors are never touched.",
     ["inputs"], "All flag, frequency and register combinations of the processor records.",
     "Tests see only the records of recorded devices, most with kernel-provided clusters.",
     ["src/arm/linux/clusters.c", "src/arm/linux/api.h"],
     [("heuristic", "src/arm/linux/clusters.c"), ("sequential scan", "src/arm/linux/clusters.c"),
      ("member count", "src/arm/linux/clusters.c")],
     observe=["cpuinfo_get_clusters"])

prop("C27", "ARM missing core types are reconstructed without contradicting reports",
     "For any partially reported system, every cluster leader with a fully reported core type keeps the reported "
     "implementer, variant, part and revision, a table entry or big.LITTLE guess is used only if it does not "
     "contradict reported register parts when those are attributable to their processor, otherwise missing types are "
     "taken over from neighbouring clusters, the number returned is the number of clusters, and nothing outside the "
     "processor table is accessed.",
     ["inputs"], "All processor records, chipsets, cluster counts (including more clusters than the tables support).",
     "Tests see only recorded partially-reporting devices.",
     ["src/arm/linux/midr.c"],
     [("reconstruction", "src/arm/linux/midr.c:cpuinfo_arm_linux_detect_cluster_midr")],
     observe=["core midr/uarch"])

prop("C28", "ARM chipset strings decode within bounds to the documented chipset",
     "For any Hardware and Revision text of the processor listing, terminated or filling its buffer, decoding yields the "
     "vendor, series, model and upper-case suffix that the documented signature or table entry matching the text defines, "
     "after the documented corrections of commonly misreported models, and the unknown chipset when none matches. "
     "It never accesses a byte outside the text.",
     ["inputs"], "All byte contents of the text buffers, all core counts and frequencies, 32-bit and 64-bit ARM Linux builds.",
     "Tests list a few hundred genuine strings; none is malformed, unterminated or maximal-length.",
     ["src/arm/linux/chipset.c"],
     [("pattern matchers", "src/arm/linux/chipset.c:match_*"), ("fix-ups", "src/arm/linux/chipset.c:cpuinfo_arm_fixup_chipset")],
     observe=["package name"])

prop("C29", "ARM chipset names are bounded, terminated and faithful",
     "For any decoded chipset (the vendor belongs to the series, and a chipset without series has no model), the "
     "printed name is NUL-terminated within its buffer and spells the vendor, the series, the decimal model and the "
     "suffix of that chipset.",
     ["inputs"], "All vendors, series, 32-bit models and suffix bytes.",
     "Tests print only decoded names of recorded devices.",
     ["src/arm/linux/chipset.c", "src/arm/api.h"],
     [("formatter", "src/arm/linux/chipset.c:cpuinfo_arm_chipset_to_string")],
     observe=["cpuinfo_get_package(i)->name"])

prop("C30", "ARM Linux topology is a consistent containment hierarchy",
     "After successful initialisation, for any processors listed as possible and present and any symmetric sibling "
     "lists, every logical processor lies in exactly one core and cluster whose ranges contain it, cluster ranges are "
     "disjoint and cover all processors, microarchitecture and cache records partition the processors (L1 per core, L2"
     " per core or cluster, L3 per cluster or shared by all when all clusters report the same size), counts match the "
     "arrays, and OS-CPU lookup tables point back to the right objects.",
     ["inputs", "configurations"], "All processor listings, sibling lists, frequencies, core types and chipsets.",
     "Tests check recorded devices, all with every present processor reported.",
     ["src/arm/linux/init.c"], [("population loops", "src/arm/linux/init.c:cpuinfo_arm_linux_init")],
     observe=["cpuinfo_get_processors/cores/clusters/caches"])

# ---------------------------------------------------------------- RISC-V
prop("C31", "RISC-V instruction-set and vendor identification is exact",
     "For any capability word and any vendor/architecture identifiers reported by the kernel, each RISC-V extension flag "
     "mirrors its documented capability letter, the vendor and microarchitecture are the documented ones for the "
     "identifiers or unknown, identifiers come only from a successful kernel query, and each public query returns its "
     "own flag.",
     ["inputs", "configurations"], "All capability words, all identifier values, success and failure of the kernel query.",
     "The RISC-V build is only compiled; no test runs on it.",
     ["src/riscv/linux/riscv-isa.c", "src/riscv/linux/riscv-hw.c", "src/riscv/uarch.c", "include/cpuinfo.h"],
     [("capability decode", "src/riscv/linux/riscv-isa.c"), ("kernel query", "src/riscv/linux/riscv-hw.c"),
      ("vendor table", "src/riscv/uarch.c")],
     observe=["cpuinfo_has_riscv_*", "core vendor/uarch"])

prop("C32", "RISC-V Linux topology is a consistent containment hierarchy",
     "After successful initialisation, for any reported processors and nested core/cluster/package sibling lists with "
     "one microarchitecture per cluster, every processor points to the core, cluster and package of its sibling lists,"
     " whose ranges are indices of the published tables and whose counts match their members, and OS-CPU lookup tables"
     " point back to the right objects.",
     ["inputs", "configurations"], "All usable-processor sets and sibling partitions.",
     "The RISC-V build is only compiled; no test runs on it.",
     ["src/riscv/linux/init.c"], [("leader propagation and population", "src/riscv/linux/init.c")],
     observe=["cpuinfo_get_processors/cores/clusters/packages"])

# ---------------------------------------------------------------- logging
prop("C33", "Log messages are written whole, once, and in bounds",
     "For any message length, including formatting errors and allocation failure, the library's logger emits either "
     "nothing or exactly one write of prefix, full message text and newline to the right stream, never writes outside its "
     "buffers and releases any temporary memory.",
     ["inputs", "fault_sequences"], "Every formatted length from 0 to INT_MAX, formatting failure, allocation failure, all levels.",
     "Tests never log messages near the internal buffer size nor inject failures.",
     ["src/log.c", "src/cpuinfo/log.h"],
     [("stack/heap formatting", "src/log.c:cpuinfo_vlog")],
     observe=["bytes written to stdout/stderr"])

prop("C34", "The bundled logging library writes whole messages in bounds",
     "For any module name and message length, including formatting errors and allocation failure, each log call of the "
     "bundled logging library emits nothing or exactly one write of prefix, full text and newline to the documented "
     "stream, never writes outside its buffers and releases any temporary memory.",
     ["inputs", "fault_sequences"], "Every prefix and message length, formatting failure, allocation failure, all five levels.",
     "Its tests log short messages only.",
     ["deps/clog/src/clog.c", "deps/clog/include/clog.h"],
     [("stack/heap formatting", "deps/clog/src/clog.c:clog_vlog_*")],
     observe=["bytes written to stdout/stderr"])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
