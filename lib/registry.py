"""Registry: which units decide which property."""

X86 = ["x86_64", "i686"]
ARM = ["aarch64", "armv7"]
ALL = ["x86_64", "i686", "aarch64", "armv7", "riscv64"]

FORMAT_ASSUMES = ["vsnprintf/snprintf follow the C standard: they write at most the given room, terminate, and return the full length or a negative value",
                  "va_list is modelled as an array-type argument list that formatting consumes"]

READ_ASSUMES = ["open, read and close follow POSIX: read delivers between 1 and the requested number of the next bytes, 0 at the end of the file or for an empty request, or -1"]

UNITS = {
    "x86_isa": dict(file="x86_isa.c", archs=X86, enforce=["cpuinfo_x86_detect_isa"],
                    functions=["cpuinfo_x86_detect_isa"]),
    "queries_x86": dict(file="isa_queries.c", archs=X86, enforce=["ask_all"],
                        functions=["cpuinfo_has_x86_* (all)"]),
    "x86_vendor": dict(file="x86_ident.c", defs=["-DUNIT_VENDOR"], archs=X86, enforce=["cpuinfo_x86_decode_vendor"],
                       functions=["cpuinfo_x86_decode_vendor"], unwind=13),
    "x86_info": dict(file="x86_ident.c", defs=["-DUNIT_INFO"], archs=X86, enforce=["cpuinfo_x86_decode_model_info"],
                     functions=["cpuinfo_x86_decode_model_info"]),
    "x86_uarch": dict(file="x86_ident.c", defs=["-DUNIT_UARCH"], archs=X86, enforce=["cpuinfo_x86_decode_uarch"],
                      functions=["cpuinfo_x86_decode_uarch"], unwind=128),
    "x86_init_processor": dict(file="x86_init_processor.c", archs=X86, unwind=50,
                               enforce=["cpuinfo_x86_init_processor"],
                               functions=["cpuinfo_x86_init_processor"]),
    "x86_descriptor": dict(file="x86_descriptor.c", archs=X86, enforce=["cpuinfo_x86_decode_cache_descriptor"],
                           functions=["cpuinfo_x86_decode_cache_descriptor"], solver="z3"),
    "x86_leaf4": dict(file="x86_cache_leaf.c", defs=["-DUNIT_INTEL"], archs=X86, unwind=14,
                      enforce=["cpuinfo_x86_decode_deterministic_cache_parameters"],
                      functions=["cpuinfo_x86_decode_deterministic_cache_parameters", "bit_length"], solver="z3", timeout=300,
                      fallback=[dict(defs=["-DSMALL"], solver="cadical", bounded="ways, partitions, line size up to 8, sets up to 16")]),
    "x86_leaf1d": dict(file="x86_cache_leaf.c", defs=["-DUNIT_AMD"], archs=X86, unwind=14,
                       enforce=["cpuinfo_x86_decode_cache_properties"],
                       functions=["cpuinfo_x86_decode_cache_properties"], solver="z3", timeout=300,
                       fallback=[dict(defs=["-DSMALL"], solver="cadical", bounded="ways, partitions, line size up to 8, sets up to 16")]),
    "x86_detect_cache": dict(file="x86_detect_cache.c", archs=X86, unwind=34, enforce=["cpuinfo_x86_detect_cache"],
                             functions=["cpuinfo_x86_detect_cache"],
                             bounded="leaf 2 asks for at most 2 passes, at most 5 caches in leaves 4 and 0x8000001D",
                             assumes=["decoders called by cpuinfo_x86_detect_cache are replaced by recording stubs"]),
    "x86_topology_legacy": dict(file="x86_topology.c", defs=["-DUNIT_LEGACY"], archs=X86, unwind=10,
                                enforce=["cpuinfo_x86_detect_topology"], functions=["cpuinfo_x86_detect_topology", "bit_length"]),
    "x86_topology_x2apic": dict(file="x86_topology.c", archs=X86, unwind=10, enforce=["cpuinfo_x86_detect_topology"],
                                functions=["cpuinfo_x86_detect_topology"], bounded="leaf 0xB lists at most 6 levels"),
    "api_objects": dict(file="api_objects.c", defs=["-DUNIT_OBJECTS"], archs=ALL, enforce=["ask_all"], log_level=1,
                        functions=["cpuinfo_get_{processors,cores,clusters,packages,uarchs,l1i,l1d,l2,l3,l4}* (tables, by index, counts)",
                                   "cpuinfo_get_max_cache_size"]),
    "api_early": dict(file="api_objects.c", defs=["-DUNIT_EARLY"], archs=ALL, enforce=["ask_early"], log_level=1,
                      functions=["all 35 cpuinfo_get_* queries of src/api.c", "cpuinfo_log_fatal"]),
    "api_current": dict(file="api_objects.c", defs=["-DUNIT_CURRENT"], archs=ALL, enforce=["ask_current"], log_level=1,
                        functions=["cpuinfo_get_current_processor", "cpuinfo_get_current_core",
                                   "cpuinfo_get_current_uarch_index", "cpuinfo_get_current_uarch_index_with_default"],
                        assumes=["the getcpu system call either fails or stores one CPU number"]),
    "max_cache": dict(file="max_cache.c", archs=ALL, enforce=["cpuinfo_compute_max_cache_size"], unwind=6,
                      functions=["cpuinfo_compute_max_cache_size"]),
    "max_cache_arm": dict(file="max_cache.c", defs=["-DUNIT_ARM"], archs=ARM, enforce=["cpuinfo_arm_compute_max_cache_size"], unwind=6,
                          functions=["cpuinfo_arm_compute_max_cache_size"]),
    "init_step": dict(file="init_once.c", log_level=1, defs=["-DUNIT_STEP"], archs=ALL, enforce=["cpuinfo_initialize"],
                      functions=["cpuinfo_initialize", "cpuinfo_deinitialize"]),
    "init_once": dict(file="init_once.c", log_level=1, archs=ALL, unwind=5, functions=["cpuinfo_initialize", "cpuinfo_deinitialize"],
                      assumes=["pthread_once runs the routine exactly when its control object is used for the first time and returns after the routine has finished (POSIX)"]),
    "arm_uarch": dict(file="arm_ident.c", defs=["-DUNIT_UARCH"], archs=ARM, enforce=["cpuinfo_arm_decode_vendor_uarch"],
                      functions=["cpuinfo_arm_decode_vendor_uarch"]),
    "arm_midr": dict(file="arm_ident.c", defs=["-DUNIT_MIDR"], archs=ARM, enforce=["ask_all"],
                     functions=["midr_get_*, midr_set_*, midr_copy_*, midr_is_* (all of src/arm/midr.h)"]),
    "arm_roles": dict(file="arm_ident.c", defs=["-DUNIT_ROLES"], archs=ARM, enforce=["ask_roles"],
                      functions=["midr_score_core", "midr_little_core_for_big"]),
    "arm_order": dict(file="arm_ident.c", defs=["-DUNIT_ORDER"], archs=ARM, enforce=["ask_order"],
                      functions=["cmp_arm_linux_processor"]),
    "arm_cache": dict(file="arm_cache.c", archs=ARM, enforce=["cpuinfo_arm_decode_cache"],
                      functions=["cpuinfo_arm_decode_cache"]),
    "arm_cache_v6": dict(file="arm_cache.c", defs=["-march=armv6+fp", "-marm"], archs=["armv7"], enforce=["cpuinfo_arm_decode_cache"],
                         functions=["cpuinfo_arm_decode_cache (build for ARMv6)"]),
    "arm_cache_v8": dict(file="arm_cache.c", defs=["-march=armv8-a+simd"], archs=["armv7"], enforce=["cpuinfo_arm_decode_cache"],
                         functions=["cpuinfo_arm_decode_cache (32-bit build for ARMv8)"]),
    "queries_arm64": dict(file="isa_queries.c", archs=["aarch64"], enforce=["ask_all"], functions=["cpuinfo_has_arm_* (all)", "cpuinfo_get_max_arm_sve_length"]),
    "queries_arm": dict(file="isa_queries.c", archs=["armv7"], enforce=["ask_all"], functions=["cpuinfo_has_arm_* (all)"]),
    "queries_riscv": dict(file="isa_queries.c", archs=["riscv64"], enforce=["ask_all"], functions=["cpuinfo_has_riscv_* (all)"]),
    "arm64_isa": dict(file="arm_isa.c", archs=["aarch64"], enforce=["cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo"],
                      functions=["cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo"]),
    "arm64_hwcap": dict(file="arm_isa.c", defs=["-DUNIT_HWCAP"], archs=["aarch64"], enforce=["cpuinfo_arm_linux_hwcap_from_getauxval"],
                        functions=["cpuinfo_arm_linux_hwcap_from_getauxval"]),
    "arm32_hwcap": dict(file="arm_isa.c", defs=["-DUNIT_HWCAP"], archs=["armv7"], enforce=["cpuinfo_arm_linux_hwcap_from_getauxval"],
                        functions=["cpuinfo_arm_linux_hwcap_from_getauxval"]),
    "arm32_isa": dict(file="arm_isa.c", archs=["armv7"], enforce=["cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo"],
                      functions=["cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo"],
                      assumes=["the two coprocessor identification reads (inline assembly in cp.h) are replaced by variables through the repository's CPUINFO_MOCK switch"]),
    "arm32_isa_v6": dict(file="arm_isa.c", defs=["-march=armv6+fp", "-marm"], archs=["armv7"], enforce=["cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo"],
                         functions=["cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo (build for ARMv6)"]),
    "arm32_isa_v8": dict(file="arm_isa.c", defs=["-march=armv8-a+simd"], archs=["armv7"], enforce=["cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo"],
                         functions=["cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo (32-bit build for ARMv8)"]),
    "riscv_isa": dict(file="riscv_isa.c", defs=["-DUNIT_ISA"], archs=["riscv64"], enforce=["cpuinfo_riscv_linux_decode_isa_from_hwcap"],
                      functions=["cpuinfo_riscv_linux_decode_isa_from_hwcap"]),
    "riscv_uarch": dict(file="riscv_isa.c", defs=["-DUNIT_UARCH"], archs=["riscv64"], enforce=["cpuinfo_riscv_decode_vendor_uarch"],
                        functions=["cpuinfo_riscv_decode_vendor_uarch"]),
    "riscv_hw": dict(file="riscv_isa.c", archs=["riscv64"], unwind=66, enforce=["cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe"],
                     functions=["cpuinfo_riscv_linux_decode_vendor_uarch_from_hwprobe"]),
    "smallfile": dict(file="smallfile.c", archs=X86, unwind=8, enforce=["cpuinfo_linux_parse_small_file"], functions=["cpuinfo_linux_parse_small_file"],
                      assumes=READ_ASSUMES,
                      loops={"cpuinfo_linux_parse_small_file": [dict(
                          assigns="buffer_position, bytes_read, __CPROVER_object_whole(buffer), G",
                          inv="buffer_position == G.delivered && G.delivered < buffer_size && G.delivered <= IN.length && G.closed == 0 && G.opened == 1 "
                              "&& G.calls == 0 && !G.failed && file == IN.file && (IN.at >= G.delivered || buffer[IN.at] == IN.byte)",
                          dec="buffer_size - buffer_position")]},
                      stand_in=dict(defs=["-DBOUNDED"], unwind=8, bounded="buffers and files up to 5 bytes")),
    "arm_auxv": dict(file="arm_auxv.c", archs=["armv7"], unwind=17, enforce=["cpuinfo_arm_linux_hwcap_from_procfs"],
                     functions=["cpuinfo_arm_linux_hwcap_from_procfs"], assumes=READ_ASSUMES,
                     loops={"cpuinfo_arm_linux_hwcap_from_procfs": [dict(
                         assigns="bytes_read, hwcaps[0], hwcaps[1], G",
                         inv="hwcaps[0] == G.hwcap && hwcaps[1] == G.hwcap2 && G.closed == 0 && G.opened == 1 && !G.failed && !G.ended && file == IN.file")]},
                     stand_in=dict(defs=["-DBOUNDED"], unwind=17, bounded="up to 4 entries")),
}

for _b, _f in [(1, 4), (2, 5), (3, 6)]:
    UNITS["multiline_%d" % _b] = dict(file="multiline.c", defs=["-DVF_PLAIN", "-DBUF=%d" % _b, "-DMAX_FILE=%d" % _f], archs=X86, unwind=_f + 2, solver="minisat2",
                                      functions=["cpuinfo_linux_parse_multiline_file"], assumes=READ_ASSUMES,
                                      bounded="buffer of %d bytes, files up to %d bytes" % (_b, _f))

_CPULIST_SIZE = lambda n: ("linux/cpulist.c", r"(#define\s+BUFFER_SIZE)\s+\d+", r"\1 %d" % n)
_CPULIST_FILE = dict(defs=["-DBUF=6", "-DMAX_FILE=5", "-DONE_READ"], unwind=7, subst=[_CPULIST_SIZE(6)], bounded="lists of 5 bytes in one read")
UNITS["cpulist_entry"] = dict(
    file="cpulist.c", defs=["-DVF_PLAIN", "-DUNIT_ENTRY", "-DBUF=256", "-DMAX_FILE=7"], archs=X86, unwind=9, solver="minisat2",
    functions=["parse_entry", "parse_number", "is_whitespace"], bounded="list entries up to 7 characters",
    stand_in=dict(_CPULIST_FILE, defs=["-UUNIT_ENTRY", "-UBUF", "-UMAX_FILE"] + _CPULIST_FILE["defs"]))
for _b, _f in [(1, 4), (2, 5), (3, 6)]:
    UNITS["cpulist_split_%d" % _b] = dict(
        file="cpulist.c", defs=["-DVF_PLAIN", "-DUNIT_SPLIT", "-DBUF=%d" % _b, "-DMAX_FILE=%d" % _f], archs=X86, unwind=_f + 2, solver="minisat2",
        functions=["cpuinfo_linux_parse_cpulist"], assumes=READ_ASSUMES,
        subst=[_CPULIST_SIZE(_b), ("linux/cpulist.c", r"(inline\s+static|static\s+inline|static)\s+bool\s+parse_entry\s*\(", "static bool vf_parse_entry(")],
        bounded="buffer shrunk from 256 to %d bytes, lists up to %d bytes, every splitting into reads" % (_b, _f),
        stand_in=dict(defs=["-UUNIT_SPLIT", "-UBUF", "-UMAX_FILE", "-DBUF=3", "-DMAX_FILE=4"], unwind=6, subst=[_CPULIST_SIZE(3)],
                      bounded="buffer shrunk from 256 to 3 bytes, lists up to 4 bytes, every splitting into reads"))
_SYSFS = [("max_processors_count", "get_max_processors_count"), ("cur_frequency", "get_processor_cur_frequency"),
          ("max_frequency", "get_processor_max_frequency"), ("min_frequency", "get_processor_min_frequency"),
          ("core_id", "get_processor_core_id"), ("package_id", "get_processor_package_id")]
_SYSFS_LISTS = [("max_possible", "get_max_possible_processor"), ("max_present", "get_max_present_processor"),
                ("possible", "detect_possible_processors"), ("present", "detect_present_processors"), ("core_cpus", "detect_core_cpus"),
                ("core_siblings", "detect_core_siblings"), ("thread_siblings", "detect_thread_siblings"), ("cluster_cpus", "detect_cluster_cpus"),
                ("package_cpus", "detect_package_cpus")]
_SYSFS_LOOPS = ["--unwindset", "vf_snprintf.0:12,vf_snprintf.1:80,vf_snprintf.2:80,name_is.0:80"]
_SYSFS_ASSUMES = ["snprintf formats %u and %s as the C standard says"]
for _i, (_n, _f) in enumerate(_SYSFS):
    UNITS["sysfs_" + _n] = dict(file="processors.c", defs=["-DVF_PLAIN", "-DUNIT_NUMBERS", "-DWHICH=%d" % _i], archs=["x86_64", "armv7"], unwind=33, cbmc_args=_SYSFS_LOOPS,
                                functions=["cpuinfo_linux_" + _f, "uint32_parser", "parse_number"], assumes=_SYSFS_ASSUMES)
for _i, (_n, _f) in enumerate(_SYSFS_LISTS):
    UNITS["sysfs_" + _n] = dict(file="processors.c", defs=["-DVF_PLAIN", "-DUNIT_LISTS", "-DWHICH=%d" % _i] + (["-DRANGES=2", "-DTABLE=3"] if _i in (2, 3) else []), archs=["x86_64", "armv7"], unwind=6, cbmc_args=_SYSFS_LOOPS,
                                functions=["cpuinfo_linux_" + _f], bounded="lists of up to 2 ranges, tables of up to 3 processors" if _i in (2, 3) else "lists of up to 3 ranges", assumes=_SYSFS_ASSUMES)
UNITS["x86_listing_line"] = dict(
    file="x86_proc.c", defs=["-DVF_PLAIN", "-DLINE=13"], archs=X86, unwind=18, solver="minisat2",
    functions=["cpuinfo_x86_linux_parse_proc_cpuinfo", "parse_line"], bounded="lines of up to 13 characters")
UNITS["x86_listing_apicid"] = dict(
    file="x86_proc.c", defs=["-DVF_PLAIN", "-DLINE=9", '-DPREFIX="apicid\\t\\t:"'], archs=X86, unwind=20, solver="minisat2",
    functions=["parse_apic_id"], bounded="values of up to 9 characters")
UNITS["x86_listing_processor"] = dict(
    file="x86_proc.c", defs=["-DVF_PLAIN", "-DLINE=9", '-DPREFIX="processor\\t:"'], archs=X86, unwind=22, solver="minisat2",
    functions=["parse_processor_number"], bounded="values of up to 9 characters")

_LISTING = [  # name, text before the arbitrary bytes, how many of them, architectures, definitions
    ("implementer", "CPU implementer\t:", 6, ARM, []),
    ("variant", "CPU variant\t:", 5, ARM, []), ("part", "CPU part\t:", 7, ARM, []), ("revision", "CPU revision\t:", 4, ARM, []),
    ("architecture", "CPU architecture:", 5, ARM, []), ("hardware", "Hardware\t:", 7, ARM, []), ("serial", "Revision\t:", 11, ARM, [])]
for _n, _k in [("i_size", "I size"), ("i_assoc", "I assoc"), ("i_line", "I line length"), ("i_sets", "I sets"),
               ("d_size", "D size"), ("d_assoc", "D assoc"), ("d_line", "D line length"), ("d_sets", "D sets")]:
    _LISTING.append((_n, _k + "\t:", 5, ["armv7"], []))
_LISTING += [(_n + "_key", _k + _v, 0, _a, ["-DONE_BYTE"]) for (_n, _k, _, _a, _), _v in zip(_LISTING,
             ["0x41", "0x2", "0xD03", "4", "7TEJ", "Qua", "12", "16", "16", "16", "16", "16", "16", "16", "16"])]
_LISTING += [
    ("processor", ["processor\t: %s" % _v for _v in ["0", "1", "2", "10", "01", "1x", "x1"]] + ["processors: 0", "processor:"], 0, ARM, ["-DMANY=0"]),
    ("features", ["Features\t: " + _v for _v in [
        "fp aes sha1 sha2", "fphp fcma", "pmull crc32 ", " asimd cpuid", "jscvt  lrcpc", "evtstrm atomics asimdhp", "asimdrdm asimdfhm i8mm",
        "fq aet sha2x", "fphq fcm pmul", "qrc32 asimx ycpuid", "jscvtt lrcqc", "evtstr btomics asimdhhp", "asimdrdn asimdfh i9mm"]], 0, ["aarch64"], []),
    ("features", ["Features\t: " + _v for _v in [
        "aes sha1 sha2", "pmull crc32 ", "swp fpa vfp tls", "  tlsi wp half edsp java", "neon lpae thumb 26bit vfpv3 vfpv4", "idiva idivt iwmmxt crunch", "vfpd32 evtstrm thumbee",
        "fastmult vfpv3d16", "aet sha3 shb2", "qmull crc32x", "sw fpb wfp vtls", "tlsj halg edsq javb", "neom lpaf tumb 26bis vfpv5", "idivb jdivt iwmmxs crumch vfpd31",
        "evtstrn thumbef fastmulu vfpv3d61"]], 0, ["armv7"], []),
    ("lines", ["CPU architecture: " + _v for _v in ["AArch64", "AArch32", "7 (AArch64)", "-7", "8", "5TEJ", "5TE", "5TJ", "6TEJ"]] + [
        "CPU implementor\t: 0x41", "CPU implementos\t: 0x41", "bogus\t: 1", "", ":", " : ", "\t: 1", "1:", "Features", "Features:", "CPU part\t", "CPU part\t:"], 0, ARM, [])]
for _n, _k, _m, _a, _d in _LISTING:
    _s = _n in ("hardware", "hardware_key")
    UNITS["arm_listing_" + _n + ("32" if _n == "features" and _a == ["armv7"] else "")] = dict(
        file="arm_proc.c", archs=_a, unwind=50 if isinstance(_k, list) else max(18, _m + len(_k or "") + 2), solver="minisat2",
        defs=["-DVF_PLAIN"] + (["-DLINE=%d" % _m] if _m else []) + _d + (
            ["-DLINES=" + ",".join('"%s"' % _v for _v in _k).replace("\t", "\\t")] if isinstance(_k, list) else ['-DPREFIX="%s"' % _k.replace("\t", "\\t")] if _k else []),
        functions=["cpuinfo_arm_linux_parse_proc_cpuinfo", "parse_line"],
        subst=[("arm/linux/api.h", r"(#define\s+CPUINFO_HARDWARE_VALUE_MAX)\s+\d+", r"\1 4")] if _s else [],
        bounded=("values of up to %d characters" % _m if _m else "listed lines" if isinstance(_k, list) else
                 "one changed character in one line") + (", hardware text cut at 4 instead of 64 characters" if _s else ""))

_INIT_LOOPS = "vf_free.0:21,vf_asked.0:21,vf_live.0:21,vf_live_tables.0:21,cluster_bits.0:6,published.0:6,nothing_published.0:6,look.12:6,vf_mentions.0:60"
for _n, _d in [("x86_init_l%s" % _l, ["-DN=3", "-DALL", "-DAPIC=256", "-DLEVEL=%d" % _i]) for _i, _l in enumerate(["1i", "1d", "2", "3", "4"])] + [
        ("x86_init_wide", ["-DN=3", "-DALL", "-DCACHES=0"]), ("x86_init_some", ["-DN=2", "-DAPIC=256", "-DCACHES=8"]), ("x86_init_fail", ["-DN=2", "-DFAIL"])]:
    UNITS[_n] = dict(file="x86_init.c", defs=["-DVF_PLAIN"] + _d, archs=["x86_64"], unwind=int(_d[0][-1]) + 1, solver="minisat2", functions=["cpuinfo_x86_linux_init"],
                     cbmc_args=["--unwindset", _INIT_LOOPS],
                     bounded="up to %s processors" % _d[0][-1] + (", APIC IDs below 256" if "-DAPIC=256" in _d else ""))
UNITS["x86_init_four"] = dict(UNITS["x86_init_l3"], defs=["-DVF_PLAIN", "-DN=4", "-DALL", "-DAPIC=256"], unwind=5, bounded="4 processors, APIC IDs below 256", only_tier="thorough")
for _n, _d, _a in [("arm_init_all", ["-DN=4", "-DALL"], ["aarch64"]), ("arm_init_some", ["-DN=2"], ["aarch64", "armv7"]), ("arm_init_fail", ["-DN=2", "-DFAIL"], ["aarch64"])]:
    UNITS[_n] = dict(file="arm_init.c", defs=["-DVF_PLAIN"] + _d, archs=_a, unwind=int(_d[0][-1]) + 1, solver="minisat2", functions=["cpuinfo_arm_linux_init", "cluster_siblings_parser", "cmp_arm_linux_processor"],
                     cbmc_args=["--unwindset", _INIT_LOOPS], bounded="up to %s processors" % _d[0][-1])
for _n, _d in [("riscv_init_all", ["-DN=3", "-DALL"]), ("riscv_init_some", ["-DN=2"]), ("riscv_init_fail", ["-DN=2", "-DFAIL"])]:
    UNITS[_n] = dict(file="riscv_init.c", defs=["-DVF_PLAIN"] + _d, archs=["riscv64"], unwind=int(_d[0][-1]) + 1, solver="minisat2",
                     functions=["cpuinfo_riscv_linux_init", "core_cpus_parser", "cluster_cpus_parser", "package_cpus_parser", "compare_riscv_linux_processors"],
                     cbmc_args=["--unwindset", _INIT_LOOPS], bounded="up to %s processors" % _d[0][-1])

for _n, _k, _d in [("arm_heuristic_5", 6, ["-DUSABLE=5"]), ("arm_heuristic_6", 7, ["-DUSABLE=6"]), ("arm_heuristic_8", 8, ["-DUSABLE=8"]), ("arm_heuristic_10", 10, ["-DUSABLE=10"])]:
    UNITS[_n] = dict(file="arm_clusters.c", defs=["-DVF_PLAIN", "-DUNIT_HEURISTIC", "-DN=%d" % _k] + _d, archs=["aarch64", "armv7"] if _k == 7 else ["aarch64"], unwind=_k + 1,
                     functions=["cpuinfo_arm_linux_detect_core_clusters_by_heuristic"], bounded="%s usable of %d processors" % (_d[0][9:], _k))
UNITS["arm_scan"] = dict(file="arm_clusters.c", defs=["-DVF_PLAIN", "-DUNIT_SCAN", "-DN=5"], archs=["aarch64", "armv7"], unwind=6,
                         functions=["cpuinfo_arm_linux_detect_core_clusters_by_sequential_scan"], bounded="5 processors")
UNITS["arm_count"] = dict(file="arm_clusters.c", defs=["-DVF_PLAIN", "-DUNIT_COUNT", "-DN=4"], archs=["aarch64"], unwind=5, solver="minisat2",
                          functions=["cpuinfo_arm_linux_count_cluster_processors"], bounded="4 processors")

for _n, _k, _d, _a in [("arm_midr_gap", 5, "0,9,2,0,2", ["aarch64"]), ("arm_midr_first", 5, "9,1,2,1,1", ["aarch64"]), ("arm_midr_1", 4, "0,0,0,0", ["aarch64"]), ("arm_midr_2", 4, "0,0,2,2", ["aarch64", "armv7"]), ("arm_midr_3", 4, "0,0,2,3", ["aarch64"]), ("arm_midr_4", 4, "0,1,2,3", ["aarch64"]),
                       ("arm_midr_table_2", 4, "0,0,2,2", ["aarch64", "armv7"]), ("arm_midr_table_1", 4, "0,0,0,0", ["aarch64", "armv7"]), ("arm_midr_table_6", 6, "0,0,0,0,4,4", ["aarch64"]),
                       ("arm_midr_table_8", 8, "0,0,0,0,4,4,4,4", ["aarch64", "armv7"]), ("arm_midr_table_10", 10, "0,0,0,0,4,4,4,4,8,8", ["aarch64"])]:
    UNITS[_n] = dict(file="arm_midr.c", defs=["-DVF_PLAIN", "-DN=%d" % _k] + ["-DLAYOUT=" + _d] + (["-DCHIPSET"] if "table" in _n else []), archs=_a, unwind=31,
                     functions=["cpuinfo_arm_linux_detect_cluster_midr"],
                     bounded="%d processors" % _k + ", clusters led by " + ",".join(sorted(set(_d.split(",")) - {"9"})) + (", tabulated chipsets" if "table" in _n else ", other chipsets"))

for _n in range(0, 33, 3):
    UNITS["chipset_name_%d" % _n] = dict(file="chipset_name.c", defs=["-DVF_PLAIN", "-DFROM=%d" % _n, "-DSTEP=3"], archs=["aarch64"], unwind=49, functions=["cpuinfo_arm_chipset_to_string"],
                                         assumes=FORMAT_ASSUMES)

for _k, _s, _p in [(_k, 0, "") for _k in range(1, 15)] + [(7, 2, ""), (18, 0, "Samsung Exynos"), (19, 0, "Samsung Exynos"), (36, 0, "Qualcomm Technologies, Inc "), (64, 0, 55 * "x" + " ")]:
    UNITS["chipset_text_%d%s" % (_k, "_ended" if _s else "")] = dict(
        file="chipset_text.c", defs=["-DVF_PLAIN", "-DLENGTH=%d" % _k, "-DSPARE=%d" % _s] + (['-DPREFIX="%s"' % _p] if _p else []), archs=["aarch64", "armv7"], unwind=max(32, _k + 2),
        subst=[("arm/linux/api.h", r"(#define\s+CPUINFO_HARDWARE_VALUE_MAX)\s+\d+", r"\1 %d" % (_k + _s)),
               ("arm/linux/chipset.c", r"\b(start|pos)\s*\+\s*(\d+)\s*>\s*(\w*end)\b", r"(\3 - \1) < \2")], guard=["-DGUARD=16"],
        assumes=["comparing an address up to 16 bytes past the text with the end of the text compares the distances (rewritten so for the run)"],
        functions=["cpuinfo_arm_linux_decode_chipset", "cpuinfo_arm_linux_decode_chipset_from_proc_cpuinfo_hardware", "cpuinfo_arm_fixup_chipset", "cpuinfo_arm_fixup_raspberry_pi_chipset"],
        bounded="Hardware text of %d characters" % _k + (", the first %d of them fixed" % len(_p) if _p else ""))

for _l, _p, _c, _f, _s in [("debug", "Debug (cpuinfo): ", "Debug: ", "Debug (%s): ", 1), ("info", "Note (cpuinfo): ", "Note: ", "Note (%s): ", 1),
                           ("warning", "Warning in cpuinfo: ", "Warning: ", "Warning in %s: ", 2),
                           ("error", "Error in cpuinfo: ", "Error: ", "Error in %s: ", 2),
                           ("fatal", "Fatal error in cpuinfo: ", "Fatal error: ", "Fatal error in %s: ", 2)]:
    UNITS["log_" + _l] = dict(file="logging.c", archs=X86, unwind=26, log_level=5, enforce=["cpuinfo_vlog_" + _l],
                              defs=["-DFN=cpuinfo_vlog_" + _l, '-DPREFIX="%s"' % _p, "-DSTREAM=%d" % _s],
                              functions=["cpuinfo_vlog_" + _l, "cpuinfo_vlog"], assumes=FORMAT_ASSUMES)
    UNITS["clog_" + _l] = dict(file="logging.c", archs=["x86_64"], unwind=26, enforce=["clog_vlog_" + _l],
                               defs=["-DUNIT_CLOG", "-DFN=clog_vlog_" + _l, '-DPREFIX="%s"' % _c, '-DPREFIX_FORMAT="%s"' % _f, "-DSTREAM=%d" % _s],
                               functions=["clog_vlog_" + _l], assumes=FORMAT_ASSUMES)

CHECKS = {
    "C01": dict(units=["x86_isa", "queries_x86"],
                note="all register values, limits, vendors; x86-64 and i686"),
    "C02": dict(units=["x86_vendor", "x86_info", "x86_uarch", "x86_init_processor"],
                note="all signature register values and vendors; x86-64 and i686"),
    "C03": dict(units=["x86_leaf4", "x86_leaf1d", "x86_detect_cache"],
                note="decoders: all register values; leaf walk bounded to 5 caches per leaf; x86-64 and i686"),
    "C04": dict(units=["x86_descriptor", "x86_detect_cache"],
                note="all descriptor bytes, vendors, models; leaf 2 walk bounded to 2 passes; x86-64 and i686"),
    "C05": dict(units=["x86_topology_legacy", "x86_topology_x2apic", "x86_detect_cache"],
                note="legacy path: all register values; leaf 0xB walk bounded to 6 levels; x86-64 and i686"),
    "C09": dict(units=["api_objects"], note="all tables, counts and indices on five architectures"),
    "C10": dict(units=["api_early"], note="all 35 queries on five architectures"),
    "C11": dict(units=["api_current"], note="all CPU numbers, table sizes and failures on five architectures"),
    "C12": dict(units=["max_cache", "max_cache_arm"], note="all cache records and core types"),
    "C13": dict(units=["init_once", "init_step"], note="first calls from the real initial state and one call after any history; five architectures"),
    "C21": dict(units=["arm_uarch", "arm_midr"], note="all 2^32 register values; AArch64 and ARMv7"),
    "C22": dict(units=["arm_roles", "arm_order"], note="all register values and triples of processor records; AArch64 and ARMv7"),
    "C23": dict(units=["arm_cache", "arm_cache_v6", "arm_cache_v8"],
                note="all core types, ID registers, chipsets and architecture versions, clusters of up to 1024 cores; AArch64, 32-bit ARM built for v6, v7, v8"),
    "C24": dict(units=["arm64_isa", "arm64_hwcap", "queries_arm64"], note="all capability words, ID registers and chipsets"),
    "C25": dict(units=["arm32_isa", "arm32_isa_v6", "arm32_isa_v8", "arm32_hwcap", "arm_auxv", "queries_arm"],
                note="all capability words, ID registers, architecture versions and chipsets; builds for ARMv6, v7 and v8"),
    "C31": dict(units=["riscv_isa", "riscv_uarch", "riscv_hw", "queries_riscv"], note="all capability words and identifiers, processor numbers below 4096 (hardware query)"),
    "C33": dict(units=["log_debug", "log_info", "log_warning", "log_error", "log_fatal"], note="message lengths up to 512 MiB (1 MiB on 32-bit), all levels, formatting errors and allocation failure"),
    "C34": dict(units=["clog_debug", "clog_info", "clog_warning", "clog_error", "clog_fatal"], note="module prefixes and messages up to 512 MiB each, all levels, formatting errors and allocation failure"),
    "C14": dict(level="other", units=["cpulist_entry", "cpulist_split_1", "cpulist_split_2", "cpulist_split_3"],
                note="bounded: entries of up to 7 characters; lists of up to 6 bytes split into reads in every way with buffers of 1 to 3 bytes; x86-64 and i686"),
    "C15": dict(units=["smallfile"], note="all file contents, sizes, buffer sizes up to 1 GiB (1 MiB on 32-bit) and read sequences"),
    "C16": dict(level="other", units=["multiline_1", "multiline_2", "multiline_3"],
                note="bounded: files of up to 6 bytes split into reads in every way with buffers of 1 to 3 bytes; x86-64 and i686"),
    "C19": dict(units=["smallfile", "multiline_1", "multiline_2", "cpulist_split_1", "cpulist_split_2", "arm_auxv"],
                note="small files and the auxiliary vector: every read sequence; line and list readers bounded to files of up to 5 bytes"),
    "C17": dict(units=["sysfs_" + n for n, _ in _SYSFS + _SYSFS_LISTS],
                note="numeric files: all contents with numbers below 10^9; lists bounded to 3 ranges, presence tables to 2 ranges and 3 processors; x86-64 and ARMv7"),
    "C18": dict(level="other", units=["x86_listing_line", "x86_listing_apicid", "x86_listing_processor"],
                note="bounded: any line of up to 13 characters and any value of up to 9 after a processor line; x86-64 and i686"),
    "C07": dict(level="other", units=[_u for _u in UNITS if _u.startswith("x86_init_") and _u not in ("x86_init_processor", "x86_init_fail")],
                note="bounded: 3 processors (4 in the thorough tier), any topology bits and caches; x86-64 Linux"),
    "C08": dict(level="other", units=["x86_init_fail", "arm_init_fail", "riscv_init_fail"],
                note="bounded: up to 2 processors; any single failing allocation, missing files, no usable processor; Linux on x86-64, aarch64, riscv64"),
    "C26": dict(level="other", units=[_u for _u in UNITS if _u.startswith("arm_heuristic_")] + ["arm_scan", "arm_count"],
                note="bounded: heuristic for 5, 6, 8 and 10 usable processors, scan of 5 and count of 4 processors, of any content; leaders as reported by sibling lists are the lowest of their cluster"),
    "C27": dict(level="other", units=[_u for _u in UNITS if _u.startswith("arm_midr_")],
                note="bounded: 11 cluster layouts of 4 to 10 processors of any content; any chipset"),
    "C29": dict(units=[_u for _u in UNITS if _u.startswith("chipset_name_")],
                note="every series with its vendor, every vendor without series, all models and suffix bytes"),
    "C28": dict(level="other", units=[_u for _u in UNITS if _u.startswith("chipset_text_")],
                note="bounded: any Hardware text of up to 14 characters, and any last 4 to 9 characters of four longer texts; any Revision text, processor count and frequency; AArch64 and 32-bit ARM Linux"),
    "C30": dict(level="other", units=["arm_init_all", "arm_init_some"],
                note="bounded: 4 usable processors on aarch64, 2 of any kind on aarch64 and armv7; any sibling lists, frequencies, core types, caches"),
    "C32": dict(level="other", units=["riscv_init_all", "riscv_init_some"],
                note="bounded: 3 present processors or 2 of any kind; any nested sibling lists with one microarchitecture per cluster"),
    "C20": dict(level="other", units=[_u for _u in UNITS if _u.startswith("arm_listing_")],
                note="bounded: per key any value of 4 to 11 characters and any one changed character in the line; listed processor, feature and malformed lines"),
}

NOT_APPLICABLE = {}
for _i in range(1, 35):
    _p = "C%02d" % _i
    if _p not in CHECKS and _p not in NOT_APPLICABLE:
        NOT_APPLICABLE[_p] = "no contract written yet"

HOOKS = []
