#!/usr/bin/env python3
"""Contract verification runner. See DESIGN.md.

  vf.py setup                      check that the tools are present
  vf.py check ID [--keep]          decide property ID (tier from VERIF_TIER)
  vf.py unit NAME [ARCH] [--keep]  run a single unit, print every obligation that fails
  vf.py manifest                   rewrite MANIFEST.json from the registry
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))

ARCHS = {
    "x86_64": dict(cc="gcc", goto=[], run=[]),
    "i686": dict(cc="i686-linux-gnu-gcc", goto=["-m32"], run=[]),
    "aarch64": dict(cc="aarch64-linux-gnu-gcc", goto=["-funsigned-char"],
                    run=["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]),
    "armv7": dict(cc="arm-linux-gnueabihf-gcc", goto=["-m32", "-funsigned-char"],
                  run=["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"]),
    "riscv64": dict(cc="riscv64-linux-gnu-gcc", goto=["-funsigned-char"],
                    run=["qemu-riscv64", "-L", "/usr/riscv64-linux-gnu"]),
}
COMMON_DEFS = ["-D_GNU_SOURCE=1", "-DCPUINFO_LOG_DEBUG_PARSERS=0"]
MEM_LIMIT_KB = 12 * 1024 * 1024


class VfError(Exception):
    pass


def sh(cmd, timeout, cwd=None, env=None):
    """run with timeout and memory limit; returns (rc, out, err); rc None on timeout"""
    pre = "ulimit -v %d; exec \"$@\"" % MEM_LIMIT_KB
    if env is None:
        env = dict(os.environ)
    p = subprocess.Popen(["bash", "-c", pre, "sh"] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", "timeout"


# ------------------------------------------------------------------ building and solving

def includes(unit=None, tmp=None):
    """include path; sources that the unit rewrites mechanically (subst) come from copies made on every run"""
    first, texts = [], {}
    for path, pattern, new in (unit or {}).get("subst", []):
        if path not in texts:
            with open(os.path.join(REPO, "src", path)) as f:
                texts[path] = f.read()
        texts[path] = re.sub(pattern, new, texts[path])
    for path, text in texts.items():
        dst = os.path.join(tmp, "subst", path)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "w") as f:
            f.write('#line 1 "%s"\n' % os.path.join(REPO, "src", path) + text)
        first = ["-I", os.path.join(tmp, "subst")]
    return first + ["-I", os.path.join(HERE, "lib"), "-I", os.path.join(HERE, "units"),
            "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"),
            "-I", os.path.join(REPO, "deps/clog/include"), "-I", REPO]


def defs_of(unit, tier):
    d = list(COMMON_DEFS)
    d.append("-DCPUINFO_LOG_LEVEL=%d" % unit.get("log_level", 0))
    d += unit.get("defs", [])
    if tier == "thorough":
        d += unit.get("thorough_defs", [])
    else:
        d += unit.get("quick_defs", [])
    return d


def arch_env(arch):
    env = dict(os.environ)
    if "-m32" in ARCHS[arch]["goto"]:
        env["PATH"] = os.path.join(HERE, "lib", "bin32") + ":" + env["PATH"]
    return env


def build_goto(unit, arch, tier, tmp, tag=""):
    a = ARCHS[arch]
    src = os.path.join(HERE, "units", unit["file"])
    i = os.path.join(tmp, "u%s.i" % tag)
    a_gb, b_gb = os.path.join(tmp, "a%s.gb" % tag), os.path.join(tmp, "b%s.gb" % tag)
    rc, out, err = sh([a["cc"], "-E", "-DVF_CBMC=1"] + includes(unit, tmp) +
                      defs_of(unit, tier) + [src, "-o", i], 60)
    if rc != 0:
        raise VfError("preprocessing failed: " + err[-2000:])
    rc, out, err = sh(["goto-cc"] + a["goto"] + ["--function", "harness", i, "-o", a_gb], 120, env=arch_env(arch))
    if rc != 0:
        raise VfError("goto-cc failed: " + (err + out)[-2000:])
    if unit.get("enforce"):
        cmd = ["goto-instrument"]
        cmd += ["--dfcc", "harness"]
        for f in unit["enforce"]:
            cmd += ["--enforce-contract", f]
        for f in unit.get("replace", []):
            cmd += ["--replace-call-with-contract", f]
        if unit.get("loops"):
            cmd += ["--apply-loop-contracts", "--loop-contracts-file", loop_file(unit, a_gb, tmp, arch)]
        cmd += unit.get("instrument_args", []) + [a_gb, b_gb]
        rc, out, err = sh(cmd, 180, env=arch_env(arch))
        if rc != 0:
            raise VfError("goto-instrument failed: " + (err + out)[-2000:])
    else:
        b_gb = a_gb
    return b_gb


def loop_file(unit, gb, tmp, arch):
    """loop contracts of the unit in the form goto-instrument reads; local variables are looked up by name"""
    rc, out, err = sh(["goto-instrument", "--list-symbols", gb], 60, env=arch_env(arch))
    syms = set(re.findall(r"^(\S+)", out, re.M))
    functions = []
    for fn, loops in unit["loops"].items():
        entries = []
        for i, l in enumerate(loops):
            text = " ".join([l["assigns"], l["inv"], l.get("dec", "")])
            names = {}
            for n in sorted(set(re.findall(r"(?<![.>\w])[A-Za-z_]\w*", text))):
                full = [s for s in syms if re.fullmatch(re.escape(fn) + r"::(\d+::)*" + n, s)]
                if n in l.get("vars", {}):
                    full = [s for s in full if s == fn + l["vars"][n]]
                if len(full) == 1:
                    names[n] = full[0]
                elif len(full) > 1:
                    raise VfError("loop contract of %s: variable %s is ambiguous" % (fn, n))
                elif n not in syms and not n.startswith("__CPROVER") and n not in ("sizeof", "size_t", "char", "const", "int"):
                    raise VfError("loop contract of %s: no variable %s" % (fn, n))
            entries.append({"loop_id": str(l.get("id", i)), "assigns": l["assigns"], "invariants": l["inv"],
                            **({"decreases": l["dec"]} if l.get("dec") else {}),
                            "symbol_map": "; ".join("%s, %s" % kv for kv in names.items())})
        functions.append({fn: entries})
    path = os.path.join(tmp, "loops.json")
    with open(path, "w") as f:
        json.dump({"functions": functions}, f, indent=1)
    return path


def cbmc_cmd(unit, gb, unwind):
    cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--trace", "--unwind", str(unwind), "--unwinding-assertions",
           "--no-malloc-may-fail" if not unit.get("malloc_may_fail") else "--malloc-may-fail",
           "--object-bits", str(unit.get("object_bits", 10))]
    solver = unit.get("solver", "cadical")
    cmd += ["--" + solver] if solver in ("z3", "cvc5") else ["--sat-solver", solver]
    if unit.get("malloc_may_fail"):
        cmd += ["--malloc-fail-null"]
    return cmd + unit.get("cbmc_args", [])


def parse_results(out):
    try:
        js = json.loads(out)
    except ValueError:
        # truncated: close it
        raise VfError("cannot parse cbmc output: ..." + out[-500:])
    res, status, solver = None, None, 0.0
    msgs = []
    for e in js:
        if "result" in e:
            res = e["result"]
        if "cProverStatus" in e:
            status = e["cProverStatus"]
        t = e.get("messageText", "")
        if e.get("messageType") == "ERROR":
            msgs.append(t)
        m = re.search(r"Runtime Solver: ([0-9.e+-]+)s", t)
        if m:
            solver += float(m.group(1))
        m = re.search(r"Runtime Post-process: ([0-9.e+-]+)s", t)
        if m:
            solver += float(m.group(1))
    if res is None:
        raise VfError("no result from cbmc: " + "; ".join(msgs)[-1500:])
    return res, status, solver


class Result:
    def __init__(self, name, arch):
        self.name, self.arch = name, arch
        self.obligations = self.discharged = self.library = 0
        self.failures = []
        self.error = None
        self.solver = 0.0
        self.wall = 0.0
        self.covers = []
        self.unwind = 0
        self.bounded = None
        self.unwind_fail = []
        self.contract_obl = 0
        self.cmd = ""
        self.note = None


def kind_of(r):
    d = r.get("description", "")
    p = r["property"]
    if d.startswith("VF_COVER") or d.startswith("VF_REACH"):
        return "cover"
    if d.startswith("VF_FITS"):
        return "fits"
    if ".unwind." in p or d.startswith("unwinding assertion"):
        return "unwind"
    if "undefined function should be unreachable" in d or d.startswith("no body for callee"):
        return "undef"
    if p.startswith("__CPROVER_contracts_") or p.startswith("__CPROVER__start"):
        return "library"
    return "obl"


def run_unit(uname, arch, tier, keep=None, deadline=None):
    from registry import UNITS
    unit = UNITS[uname]
    r = run_unit_cfg(uname, unit, arch, tier, keep, deadline)
    other = [dict(solver="cadical" if unit.get("solver") == "z3" else "z3")]
    for fb in unit.get("fallback", other):
        if not (r.error and "time limit" in r.error):
            break
        first = r
        unit2 = dict(unit, **{k: v for k, v in fb.items() if k != "defs"})
        unit2["defs"] = unit.get("defs", []) + fb.get("defs", [])
        r = run_unit_cfg(uname, unit2, arch, tier, keep, deadline)
        r.wall += first.wall
        r.unit = unit2
    if unit.get("guard") and any(x["description"].startswith("pointer relation") for x in r.failures):
        # an address past the text was formed, not read: run with more room behind the text
        first = r
        unit2 = dict(unit, defs=unit.get("defs", []) + unit["guard"])
        r = run_unit_cfg(uname, unit2, arch, tier, keep, deadline)
        r.wall += first.wall
        r.unit = unit2
        r.note = "run with spare bytes behind the text: " + describe(first.failures[0])
    if unit.get("stand_in") and (r.error or r.failures):
        # the unbounded proof did not go through: a bounded check of the same contract looks for a failing input
        first = r
        unit2 = {k: v for k, v in unit.items() if k not in ("loops", "replace", "stand_in")}
        unit2.update({k: v for k, v in unit["stand_in"].items() if k != "defs"})
        unit2["defs"] = unit.get("defs", []) + unit["stand_in"].get("defs", [])
        r = run_unit_cfg(uname, unit2, arch, tier, keep, deadline)
        r.wall += first.wall
        r.unit = unit2
        r.note = "unbounded proof not available: " + (first.error or "obligation failed: " + describe(first.failures[0]))
        if first.failures and not r.failures:
            return first
    return r


def run_unit_cfg(uname, unit, arch, tier, keep=None, deadline=None):
    r = Result(uname, arch)
    r.unit = unit
    r.bounded = unit.get("bounded_" + tier, unit.get("bounded"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf_%s_%s_" % (uname, arch))
    try:
        gb = build_goto(unit, arch, tier, tmp)
        unwind = unit.get("unwind", 2)
        maxu = unit.get("max_unwind", max(64, unwind * 8))
        limit = unit.get("timeout", 400)
        while True:
            left = limit - (time.time() - t0)
            if deadline:
                left = min(left, deadline - time.time())
            if left <= 1:
                raise VfError("time limit")
            cmd = cbmc_cmd(unit, gb, unwind)
            r.cmd = " ".join(["cbmc"] + cmd[2:])
            rc, out, err = sh(cmd, left, env=arch_env(arch))
            if rc is None:
                raise VfError("cbmc time limit (%ds)" % limit)
            res, status, solver = parse_results(out)
            r.solver += solver
            uf = [x for x in res if kind_of(x) == "unwind" and x["status"] == "FAILURE"]
            obl_fail = [x for x in res if kind_of(x) == "obl" and x["status"] == "FAILURE"]
            if uf and not obl_fail and unwind < maxu:
                unwind = min(maxu, unwind * 2)
                continue
            break
        r.unwind = unwind
        r.unwind_fail = uf
        unknown = []
        for x in res:
            k = kind_of(x)
            ok = x["status"] == "SUCCESS"
            if k == "cover":
                r.covers.append((x["description"], not ok))
            elif k == "fits":
                if x["status"] == "FAILURE":
                    raise VfError("the code uses its surroundings in a way the unit does not model: " + x["description"])
            elif k == "undef":
                if x["status"] == "FAILURE":
                    raise VfError("call of a function outside the unit: " + x["property"])
            elif k == "library":
                r.library += 1
                if not ok and x["status"] == "FAILURE":
                    r.failures.append(x)
            elif k == "unwind":
                r.obligations += 1
                r.discharged += ok
            else:
                r.obligations += 1
                r.discharged += ok
                if ".postcondition" in x["property"] or ".assigns" in x["property"] or \
                        x["description"].startswith("VF_ASSERT"):
                    r.contract_obl += 1
                if x["status"] == "FAILURE":
                    r.failures.append(x)
                elif not ok:
                    # not decided: a failing check on every path to it makes it undecidable
                    unknown.append("obligation %s: status %s" % (x["property"], x["status"]))
        if uf and not r.failures:
            r.error = "unwinding limit %d reached in %s" % (unwind, ", ".join(x["property"] for x in uf[:4]))
        if unknown and not r.failures and not r.error:
            r.error = unknown[0]
        if not r.failures and not r.error:
            if r.contract_obl == 0:
                r.error = "vacuous: no contract obligation was generated"
            bad = [d for d, met in r.covers if not met]
            if bad:
                r.error = "vacuous: not reachable: " + "; ".join(bad)
            if not r.covers:
                r.error = "vacuous: unit has no reachability guard"
    except VfError as e:
        r.error = str(e)
    finally:
        r.wall = time.time() - t0
        if keep:
            dst = os.path.join(keep, "%s_%s" % (uname, arch))
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(tmp, dst)
        shutil.rmtree(tmp, ignore_errors=True)
    return r


# ------------------------------------------------------------------ counterexamples

def leafs(value, path, acc):
    n = value.get("name")
    if n == "struct" or n == "union":
        mem = value.get("members", [value["member"]] if "member" in value else [])
        for m in mem:
            if m["name"].startswith("$pad"):
                continue
            leafs(m["value"], path + "." + m["name"], acc)
    elif n == "array":
        for e in value.get("elements", []):
            leafs(e["value"], "%s[%s]" % (path, e["index"]), acc)
    elif "binary" in value:
        acc[path] = (value.get("width", len(value["binary"])), int(value["binary"], 2), value.get("data"))
    elif value.get("name") == "boolean":
        acc[path] = (1, 1 if value.get("data") in (True, "true", "TRUE", "1") else 0, value.get("data"))


def inputs_of(fail):
    acc = {}
    for st in fail.get("trace", []):
        if st.get("stepType") != "assignment":
            continue
        lhs = st.get("lhs", "")
        if not (lhs == "IN" or lhs.startswith("IN.") or lhs.startswith("IN[")):
            continue
        if "value" not in st:
            continue
        if "$pad" in lhs:
            continue
        path = re.sub(r"\[(\d+)[a-zA-Z]*\]", r"[\1]", lhs)
        leafs(st["value"], path, acc)
    return acc


def c_inputs(acc):
    lines = []
    for path, (w, v, _) in sorted(acc.items()):
        lines.append("%s = (__typeof__(%s))0x%xULL;" % (path, path, v & ((1 << 64) - 1)))
    return "\n".join(lines) + "\n"


def replay(unit, arch, tier, inc, tmp):
    """compile the unit natively with the counterexample's inputs and run it.
    returns (confirmed, text)"""
    a = ARCHS[arch]
    src = os.path.join(HERE, "units", unit["file"])
    with open(os.path.join(tmp, "vf_inputs.inc"), "w") as f:
        f.write(inc)
    main = os.path.join(tmp, "replay_main.c")
    with open(main, "w") as f:
        f.write('#include "%s"\nstatic void vf_load_inputs(void) {\n#include "vf_inputs.inc"\n}\n'
                'int main(void) { harness(); return vf_failures ? 1 : 0; }\n' % src)
    text = ""
    for san in (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                ["-fsanitize=undefined", "-fno-sanitize-recover=all"], []):
        exe = os.path.join(tmp, "replay")
        rc, out, err = sh([a["cc"], "-O0", "-g", "-w", "-I", tmp] + includes(unit, tmp) + defs_of(unit, tier) +
                          unit.get("replay_defs", []) + san + [main, "-o", exe, "-lpthread"], 120)
        if rc != 0:
            text += "replay build failed (%s): %s\n" % (" ".join(san), err[-1500:])
            if not san:
                return False, text
            continue
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1" % (1 if unit.get("leaks") else 0))
        rc2, lib, _ = sh([a["cc"], "-print-file-name=libasan.so"], 10)
        env["LD_LIBRARY_PATH"] = os.path.dirname(os.path.realpath(lib.strip()))
        p = None
        try:
            p = subprocess.run(a["run"] + [exe], capture_output=True, timeout=30, env=env, cwd=tmp)
        except subprocess.TimeoutExpired:
            return True, text + "native run did not terminate within 30 s\n"
        o = p.stdout.decode("utf8", "replace") + p.stderr.decode("utf8", "replace")
        if san and p.returncode != 0 and ("error while loading" in o or "Shadow memory range" in o or "ASan runtime does not come first" in o or
                                  "qemu: uncaught" in o and "AddressSanitizer" not in o and san and "address" in san[0]):
            continue
        if san and p.returncode < 0 and not re.search("Sanitizer|runtime error|VF-", o):
            continue  # the sanitizer runtime itself died, e.g. under emulation
        text += "native run (%s): exit %s\n%s\n" % (" ".join(san) or "no sanitizer", p.returncode, o[-3000:])
        if p.returncode == 77:
            return False, text
        if p.returncode != 0:
            return True, text
        return False, text
    return False, text


def describe(x):
    loc = x.get("sourceLocation", {})
    return "%s: %s (%s:%s)" % (x["property"], x["description"], loc.get("file", "?"), loc.get("line", "?"))


_names = {}


def post_names(uname, unit, arch, tier, x):
    """name of the ensures clause behind f.postcondition.N"""
    m = re.search(r"\.postcondition\.(\d+)$", x["property"])
    if not m:
        return None
    key = (uname, arch)
    if key not in _names:
        rc, out, err = sh([ARCHS[arch]["cc"], "-E", "-P", "-DVF_CBMC=1", "-DVF_NAMES=1"] + includes() +
                          defs_of(unit, tier) + [os.path.join(HERE, "units", unit["file"])], 60)
        _names[key] = re.findall(r"VF_NAME_MARK\s+(\w+)", out)
    n = int(m.group(1)) - 1
    return _names[key][n] if n < len(_names[key]) else None


def pick(failures, limit=8):
    """postconditions and asserts first, then the rest"""
    def rank(x):
        p = x["property"]
        return 0 if ("postcondition" in p or x["description"].startswith("VF_ASSERT")) else 1
    return sorted(failures, key=rank)[:limit]


def do_check(pid, tier, keep):
    from registry import CHECKS, UNITS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    jobs = []
    for u in chk["units"]:
        unit = UNITS[u]
        if unit.get("only_tier") and unit["only_tier"] != tier:
            continue
        for arch in unit["archs"]:
            jobs.append((u, arch))
    deadline = t0 + (840 if tier == "quick" else 10000)
    with cf.ThreadPoolExecutor(max_workers=min(7, len(jobs))) as ex:
        res = list(ex.map(lambda j: run_unit(j[0], j[1], tier, keep, deadline), jobs))
    viol = None
    errors = [r for r in res if r.error]
    replay_dir = os.path.join(HERE, "evidence", "replay")
    nviol = 0
    unconfirmed = None
    for r in res:
        if not r.failures:
            continue
        nviol += len(r.failures)
        unit = r.unit
        for x in pick(r.failures):
            tmp = tempfile.mkdtemp(prefix="vf_replay_")
            acc = inputs_of(x)
            inc = c_inputs(acc)
            ok, text = replay(unit, r.arch, tier, inc, tmp)
            shutil.rmtree(tmp, ignore_errors=True)
            entry = (r, x, inc, text)
            if ok:
                viol = entry
                break
            if unconfirmed is None:
                unconfirmed = entry
        if viol:
            break
    status = 0
    line = None
    if viol or unconfirmed:
        os.makedirs(replay_dir, exist_ok=True)
        r, x, inc, text = viol or unconfirmed
        path = os.path.join(replay_dir, "%s_%s_%s.txt" % (pid, r.name, r.arch))
        nm = post_names(r.name, r.unit, r.arch, tier, x)
        with open(path, "w") as f:
            f.write("property: %s\nunit: units/%s (%s)\nfailed obligation: %s\n" %
                    (pid, UNITS[r.name]["file"], r.arch, describe(x)))
            if nm:
                f.write("contract clause: %s\n" % nm)
            f.write("all failed obligations of this unit:\n")
            for y in r.failures:
                n2 = post_names(r.name, r.unit, r.arch, tier, y)
                f.write("  %s%s\n" % (describe(y), "  [clause %s]" % n2 if n2 else ""))
            f.write("verifier: %s\n\ncounterexample inputs:\n%s\nnative replay:\n%s\n" % (r.cmd, inc, text))
        line = "VIOLATION property=%s replay=%s" % (pid, path)
        if not viol:
            line += " no-failing-input-found"
        status = 1
    elif errors:
        status = 2
    write_evidence(pid, chk, tier, seed, res, nviol, time.time() - t0)
    for r in res:
        print("unit %s/%s: %d/%d obligations discharged%s, %d frame-library checks, solver %.1fs, wall %.1fs%s" % (
            r.name, r.arch, r.discharged, r.obligations, " (bounded: %s)" % r.bounded if r.bounded else "",
            r.library, r.solver, r.wall, " ERROR " + r.error if r.error else ""))
        if r.note:
            print("  note: " + r.note)
        for x in r.failures[:12]:
            n2 = post_names(r.name, r.unit, r.arch, tier, x)
            print("  failed: " + describe(x) + (" [clause %s]" % n2 if n2 else ""))
    for kf in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if line:
        print(line)
    return status


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def scan_assumptions(unit):
    """mechanical scan: every assumption and precondition in the unit text"""
    txt = open(os.path.join(HERE, "units", unit["file"])).read()
    out = []
    for m in re.finditer(r"\b(VF_ASSUME|__CPROVER_assume|REQ)\s*\(", txt):
        i = m.end()
        depth, j = 1, i
        while j < len(txt) and depth:
            depth += {"(": 1, ")": -1}.get(txt[j], 0)
            j += 1
        body = re.sub(r"\s+", " ", txt[i:j - 1].replace("\\\n", " "))
        if txt[max(0, m.start() - 60):m.start()].rstrip().endswith("#define"):
            continue
        out.append("%s: %s(%s)" % (unit["file"], "requires" if m.group(1) == "REQ" else "assume", body))
    return out


TRUSTED = [
    "CBMC 6.11.0: goto-cc front end, goto-instrument contract instrumentation, cbmc symbolic execution",
    "CaDiCaL or MiniSat 2 (bundled SAT back ends of cbmc); z3 for the units that say so",
    "target gcc preprocessors and headers",
    "specification functions and contracts in /verif/units",
]


def write_evidence(pid, chk, tier, seed, res, nviol, wall):
    from registry import UNITS
    proved = [r for r in res if not r.bounded]
    bounded = [r for r in res if r.bounded]
    level = chk.get("level", "proof")
    assumptions = []
    funcs = []
    for r in res:
        u = UNITS[r.name]
        for s in scan_assumptions(u) + u.get("assumes", []):
            if s not in assumptions:
                assumptions.append(s)
        for f in u["functions"]:
            if f not in funcs:
                funcs.append(f)
    cov = {
        **({"obligations": sum(r.obligations for r in proved), "discharged": sum(r.discharged for r in proved)} if proved or level == "proof" else {}),
        "checker_cmd": "python3 vf.py check %s  (per unit: goto-cc; goto-instrument --dfcc harness --enforce-contract F [--apply-loop-contracts --loop-contracts-file]; %s)" % (
            pid, res[0].cmd if res else ""),
        "trusted_base": TRUSTED,
        "functions_under_contract": funcs,
        "back_end": ", ".join(sorted(set("z3" if "--z3" in r.cmd else "cvc5" if "--cvc5" in r.cmd else
                                        "SAT (MiniSat 2, bundled with cbmc)" if "minisat2" in r.cmd else "SAT (CaDiCaL, bundled with cbmc)" for r in res))),
        "solver_time_s": round(sum(r.solver for r in res), 3),
        "units": [dict(unit=r.name, arch=r.arch, obligations=r.obligations, discharged=r.discharged,
                       contract_obligations=r.contract_obl, frame_library_checks=r.library, unwind=r.unwind,
                       bounded=r.bounded or False, solver_s=round(r.solver, 3), wall_s=round(r.wall, 3),
                       vacuity_guards_met=sum(1 for _, m in r.covers if m), vacuity_guards=len(r.covers),
                       **({"note": r.note} if r.note else {}),
                       error=r.error, failed=[describe(x) for x in r.failures]) for r in res],
    }
    if bounded:
        cov["bounded_obligations"] = sum(r.obligations for r in bounded)
        cov["bounded_discharged"] = sum(r.discharged for r in bounded)
        cov["bounds"] = sorted(set(r.bounded for r in bounded))
    if level == "other":
        cov["explanation"] = ("Contract obligations discharged by CBMC within stated bounds (complete below the bound, "
                              "nothing claimed above it): " + "; ".join(sorted(set(r.bounded for r in bounded))))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 3), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def do_manifest():
    from registry import CHECKS, NOT_APPLICABLE, HOOKS
    checks = []
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 vf.py check %s" % pid,
            "thorough_cmd": "python3 vf.py check %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": c.get("technique", "function contracts on the real code, obligations discharged by CBMC within a stated bound (bounded check, not a proof)"
                               if c.get("level") == "other" else "function contracts on the real code discharged by CBMC (dfcc), all inputs"),
            "level": c.get("level", "proof"),
            "level_note": c["note"],
        })
    m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": checks,
         "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
         "notes": "See DESIGN.md. Units are in units/, the registry in lib/registry.py."}
    if HOOKS:
        m["hooks"] = HOOKS
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def do_setup():
    for t in ["cbmc", "goto-cc", "goto-instrument", "z3", "cvc5"] + [a["cc"] for a in ARCHS.values()]:
        if not shutil.which(t):
            print("missing tool: " + t)
            return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    keep = "/tmp/vfkeep" if "--keep" in sys.argv else None
    tier = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
    if not args:
        print(__doc__)
        return 2
    if args[0] == "setup":
        return do_setup()
    if args[0] == "manifest":
        do_manifest()
        return 0
    if args[0] == "check":
        try:
            return do_check(args[1], tier, keep)
        except VfError as e:
            print("error: %s" % e)
            return 2
    if args[0] == "unit":
        from registry import UNITS
        unit = UNITS[args[1]]
        for arch in ([args[2]] if len(args) > 2 else unit["archs"]):
            r = run_unit(args[1], arch, tier, keep)
            print("%s/%s: %d/%d, contract %d, library %d, unwind %d, covers %s, solver %.1f wall %.1f %s" % (
                r.name, arch, r.discharged, r.obligations, r.contract_obl, r.library, r.unwind, r.covers, r.solver, r.wall,
                r.error or ""))
            if r.note:
                print("  note: " + r.note)
            for x in r.failures[:30]:
                print("  FAIL " + describe(x), post_names(args[1], unit, arch, tier, x))
            if r.failures and "--replay" in sys.argv:
                for x in pick(r.failures, 3):
                    inc = c_inputs(inputs_of(x))
                    tmp = tempfile.mkdtemp(prefix="vf_replay_")
                    print(describe(x))
                    print("\n".join(re.sub(r" = \(.*\)0x", " = 0x", l) for l in inc.split("\n") if "0x0ULL" not in l)[:2000])
                    print(replay(unit, arch, tier, inc, tmp))
                    shutil.rmtree(tmp)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
