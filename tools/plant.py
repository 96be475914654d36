#!/usr/bin/env python3
"""Writes one planted bug: plant.py ID SPEC.json, where SPEC has property, needs, what_it_breaks, edits [[file, old, new]...],
arch and demo (C source of the demonstration, compiled with the named sources). The scratch copy is removed afterwards."""
import json, os, subprocess, sys, tempfile, shutil
CC = {"x86_64": "gcc", "i686": "gcc -m32", "aarch64": "aarch64-linux-gnu-gcc -static", "armv7": "arm-linux-gnueabihf-gcc -static",
      "riscv64": "riscv64-linux-gnu-gcc -static"}
RUN = {"x86_64": "", "i686": "", "aarch64": "qemu-aarch64 ", "armv7": "qemu-arm ", "riscv64": "qemu-riscv64 "}
def main():
    bug, spec = sys.argv[1], json.load(open(sys.argv[2]))
    out = os.path.join("/verif/seeded", bug)
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in spec["edits"]:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                sys.exit(f"{bug}: pattern occurs {n} times in {f}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
        open(out + "/meta.json", "a").write("\n")
        a = spec.get("arch", "x86_64")
        open(out + "/demo.c", "w").write(spec["demo"])
        open(out + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: behaves as documented; non-zero: does not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
{CC[a]} -std=gnu99 -D_GNU_SOURCE=1 -DCPUINFO_LOG_LEVEL=1 -w -Iinclude -Isrc -Ideps/clog/include {spec.get("flags", "")} "$here/demo.c" {spec.get("sources", "")} -o "$work/demo" || exit 2
{RUN[a]}{spec.get("wrap", "timeout 60 ")}"$work/demo"
''' if a in ("x86_64", "i686") else f'''#!/bin/bash
# exit 0: behaves as documented; non-zero: does not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
{CC[a]} -std=gnu99 -D_GNU_SOURCE=1 -DCPUINFO_LOG_LEVEL=1 -w -Iinclude -Isrc -Ideps/clog/include {spec.get("flags", "")} "$here/demo.c" {spec.get("sources", "")} -o "$work/demo" || exit 2
timeout 60 {RUN[a]}"$work/demo"
''')
        os.chmod(out + "/demo.sh", 0o755)
        for d, want in (("/repo", 0), (tmp + "/r", 1)):
            r = subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
            ok = (r.returncode == 0) if want == 0 else (r.returncode not in (0, 2))
            print(bug, "unchanged" if want == 0 else "patched", "exit", r.returncode, "ok" if ok else "WRONG", (r.stdout + r.stderr)[-300:].strip())
    finally:
        shutil.rmtree(tmp)
main()
