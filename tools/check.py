#!/usr/bin/env python3
"""Build what a check needs from /repo's current tree and run it.

usage: check.py PID [quick|thorough] [harness arguments]
"""
import fcntl
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
DEFS = " ".join(
    f"-DMQT_CORE_{x}_STATIC_DEFINE"
    for x in "IR QASM DD ZX NA DS ALGORITHMS CIRCUIT_OPTIMIZER".split()
)
BASE = ["ir", "qasm3"]
OPT = [*BASE, "circuit_optimizer"]
DD = [*OPT, "dd"]
ZX = [*OPT, "zx"]
GCC = ("g++", "-O1 -g0 -D_GLIBCXX_ASSERTIONS -DNDEBUG -ffp-contract=off")
GCCDBG = ("g++", "-O1 -g0 -D_GLIBCXX_ASSERTIONS -ffp-contract=off")
GCCRNG = (GCC[0], GCC[1] + f" -include {ROOT}/harness/mcrng.hpp")
ASAN = (
    "clang++",
    "-O1 -g1 -D_GLIBCXX_ASSERTIONS -DNDEBUG -DMC_ASAN -fno-omit-frame-pointer "
    "-fsanitize=address,undefined -fno-sanitize=vptr,function "
    "-fno-sanitize-recover=all -Wno-everything",
)
# property -> list of (harness source, components, toolchain)
CHECKS = {
    "P01": (OPT, GCC),
    "P02": (OPT, GCC),
    "P03": (OPT, GCC),
    "P04": (OPT, GCC),
    "P05": (OPT, GCC),
    "P06": (OPT, GCC),
    "P07": (OPT, GCC),
    "P08": (ZX, GCC),
    "P09": (BASE, ASAN),
    "P10": (OPT, GCC),
    "P11": (DD, GCC),
    "P12": (DD, GCC),
    "P13": (DD, GCCDBG),
    "P14": (DD, GCC),
    "P15": (DD, GCC),
    "P16": (DD, GCC),
    "P17": (DD, GCCRNG),
    "P18": (DD, GCCRNG),
    "P19": (ZX, GCC),
    "P20": (ZX, GCC),
    "P21": (["zx", *OPT], GCC),
    "P22": ([*BASE], GCC),
    "P23": ([*BASE, "datastructures"], GCC),
    "P24": ([*BASE, "na"], GCC),
    "P25": ([*OPT, "algorithms"], GCC),
    "P26": (OPT, GCC),
    "P31": (BASE, GCC),
    "P28": (BASE, ("g++", GCC[1] + " -DMC_MLIR")),
    "P29": (BASE, ("g++", GCC[1] + " -DMC_MLIR")),
}
LLVM = "/usr/lib/llvm-20"
# output name -> (table definition, generator)
TBLGEN = {
    "IR/MQTOptOps.h.inc": ("IR/MQTOptOps.td", "-gen-op-decls"),
    "IR/MQTOptOps.cpp.inc": ("IR/MQTOptOps.td", "-gen-op-defs"),
    "IR/MQTOptOpsDialect.h.inc": (
        "IR/MQTOptOps.td",
        "-gen-dialect-decls -dialect=mqtopt",
    ),
    "IR/MQTOptOpsDialect.cpp.inc": (
        "IR/MQTOptOps.td",
        "-gen-dialect-defs -dialect=mqtopt",
    ),
    "IR/MQTOptOpsTypes.h.inc": (
        "IR/MQTOptOps.td",
        "-gen-typedef-decls -typedefs-dialect=mqtopt",
    ),
    "IR/MQTOptOpsTypes.cpp.inc": (
        "IR/MQTOptOps.td",
        "-gen-typedef-defs -typedefs-dialect=mqtopt",
    ),
    "IR/MQTOptInterfaces.h.inc": (
        "IR/MQTOptInterfaces.td",
        "-gen-op-interface-decls",
    ),
    "IR/MQTOptInterfaces.cpp.inc": (
        "IR/MQTOptInterfaces.td",
        "-gen-op-interface-defs",
    ),
    "Transforms/Passes.h.inc": (
        "Transforms/Passes.td",
        "-gen-pass-decls -name MQTOpt",
    ),
}


def build(pid):
    comps, (cc, flags) = CHECKS[pid]
    variant = {"g++": "gcc", "clang++": "asan"}[cc]
    if (cc, flags) == GCCDBG:
        variant = "gccdbg"
    if "mcrng" in flags:
        variant = "gccrng"
    out = os.path.join(ROOT, "build", variant)
    os.makedirs(os.path.join(out, "obj"), exist_ok=True)
    inc = f"-I{ROOT}/harness/inc -I{ROOT}/harness -I{REPO}/include/mqt-core"
    mlir = "MC_MLIR" in flags
    libs, generated = "-lpthread", []
    if mlir:
        variant_inc = f"{ROOT}/build/mlir/include"
        out = os.path.join(ROOT, "build", "mlir")
        os.makedirs(os.path.join(out, "obj"), exist_ok=True)
        inc += f" -I{variant_inc} -I{REPO}/mlir/include -isystem {LLVM}/include"
        libs += f" -L{LLVM}/lib -Wl,-rpath,{LLVM}/lib -lMLIR -lLLVM"
    lines = [
        "ninja_required_version = 1.3",
        "rule cxx",
        f"  command = {cc} -std=c++17 {flags} {DEFS} {inc} -MD -MF $out.d "
        "-c $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule link",
        f"  command = {cc} {flags} $in -o $out {libs}",
        "rule tblgen",
        f"  command = {LLVM}/bin/mlir-tblgen $mode -I {LLVM}/include "
        f"-I {REPO}/mlir/include $in -o $out -d $out.d",
        "  depfile = $out.d",
        "  deps = gcc",
    ]
    if mlir:
        sub = "mlir/Dialect/MQTOpt"
        for name, (td, mode) in TBLGEN.items():
            o = f"{variant_inc}/{sub}/{name}"
            os.makedirs(os.path.dirname(o), exist_ok=True)
            lines.append(f"build {o}: tblgen {REPO}/mlir/include/{sub}/{td}")
            lines.append(f"  mode = {mode}")
            generated.append(o)
    objs = []
    # largest files first: shortens the parallel build
    srcs = []
    for c in dict.fromkeys(comps):
        srcs += glob.glob(f"{REPO}/src/{c}/**/*.cpp", recursive=True)
    srcs.sort(key=lambda s: -os.path.getsize(s))
    if mlir:
        srcs += glob.glob(f"{REPO}/mlir/lib/Dialect/**/*.cpp", recursive=True)
    main = f"{ROOT}/harness/{pid}.cpp"
    order = f" || {' '.join(generated)}" if generated else ""
    for s in [main, *srcs]:
        tag = os.path.relpath(s, REPO if s != main else ROOT).replace("/", "_")
        o = f"{out}/obj/{tag}.o"
        lines.append(f"build {o}: cxx {s}{order}")
        objs.append(o)
    exe = f"{out}/{pid}"
    lines.append(f"build {exe}: link {' '.join(objs)}")
    lines.append(f"default {exe}")
    lines.append("")
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nf = os.path.join(out, f"{pid}.ninja")
        with open(nf, "w") as f:
            f.write("\n".join(lines))
        # one log per check so that different checks do not rewrite it
        r = subprocess.run(
            ["ninja", "-C", out, "-f", nf, "-j", "8"],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print(f"BUILD-FAILED property={pid}")
        sys.exit(2)
    return exe


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    os.chdir(ROOT)
    env = dict(os.environ)
    env["VERIF_ROOT"] = ROOT
    env["MC_REPO"] = REPO
    env.setdefault("VERIF_SEED", "1")
    env["ASAN_OPTIONS"] = (
        "detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:"
        "max_allocation_size_mb=2048:handle_abort=1:abort_on_error=0"
    )
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    script = f"{ROOT}/harness/{pid}.py"
    if os.path.exists(script):
        sys.exit(subprocess.call([sys.executable, script, tier, *args], env=env))
    exe = build(pid)
    if args == ["build"]:
        print(exe)
        return
    sys.exit(
        subprocess.call(
            [exe, *(["thorough"] if tier == "thorough" else []), *args], env=env
        )
    )


if __name__ == "__main__":
    main()
