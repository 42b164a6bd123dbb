#!/usr/bin/env python3
"""Builds harnesses of /verif/harness against the library sources of /repo's working tree.

XKCP's own build description (Makefile.build and the .build files it includes) is interpreted here: a <fragment> lists
C and assembly sources, headers, config symbols, defines and compiler flags, and may inherit other fragments.  A
"target" is a list of low-level fragments; a harness adds the high-level fragments it needs.  Nothing is written
in /repo: everything goes to /verif/build (ignored by git), driven by ninja so that a changed source is recompiled.
"""
import concurrent.futures, hashlib, os, subprocess, sys, fcntl
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XKCP_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
XI = "{http://www.w3.org/2001/XInclude}include"

#: The cross toolchains have no C++ compiler: harnesses are compiled by clang with the host's C++ headers and linked with shim.cpp.
CLANG = ("clang++ --target={0} --sysroot=/usr/{0} -nostdinc++ -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/{0}/include"
         " -fno-exceptions -fno-rtti -fno-threadsafe-statics -D_GLIBCXX_EXTERN_TEMPLATE=0")
TOOLS = {  # C compiler, C++ compiler (None: C harness only), flags, link flags, run prefix
    "x86": ("gcc", "g++", "-fPIC", "", []),
    "i686": ("i686-linux-gnu-gcc", CLANG.format("i686-linux-gnu"), "-msse2", "-static", []),
    "armv6": ("arm-linux-gnueabi-gcc", CLANG.format("arm-linux-gnueabi"), "-march=armv6 -mtune=arm1136j-s", "-static", ["qemu-arm-static"]),
    "armv7a": ("arm-linux-gnueabi-gcc", CLANG.format("arm-linux-gnueabi"), "-march=armv7-a -mtune=cortex-a15", "-static", ["qemu-arm-static"]),
    "aarch64": ("aarch64-linux-gnu-gcc", CLANG.format("aarch64-linux-gnu"), "-march=armv8.6-a -mtune=cortex-a75", "-static", ["qemu-aarch64-static"]),
    "cortex-m0": ("arm-none-eabi-gcc", None, "-march=armv6-m -mtune=cortex-m0 -specs=picolibc.specs", f"--oslib=semihost -T{REPO}/CI/cortexm_layout.ld",
                  ["qemu-system-arm", "-semihosting-config", "enable=on", "-monitor", "none", "-serial", "none", "-nographic", "-machine", "mps2-an385,accel=tcg", "-no-reboot", "-kernel"]),
    "cortex-m3": ("arm-none-eabi-gcc", None, "-march=armv7-m -mtune=cortex-m3 -specs=picolibc.specs", f"--oslib=semihost -T{REPO}/CI/cortexm_layout.ld",
                  ["qemu-system-arm", "-semihosting-config", "enable=on", "-monitor", "none", "-serial", "none", "-nographic", "-machine", "mps2-an385,accel=tcg", "-no-reboot", "-kernel"]),
}
X86 = "reference reference32bits compact generic32 generic64 generic64lc SSSE3 AVX AVX2 AVX2noAsm AVX512 AVX512noAsm".split()
#: low-level implementations that no complete target selects, paired with what they need to link
EXTRA = {
    "opt64-u6": ["K1600-plain-64bits-u6", "Xoodoo-plain-ua"],
    "opt64-lcu6": ["K1600-plain-64bits-lcu6", "Xoodoo-plain-ua"],
    "x86-64": ["K1600-x86-64", "Xoodoo-plain-ua"],
    "x86-64-shld": ["K1600-x86-64-shld", "Xoodoo-plain-ua"],
    "AVX512-u4": ["K1600-AVX512-C", "K1600x2-AVX512-u4", "K1600x4-AVX512-u4", "K1600x8-AVX512-u12", "Xoodoo-AVX512", "Xoodoox4-AVX512", "Xoodoox8-AVX512", "Xoodoox16-AVX512"],
    "AVX512-ua": ["K1600-AVX512", "K1600x2-AVX512-ua", "K1600x4-AVX512-ua", "K1600x8-AVX512-ua", "Xoodoo-AVX512", "Xoodoox4-AVX512", "Xoodoox8-AVX512", "Xoodoox16-AVX512"],
    "AVX2-u6": ["K1600-AVX2", "K1600x2-SSSE3-ua", "K1600x4-AVX2-u6", "Xoodoo-SSE2", "Xoodoox4-SSSE3"],
    "ARMv6M-inplace": ["K1600-ARMv6M-inplace", "Xoodoo-ARMv6M"],
    "ARMv6M-u1": ["K1600-ARMv6M-u1", "Xoodoo-ARMv6M"],
    "ARMv8A-asm": ["K1600-ARMv8A", "Xoodoo-plain-ua"],
    # vector code in 32-bit x86 builds (the assembly is for 64 bits only)
    "AVX2-32": ["K1600-plain-64bits-ua", "K1600x2-SSSE3-u2", "K1600x4-AVX2-u12", "Xoodoo-SSE2", "Xoodoox4-SSSE3", "Xoodoox8-AVX2"],
    "AVX512-32": ["K1600-AVX512-C", "K1600x2-AVX512-u12", "K1600x4-AVX512-u12", "K1600x8-AVX512-u12", "Xoodoo-AVX512", "Xoodoox4-AVX512", "Xoodoox8-AVX512", "Xoodoox16-AVX512"],
    "XOP": ["XOP"],   # with the two XOP instructions in terms of SSE2 (harness/xop)
    "XOP-u6": ["K1600-XOP-u6", "K1600x2-XOP-u2", "Xoodoo-SSE2", "Xoodoox4-SSSE3"],
    "AVX2-ua": ["K1600-AVX2", "K1600x2-SSSE3-ua", "K1600x4-AVX2-ua", "Xoodoo-SSE2", "Xoodoox4-SSSE3", "Xoodoox8-AVX2"],
}
NEEDS = (("AVX512", ("avx512f", "avx512vl")), ("AVX2", ("avx2",)), ("AVX", ("ssse3",)), ("SSSE3", ("ssse3",)), ("XOP", ("ssse3", "sse4_1")))

def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

CPU = cpu_flags()

def runs_here(target):
    if target.startswith("ARM"):
        return False
    return all(all(f in CPU for f in fl) for word, fl in NEEDS if word in target)

def fragments():
    found = {}
    def walk(node):
        for child in node:
            if child.tag == XI:
                walk(ET.parse(f"{REPO}/{child.get('href')}").getroot())
            elif child.tag == "fragment":
                found[child.get("name")] = child
            else:
                walk(child)
    walk(ET.parse(f"{REPO}/Makefile.build").getroot())
    return found

_FR = None
def resolve(names):
    global _FR
    if _FR is None:
        _FR = fragments()
    seen, out = set(), []
    def visit(name):
        if name in seen:
            return
        seen.add(name)
        node = _FR[name]
        for parent in (node.get("inherits") or "").split():
            visit(parent)
        for e in node:
            if isinstance(e.tag, str):
                item = (e.tag, (e.text or "").strip(), e.get("gcc") or "")
                if item not in out:
                    out.append(item)
    for n in names:
        visit(n)
    return out

#: selections of low-level implementations made up by a check
MIX = {}
def low_fragments(target):
    return MIX.get(target) or EXTRA.get(target, [target])

class Ninja:
    """Collects build edges for one check and runs ninja on them."""
    def __init__(self, name):
        self.name = name
        self.dir = BUILD
        self.lines = ["builddir = " + BUILD,
                      "rule cc", "  command = $cc $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
                      "rule asm", "  command = $cc $flags -c $in -o $out",
                      "rule ar", "  command = rm -f $out && ar rcs $out $in",
                      "rule sh", "  command = $cmd",
                      "rule link", "  command = $cc -o $out $in $flags"]
        self.seen, self.defaults = set(), []

    def edge(self, out, rule, ins, **kw):
        if out in self.seen:
            return
        self.seen.add(out)
        esc = lambda s: s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")
        self.lines.append(f"build {esc(out)}: {rule} {' '.join(map(esc, ins))}")
        self.lines.extend(f"  {k} = {v}" for k, v in kw.items() if v)

    def lib_objects(self, tool, target, high, extra_flags="", keep=lambda src: True):
        """Objects of the library for (tool, target, high fragments); returns (objects, harness compile flags)."""
        cc, _, tflags, _, _ = TOOLS[tool]
        items = resolve(list(high) + low_fragments(target))
        config = "".join(f"#define {t}\n" for tag, t, _ in items if tag == "config")
        gcc = [t for tag, t, _ in items if tag == "gcc" and not t.endswith("=native") and not t.startswith("-l")]
        gas = [t for tag, t, _ in items if tag == "gas"]
        dirs = list(dict.fromkeys(os.path.dirname(t) for tag, t, _ in items if tag in ("h", "inc")))
        defines = [f"-D{t}" for tag, t, _ in items if tag == "define"]
        conf = f"{self.dir}/obj/{tool}/{target}/{hashlib.sha1((config+repr(dirs)).encode()).hexdigest()[:8]}"
        os.makedirs(conf, exist_ok=True)
        cpath = f"{conf}/config.h"
        if not os.path.exists(cpath) or open(cpath).read() != config:
            open(cpath, "w").write(config)
        incs = " ".join([f"-I{conf}", *(f"-I{REPO}/{d}" for d in dirs)])
        objs = []
        for tag, src, own in items:
            if tag not in ("c", "s") or not keep(src):
                continue
            if tag == "c":
                own = own.replace("-mxop", f"-mssse3 -msse4.1 -I{VERIF}/harness/xop")
                flags = " ".join([*gcc, own, *defines, tflags, incs, "-w", extra_flags])
            else:
                flags = " ".join(["-x assembler", *gas, tflags])
            obj = f"{conf}/{src.replace('/', '_')}.{hashlib.sha1(flags.encode()).hexdigest()[:8]}.o"
            self.edge(obj, "cc" if tag == "c" else "asm", [f"{REPO}/{src}"], cc=cc, flags=flags)
            objs.append(obj)
        simd = " ".join(f for f in gcc if f.startswith("-m"))
        return objs, " ".join([simd, *defines, tflags, incs, "-w"])

    def harness(self, src, tool, target, high, variant="", hflags="", lflags="", extra_flags="", opt="-O2 -funroll-loops", cxx=True, objs_extra=(), keep=lambda s: True, shared=False):
        cc, cxxc, _, ldflags, _ = TOOLS[tool]
        objs, flags = self.lib_objects(tool, target, high, extra_flags, keep)
        comp = cxxc if cxx else cc
        if comp.startswith("clang") and cxx:
            shim = f"{self.dir}/harness/{tool}/shim.o"
            self.edge(shim, "cc", [f"{VERIF}/harness/shim.cpp"], cc=comp, flags="-O2 -std=c++17 -w")
            objs_extra = [*objs_extra, shim]
            flags = " ".join(f for f in flags.split() if not f.startswith("-mtune"))
        std = "-std=c++17 -fpermissive" if cxx else "-std=gnu99"
        f = f"{opt} {std} {flags} -I{VERIF}/harness {hflags}"
        h = hashlib.sha1((f + repr(high) + lflags + extra_flags).encode()).hexdigest()[:8]
        base = os.path.splitext(os.path.basename(src))[0]
        obj = f"{self.dir}/harness/{tool}/{target}/{base}{variant}.{h}.o"
        out = f"{self.dir}/bin/{tool}/{target}/{base}{variant}.{h}"
        self.edge(obj, "cc", [f"{VERIF}/harness/{src}"], cc=comp, flags=f)
        if shared:   # the library as a shared object of its own
            so = f"{self.dir}/bin/{tool}/{target}/{h}/libxkcp.so"
            self.edge(so, "link", objs, cc=comp, flags="-shared -Wl,-z,relro,-z,now -Wl,-Bsymbolic " + lflags)
            objs = [so]
        self.edge(out, "link", [obj, *objs_extra, *objs], cc=cc if comp.startswith("clang") else comp, flags=" ".join([ldflags, lflags]))
        self.defaults.append(out)
        return out

    def mix(self, src, variant, hflags, high, low):
        """A harness compiled once (-DROOMY) and align.c compiled with the selection's headers, linked with the services named by high and the low-level implementations named by low."""
        name = "+".join(low)
        MIX[name] = list(low)
        _, flags = self.lib_objects("x86", "generic64", high, keep=lambda s: False)
        f = f"-O2 -std=c++17 -fpermissive {flags} -I{VERIF}/harness -DROOMY {hflags}"
        h = hashlib.sha1(f.encode()).hexdigest()[:8]
        base = os.path.splitext(src)[0] + variant
        obj = f"{self.dir}/harness/mix/{base}.{h}.o"
        self.edge(obj, "cc", [f"{VERIF}/harness/{src}"], cc="g++", flags=f)
        objs = [obj, *self.lib_objects("x86", name, high, extra_flags="-O1", keep=lambda s: not s.startswith("lib/low/"))[0]]
        _, flags = self.lib_objects("x86", name, high, keep=lambda s: False)
        f = f"-O1 -w {flags} {hflags or {'c03': '-DSP800'}.get(base, '')}"
        aobj = f"{self.dir}/harness/mix/align.{hashlib.sha1(f.encode()).hexdigest()[:10]}.o"
        self.edge(aobj, "cc", [f"{VERIF}/harness/align.c"], cc="gcc", flags=f)
        objs.append(aobj)
        for l in low:     # compiled once each; the parallel implementations of Xoodoo need the headers of the serial one
            with_ = [low[0]] if low[0].startswith("Xoodoo-") and l != low[0] else []
            only = "only-" + "-".join([l, *with_])
            MIX[only] = [l, *with_]
            own = {t for tag, t, _ in resolve([l]) if tag in ("c", "s") and t.startswith("lib/low/")}
            objs += self.lib_objects("x86", only, ["common"], keep=lambda s: s in own)[0]
        out = f"{self.dir}/bin/mix/{name}/{base}.{h}"
        self.edge(out, "link", list(dict.fromkeys(objs)), cc="g++")
        self.defaults.append(out)
        return out

    def run(self, jobs=None, optional=()):
        """Builds everything; exits with 2 when something required does not build.  Outputs listed in optional (low-level
        variants which no shipped target selects) may fail: those are returned."""
        os.makedirs(self.dir, exist_ok=True)
        path = f"{self.dir}/{self.name}.ninja"
        with open(path, "w") as f:
            f.write("\n".join(self.lines) + "\ndefault " + " ".join(dict.fromkeys(self.defaults)) + "\n")
        def ninja(*args):
            return subprocess.run(["ninja", "-f", path, *(["-j", str(jobs)] if jobs else []), *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with open(f"{self.dir}/.lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            p = ninja()
            if p.returncode == 0:
                return []
            failed = []
            ninja("-k", "0")
            with concurrent.futures.ThreadPoolExecutor(8) as ex:      # what is still to be done
                todo = [o for o, q in ex.map(lambda o: (o, ninja("-n", o)), dict.fromkeys(self.defaults)) if "no work to do" not in q.stdout]
            for out in todo:
                q = ninja(out)
                if q.returncode == 0:
                    continue
                if out in optional:
                    failed.append(out)
                    continue
                lines = q.stdout.splitlines()
                keep = [l[:400] for l in lines if "error" in l or "undefined" in l or "FAILED" in l][:40]
                sys.stderr.write("\n".join(keep) + "\n")
                raise SystemExit(2)
            return failed
