"""Builds instrumented variants of blend2d from /repo's working tree, with harnesses, into /verif/.build."""
import fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ("-std=c++17 -I{repo} -DBL_STATIC -DBL_BUILD_NO_JIT -DBL_BUILD_OPT_AVX512 -DBL_VERIF_HOOKS -w "
          "-fno-math-errno -fno-threadsafe-statics -fno-trapping-math -g1 -fno-omit-frame-pointer -pthread")
LIBONLY = "-fno-exceptions -fno-rtti"

ASAN = ("-fsanitize=address,bounds,shift,integer-divide-by-zero,unreachable,signed-integer-overflow "
        "-fno-sanitize-recover=all "
        "-fno-sanitize-address-use-after-scope -mllvm -asan-instrumentation-with-call-threshold=0")
# The three largest translation units would dominate the build time with full UBSan diagnostics.
ASAN_HEAVY = "-fno-sanitize=bounds -fsanitize-trap=undefined"
HEAVY = ("rastercontextops", "fixedpiperuntime", "otlayout")

VARIANTS = {
    # name: (compiler, lib flags, heavy flags, harness flags, link flags)
    "asan": ("clang++", "-O1 " + ASAN, ASAN_HEAVY, "-O1 -fsanitize=address -fno-sanitize-address-use-after-scope", "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -fsanitize=thread", "", "-O1 -fsanitize=thread", "-fsanitize=thread"),
    "msan": ("clang++", "-O1 -fsanitize=memory -fsanitize-memory-track-origins=0", "", "-O1 -fsanitize=memory -fsanitize-ignorelist=" + VERIF + "/harness/msan.ignore", "-fsanitize=memory"),
    "plain": ("clang++", "-O1", "", "-O2", ""),
    "gcc": ("g++", "-O2", "", "-O2", ""),
}

ORDER = ["rastercontextops", "fixedpiperuntime", "rastercontext", "otlayout", "pathstroke", "otcmap", "otcff",
         "context", "path", "pixelconverter", "jpegcodec"]


def lib_sources():
    out = []
    for p in glob.glob(REPO + "/blend2d/**/*.cpp", recursive=True):
        b = os.path.basename(p)
        if b.endswith("_test.cpp") or "/jit/" in p:
            continue
        out.append(p)
    def key(p):
        b = os.path.basename(p)[:-4]
        return (ORDER.index(b) if b in ORDER else 99, p)
    return sorted(out, key=key)


def simd_flags(path):
    b = os.path.basename(path)[:-4]
    if b.endswith("_avx512"):
        return "-mpopcnt -mpclmul -mbmi -mbmi2 -mavx512f -mavx512bw -mavx512cd -mavx512dq -mavx512vl -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2"
    if b.endswith("_avx2"):
        return "-mpopcnt -mpclmul -mbmi -mbmi2 -mavx2 -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2"
    if b.endswith("_avx"):
        return "-mpopcnt -mpclmul -mavx"
    if b.endswith("_sse4_2"):
        return "-mpopcnt -mpclmul -msse4.2"
    if b.endswith("_ssse3"):
        return "-mssse3"
    if b.endswith("_sse2"):
        return "-msse2"
    return ""


def build(variant, harness, wraps=(), libs="", harness_flags=""):
    """Returns path of the harness executable. Raises on failure."""
    cc, lflags, heavy, hflags, link = VARIANTS[variant]
    vdir = os.path.join(BUILD, variant)
    os.makedirs(vdir, exist_ok=True)
    hname = os.path.basename(harness)[:-4]
    exe = os.path.join(vdir, hname)
    common = COMMON.format(repo=REPO)
    n = []
    n.append("ninja_required_version = 1.5")
    n.append("rule cxx\n  command = %s $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % cc)
    n.append("rule ar\n  command = rm -f $out && ar crT $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in")
    n.append("rule link\n  command = %s $in -o $out $flags" % cc)
    hobj = exe + ".o"
    n.append("build %s: cxx %s\n  flags = %s %s -I%s/harness %s" % (hobj, harness, common, hflags, VERIF, harness_flags))
    objs = []
    for p in lib_sources():
        o = os.path.join(vdir, "lib", os.path.relpath(p, REPO).replace("/", "_") + ".o")
        b = os.path.basename(p)[:-4]
        f = " ".join([common, LIBONLY, lflags, heavy if b in HEAVY else "", simd_flags(p)])
        n.append("build %s: cxx %s\n  flags = %s" % (o, p, f))
        objs.append(o)
    lf = link + " -pthread -lrt " + " ".join("-Wl,--wrap=" + w for w in wraps) + " " + libs
    n.append("build %s: link %s %s\n  flags = %s" % (exe, hobj, " ".join(objs), lf))
    nf = os.path.join(vdir, hname + ".ninja")
    lock = open(os.path.join(vdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with open(nf, "w") as fh:
            fh.write("builddir = %s\n" % vdir + "\n".join(n) + "\n")
        r = subprocess.run(["ninja", "-f", nf, "-C", vdir, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            raise SystemExit(2)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], os.path.abspath(sys.argv[2])))
