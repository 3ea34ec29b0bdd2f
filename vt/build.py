"""Compile /repo's current working tree (and the harnesses) outside /repo.

Objects are cached by content (source text, every header of the tree, flags),
so an edit of any kind in /repo is always picked up.
"""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

INCS = ["lib", "lib-platform", "lib-platform/crypto", "lib-platform/util",
        "lib/crypto", "lib/scryptenc", "lib/util", "libcperciva/alg",
        "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/util"]
SRCDIRS = ["lib/crypto", "lib/scryptenc", "lib/util", "lib-platform/crypto",
           "lib-platform/util", "libcperciva/alg", "libcperciva/cpusupport",
           "libcperciva/crypto", "libcperciva/util"]
SKIP = {"crypto_aesctr_shared.c", "crypto_scrypt-ref.c"}
FILEFLAGS = {
    "crypto_aes_aesni.c": ["-maes"], "crypto_aesctr_aesni.c": ["-maes"],
    "crypto_entropy_rdrand.c": ["-mrdrnd"],
    "sha256_shani.c": ["-msse2", "-msha", "-mssse3"],
}
DEFS = ["-DHAVE_CONFIG_H", '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"',
        '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"',
        "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
# zero-length memcpy/memset with NULL is harmless and not what is looked for;
# the harness itself only gets the address sanitizer
SAN += ["-fno-sanitize=nonnull-attribute,pointer-overflow"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (cc, cxx, config dir, C flags, C++ flags, link flags)
    "prod": ("gcc", "g++", "std", ["-O2", "-g", "-Wall"], ["-O2", "-g"], []),
    "nommap": ("gcc", "g++", "nommap", ["-O2", "-g", "-Wall"], ["-O2", "-g"], []),
    "san": ("clang", "clang++", "std", ["-O1", "-g", "-ftrivial-auto-var-init=pattern"] + SAN, ["-O1", "-g"] + ASAN, SAN),
    "fuzz": ("clang", "clang++", "std",
             ["-O1", "-g", "-fsanitize=fuzzer-no-link"] + SAN,
             ["-O1", "-g", "-DPT_FUZZ"] + ASAN, ["-fsanitize=fuzzer"] + SAN),
}


# Calls of the tree that go to harness/mock.cpp instead (renamed in the object
# files rather than with ld --wrap, so that the sanitizer runtime is unaffected).
WRAPS = """malloc calloc realloc free posix_memalign aligned_alloc strdup strndup generate_seed_rdrand mmap munmap
open read __read_chk close clock_gettime clock_getres gettimeofday getrlimit sysconf sysinfo
syslog __syslog_chk closelog fopen fclose tcgetattr tcsetattr isatty crypto_scrypt
cpusupport_x86_aesni_detect_1 cpusupport_x86_rdrand_detect_1 cpusupport_x86_shani_detect_1
cpusupport_x86_sse2_detect_1 cpusupport_x86_ssse3_detect_1""".split()


# Additionally, for harnesses that run main() themselves ("@main").
MAINWRAPS = """exit scryptenc_file scryptdec_file scryptdec_file_prep scryptdec_file_copy
scryptdec_file_cookie_free scryptdec_file_printparams passphrase_entry_readpass""".split()


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    out = []
    for d in SRCDIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.c"))):
            if os.path.basename(f) not in SKIP:
                out.append(f)
    return out


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        parts = []
        for d in ["."] + INCS:
            for f in sorted(glob.glob(os.path.join(REPO, d, "*.h")) +
                            glob.glob(os.path.join(REPO, d, "*_shared.c"))):
                parts += [f, read(f)]
        for f in sorted(glob.glob(os.path.join(VERIF, "config", "*", "*.h"))):
            parts += [f, read(f)]
        _hdr = _hash(*parts)
    return _hdr


def _obj(cmd, src, extra="", wrap=False):
    """Compile one file with content caching; returns the object path."""
    wraps = WRAPS + (MAINWRAPS if wrap == "main" else []) if wrap else []
    key = _hash(" ".join(cmd), src, read(src), extra, " ".join(wraps))
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(o):
        os.utime(o)
        return o, None
    tmp = o + ".tmp%d" % os.getpid()
    rc, out = sh(cmd + ["-c", "-o", tmp, src])
    if rc:
        return None, "compiling %s failed:\n%s" % (src, out[-4000:])
    if wrap:
        rc, out = sh(["nm", "-u", tmp])
        und = {l.split()[-1] for l in out.splitlines() if l.strip()}
        args = []
        for w in wraps:
            if w in und:
                args += ["--redefine-sym", "%s=__wrap_%s" % (w, w)]
        if wrap == "main" and os.path.basename(src) == "main.c":
            args += ["--redefine-sym", "main=scrypt_main"]
        if args:
            rc, out = sh(["objcopy"] + args + [tmp])
            if rc:
                return None, "objcopy %s failed:\n%s" % (src, out[-4000:])
    os.rename(tmp, o)
    return o, None


def _gc():
    d = os.path.join(BUILD, "obj")
    try:
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        fs.sort(key=os.path.getmtime)
        for f in fs[:-800]:
            os.unlink(f)
        d = os.path.join(BUILD, "bin")
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        fs.sort(key=os.path.getmtime)
        for f in fs[:-60]:
            os.unlink(f)
    except OSError:
        pass


def repo_objs(variant, with_main=False, wrap=True):
    cc, cxx, cfg, cfl, cxxfl, lfl = VARIANTS[variant]
    base = [cc] + DEFS + ["-I" + os.path.join(VERIF, "config", cfg), "-I" + REPO] + \
        ["-I" + os.path.join(REPO, i) for i in INCS] + cfl
    jobs = [(base + FILEFLAGS.get(os.path.basename(s), []), s, header_hash(), wrap)
            for s in repo_sources()]
    if with_main:
        jobs.append((base, os.path.join(REPO, "main.c"), header_hash(), wrap))
    return jobs


HINCS = ["-I" + os.path.join(VERIF, "harness")]


def harness_hash():
    return _hash(*[read(f) for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))])


def harness_jobs(variant, files):
    cc, cxx, cfg, cfl, cxxfl, lfl = VARIANTS[variant]
    ex = header_hash() + harness_hash()
    jobs = []
    for f in files:
        p = os.path.join(VERIF, "harness", f)
        fl = cxxfl
        if f.endswith(".c"):
            jobs.append(([cc] + DEFS + ["-I" + os.path.join(VERIF, "config", cfg), "-I" + REPO] +
                         ["-I" + os.path.join(REPO, i) for i in INCS] + cfl + ["-w"], p, ex))
            continue
        if f == "ref.cpp":      # the reference is never instrumented
            fl = ["-O3", "-g", "-Wno-deprecated-declarations"]
        cmd = [cxx, "-std=c++17", "-w"] + fl + HINCS + \
            (["-I" + os.path.join(VERIF, "config", cfg)] +
             ["-I" + REPO] + ["-I" + os.path.join(REPO, i) for i in INCS]
             if f != "ref.cpp" else [])
        jobs.append((cmd, p, ex))
    return jobs


def build(targets):
    """targets: list of (name, variant, [harness files]) or ("scrypt", variant, None).
    Returns {name: path}."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    plan = []
    alljobs = {}
    for name, variant, files in targets:
        atmain = files is not None and "@main" in files
        js = repo_objs(variant, with_main=files is None or atmain,
                       wrap="main" if atmain else files is not None)
        if files is not None:
            files = [f for f in files if f != "@main"]
            js = js + harness_jobs(variant, files + ["mock.cpp", "ref.cpp"])
        plan.append((name, variant, files, js))
        for j in js:
            alljobs[(tuple(j[0]), j[1], j[3:])] = j
    res = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # big C++ first
        ks = sorted(alljobs, key=lambda k: (0 if k[1].endswith("cpp") else 1))
        futs = {k: ex.submit(_obj, *alljobs[k]) for k in ks}
        for k, f in futs.items():
            o, err = f.result()
            if err:
                raise BuildError(err)
            res[k] = o
    out = {}
    links = []
    for name, variant, files, js in plan:
        cc, cxx, cfg, cfl, cxxfl, lfl = VARIANTS[variant]
        objs = [res[(tuple(j[0]), j[1], j[3:])] for j in js]
        key = _hash(name, variant, *objs)
        b = os.path.join(BUILD, "bin", name + "." + key)
        out[name] = b
        if os.path.exists(b):
            os.utime(b)
            continue
        cmd = [cxx if files is not None else cc] + lfl + ["-o", b + ".tmp%d" % os.getpid()] + objs
        cmd += ["-lrt", "-lcrypto", "-lpthread", "-ldl"]
        links.append((cmd, b))

    def dolink(l):
        cmd, b = l
        rc, o = sh(cmd)
        if rc:
            return "linking %s failed:\n%s" % (b, o[-4000:])
        os.rename(b + ".tmp%d" % os.getpid(), b)
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for e in ex.map(dolink, links):
            if e:
                raise BuildError(e)
    _gc()
    return out


def build_shim(name="shim"):
    """LD_PRELOAD fault-injection library for the command-line checks."""
    src = os.path.join(VERIF, "harness", name + ".c")
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    b = os.path.join(BUILD, "bin", name + "." + _hash(read(src)) + ".so")
    if not os.path.exists(b):
        tmp = b + ".tmp%d" % os.getpid()
        rc, o = sh(["gcc", "-O1", "-g", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
        if rc:
            raise BuildError(o)
        os.rename(tmp, b)
    return b
