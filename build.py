#!/usr/bin/env python3
"""Content-hash based builds of the library (from /repo's working tree) and of
the harness, in /verif/build/<flavour>.  Nothing is written in /repo."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
ENV = {k: v for k, v in os.environ.items() if k not in ("LD_LIBRARY_PATH", "CFLAGS", "CPPFLAGS", "CXXFLAGS", "CPATH", "C_INCLUDE_PATH")}
ENV["LC_ALL"] = "C.UTF-8"
INC = ["-I" + os.path.join(HARN, "cfg"), "-I" + REPO, "-I" + REPO + "/include"]

FLAVOURS = {
    # semantic checks: plain optimised build
    "fast": dict(cc="gcc", cxx="g++", cflags=["-O2", "-g1"], cxxflags=["-O1", "-g1"], ld=[]),
    # memory checks
    "asan": dict(cc="clang", cxx="clang++",
                 cflags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=function,pointer-overflow,null", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 cxxflags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=function,pointer-overflow,null", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined"]),
    "tsan": dict(cc="clang", cxx="clang++", cflags=["-O1", "-g1", "-fsanitize=thread"],
                 cxxflags=["-O1", "-g1", "-fsanitize=thread"], ld=["-fsanitize=thread"]),
    "fuzz": dict(cc="clang", cxx="clang++",
                 cflags=["-O1", "-g1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=function,pointer-overflow,null", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 cxxflags=["-O1", "-g1", "-DVP_LIBFUZZER", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=function,pointer-overflow,null", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined,fuzzer"]),
    "dbg": dict(cc="clang", cxx="clang++", cflags=["-O0", "-g"], cxxflags=["-O0", "-g"], ld=[]),
    "cov": dict(cc="gcc", cxx="g++", cflags=["-O0", "-g1", "--coverage"], cxxflags=["-O1", "-g1"], ld=["--coverage"]),
}


class BuildError(Exception):
    pass


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha256(f.read()).hexdigest()
    return cache[key]


def lib_sources():
    """The library's C files, from libisl_la_SOURCES and the GMP MP_SRC."""
    text = open(REPO + "/Makefile.am").read().replace("\\\n", " ")
    m = re.search(r"^libisl_la_SOURCES = (.*)$", text, re.M)
    srcs = [w for w in m[1].split() if w.endswith(".c")]
    srcs += ["isl_gmp.c", "isl_val_gmp.c"]
    return [s for s in dict.fromkeys(srcs) if os.path.exists(f"{REPO}/{s}")]


def compile_one(cmd, src, obj):
    """Compiles src to obj unless flags and all dependencies are unchanged."""
    state_file = obj + ".state"
    key = hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    try:
        st = json.load(open(state_file))
        if st["key"] == key and os.path.exists(obj) and all(sha(p) == h for p, h in st["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    dep = obj + ".d"
    p = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj], env=ENV, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(f"compiling {src} failed:\n{chr(10).join([l for l in p.stderr.splitlines() if " error: " in l][:20])}\n{p.stderr[-3000:]}")
    text = open(dep).read().replace("\\\n", " ")
    deps = [d for d in text.split(":", 1)[1].split() if not d.startswith("/usr/")]
    json.dump({"key": key, "deps": {os.path.abspath(d): sha(d) for d in deps}}, open(state_file, "w"))
    return True


def build_lib(flavour, jobs=None):
    f = FLAVOURS[flavour]
    out = os.path.join(BUILD, flavour, "lib")
    os.makedirs(out, exist_ok=True)
    srcs = lib_sources()
    changed = False
    cmd = [f["cc"]] + f["cflags"] + ["-w", "-DHAVE_CONFIG_H"] + INC
    # big files first
    srcs.sort(key=lambda s: -os.path.getsize(f"{REPO}/{s}") - (500000 if s == "isl_aff.c" else 0))
    with cf.ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        for r in ex.map(lambda s: compile_one(cmd, f"{REPO}/{s}", f"{out}/{s[:-2]}.o"), srcs):
            changed |= r
    lib = os.path.join(BUILD, flavour, "libisl.a")
    objs = [f"{out}/{s[:-2]}.o" for s in srcs]
    lst = "\n".join(objs)
    if changed or not os.path.exists(lib) or not os.path.exists(lib + ".list") or open(lib + ".list").read() != lst:
        tmp = lib + f".tmp{os.getpid()}"
        if os.path.exists(tmp):
            os.unlink(tmp)
        subprocess.run(["ar", "rcs", tmp] + objs, check=True, env=ENV)
        os.replace(tmp, lib)
        open(lib + ".list", "w").write(lst)
        changed = True
    return lib


# checks that count the library's live memory blocks
WRAP = ("C15", "C27", "C28")


def build_bin(flavour, module, extra_srcs=(), extra_flags=(), extra_ld=()):
    """Builds the harness binary of one property module; returns its path."""
    os.makedirs(os.path.join(BUILD, flavour), exist_ok=True)
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        f = FLAVOURS[flavour]
        hout = os.path.join(BUILD, flavour, "harness")
        os.makedirs(hout, exist_ok=True)
        common = ["core.cc", "model.cc", "islx.cc", "gen.cc", "fn.cc", "lp.cc", "poly.cc", "prog.cc", "ast.cc", "notation.cc"] + (["ops.cc"] if module[2:5] in ("C14", "C15", "C26", "C27", "C28", "C30", "C32", "C33") else []) + list(extra_srcs)
        if module[2:5] in WRAP:
            common.append("wrap.cc")
            extra_ld = list(extra_ld) + ["-Wl," + ",".join(f"--wrap={x}" for x in ("malloc", "calloc", "realloc", "free", "strdup"))]
        cmd = [f["cxx"], "-std=c++17"] + f["cxxflags"] + ["-w"] + list(extra_flags) + INC + ["-I" + HARN]
        srcs = common + [module]
        with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
            fl = ex.submit(build_lib, flavour)
            for _ in ex.map(lambda s: compile_one(cmd, f"{HARN}/{s}", f"{hout}/{s}.o"), srcs):
                pass
            lib = fl.result()
        exe = os.path.join(BUILD, flavour, module[:-3])
        objs = [f"{hout}/{s}.o" for s in srcs]
        stamp = hashlib.sha256("".join([sha(o) or "" for o in objs] + [sha(lib) or ""] + list(extra_ld)).encode()).hexdigest()
        if not os.path.exists(exe) or not os.path.exists(exe + ".stamp") or open(exe + ".stamp").read() != stamp:
            tmp = exe + ".tmp"
            p = subprocess.run([f["cxx"]] + f["ld"] + objs + [lib, "-lgmpxx", "-lgmp", "-lpthread"] + list(extra_ld) + ["-o", tmp], env=ENV, capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("link failed:\n" + p.stderr[-4000:])
            os.replace(tmp, exe)
            open(exe + ".stamp", "w").write(stamp)
        return exe


if __name__ == "__main__":
    t = time.time()
    fl = sys.argv[1]
    for m in sys.argv[2:]:
        print(build_bin(fl, m), f"{time.time()-t:.1f}s")
    if len(sys.argv) == 2:
        print(build_lib(fl), f"{time.time()-t:.1f}s")
