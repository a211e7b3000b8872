#!/usr/bin/env python3
"""Build the model-checking driver from /repo's current working tree.

The library (Rust + C++) is compiled from the sources found in /repo, together with the
driver in /verif/cpp, into /verif/.build (ignored by git). A build is reused only if every
input file has the same content.  Usage: build.py  -> prints the path of the driver.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCG_REPO", "/repo")
OUT = os.environ.get("OCG_MC_BUILD", os.path.join(VERIF, ".build"))
CXXBRIDGE = "/opt/vp/tools/bin/cxxbridge"
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_INCREMENTAL"] = "0"
ENV["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
ENV["CARGO_PROFILE_DEV_DEBUG"] = "0"
ENV["OCG_MC_SHIM"] = os.path.join(VERIF, "rs", "shim.rs")
ENV.pop("RUSTFLAGS", None)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[:2500]))
    return r.stdout


def files(root, *sub):
    res = []
    for s in sub:
        p = os.path.join(root, s)
        if os.path.isdir(p):
            for d, dirs, names in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "__pycache__"))
                res += [os.path.join(d, n) for n in sorted(names)]
        elif os.path.isfile(p):
            res.append(p)
    return res


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()


def cached(stamp, key):
    try:
        with open(stamp) as f:
            return f.read() == key
    except OSError:
        return False


def mark(stamp, key):
    with open(stamp, "w") as f:
        f.write(key)


def build_rust(gen):
    src = files(REPO, "src", "Cargo.toml", "Cargo.lock", ".cargo")
    key = digest(src, open(ENV["OCG_MC_SHIM"]).read())
    lib = os.path.join(OUT, "libocg.a")
    stamp = os.path.join(OUT, "rust.stamp")
    if cached(stamp, key) and os.path.exists(lib):
        return lib, key
    base = ["cargo", "rustc", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
            "--locked", "--offline", "--target-dir", os.path.join(OUT, "target")]
    hook = True
    try:
        run(base + ["--", "--cfg", "ocg_mc"])
    except BuildError as e:
        # The shim reaches into private items; if they changed shape the checks that use it
        # fall back to what the public interface shows.
        sys.stderr.write("build with hook failed, trying without\n%s\n" % str(e)[-1500:])
        hook = False
        run(base)
    shutil.copyfile(os.path.join(OUT, "target", "debug", "libopencompgraph_rs.a"), lib)
    with open(os.path.join(OUT, "hook"), "w") as f:
        f.write("1" if hook else "0")
    mark(stamp, key)
    return lib, key


def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(OUT, "gen")
    os.makedirs(os.path.join(gen, "opencompgraph"), exist_ok=True)
    bridge_rs = os.path.join(REPO, "src", "cxxbridge.rs")
    bkey = digest([bridge_rs])
    bstamp = os.path.join(OUT, "bridge.stamp")
    if not cached(bstamp, bkey):
        run([CXXBRIDGE, bridge_rs, "--cxx-impl-annotations", "OCG_API_EXPORT", "--header",
             "--output", os.path.join(gen, "opencompgraph", "_cxxbridge.h")])
        run([CXXBRIDGE, bridge_rs, "--cxx-impl-annotations", "OCG_API_EXPORT",
             "--output", os.path.join(gen, "_cxxbridge.cpp")])
        mark(bstamp, bkey)
    with ThreadPoolExecutor(max_workers=9) as ex:
        rust = ex.submit(build_rust, gen)
        hdrs = files(REPO, "include") + files(gen, "opencompgraph") + \
            files(VERIF, "cpp/stub_include")
        lib_hdrs = digest(hdrs)
        own_hdrs = digest(sorted(glob.glob(os.path.join(VERIF, "cpp", "*.h"))))
        inc = ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
               "-I" + os.path.join(VERIF, "cpp", "stub_include")]
        flags = ["-std=c++14", "-O1", "-fPIC", "-fpermissive", "-w"]
        jobs = []
        lib_cpp = [p for p in files(REPO, "src") if p.endswith(".cpp")
                   and os.path.relpath(p, REPO) != "src/_cxxbridge.cpp"]
        for p in lib_cpp + [os.path.join(gen, "_cxxbridge.cpp")]:
            jobs.append((p, flags + inc, lib_hdrs))
        for p in sorted(glob.glob(os.path.join(VERIF, "cpp", "*.cpp"))):
            jobs.append((p, ["-std=c++17", "-O1", "-fPIC", "-w", "-I" + os.path.join(VERIF, "cpp")]
                         + inc, lib_hdrs + own_hdrs))
        objdir = os.path.join(OUT, "obj")
        os.makedirs(objdir, exist_ok=True)

        def compile_one(job):
            p, fl, hk = job
            o = os.path.join(objdir, p.strip("/").replace("/", "_") + ".o")
            k = digest([p], hk, fl)
            if not (cached(o + ".stamp", k) and os.path.exists(o)):
                run(["g++"] + fl + ["-c", p, "-o", o])
                mark(o + ".stamp", k)
            return o, k
        objs = list(ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
        lib, rkey = rust.result()
        exe = os.path.join(OUT, "mc")
        k = digest([], rkey, *[x[1] for x in objs])
        if not (cached(exe + ".stamp", k) and os.path.exists(exe)):
            run(["g++", "-no-pie", "-Wl,--wrap=sysconf", "-o", exe + ".tmp"] + [x[0] for x in objs] +
                [lib, "-lOpenImageIO", "-lOpenImageIO_Util", "-lOpenColorIO", "-lImath-3_1", "-lpthread",
                 "-ldl", "-lm"])
            os.replace(exe + ".tmp", exe)
            mark(exe + ".stamp", k)
    print(exe)


if __name__ == "__main__":
    try:
        main()
    except BuildError as e:
        sys.stderr.write("BUILD FAILED: %s\n" % e)
        sys.exit(3)
