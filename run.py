#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

run.py C01 [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--build-only] [--repo DIR]
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
CONF = json.load(open(os.path.join(VERIF, "checks.json")))
SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds,return,unreachable,integer-divide-by-zero "
       "-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -Wno-everything")
TSAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread,bounds,return,unreachable,integer-divide-by-zero "
        "-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -Wno-everything")
COV = "-fsanitize-coverage=inline-8bit-counters"


def sh(cmd, log, cwd=None, env=None):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env).returncode


class BuildError(Exception):
    pass


def config_key(repo, san):
    h = hashlib.sha1()
    for d, sub, files in os.walk(repo):
        sub[:] = sorted(s for s in sub if s not in ("_build", ".git"))
        for n in sorted(files):
            if n == "CMakeLists.txt" or n.endswith((".cmake", ".in", ".h.cmake")):
                p = os.path.join(d, n)
                h.update(os.path.relpath(p, repo).encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update((repo + san + COV).encode())
    return h.hexdigest()


def build_helper(build_dir, src):
    os.makedirs(build_dir, exist_ok=True)
    exe = os.path.join(build_dir, "h_" + os.path.splitext(os.path.basename(src))[0])
    new = f"{exe}.{os.getpid()}"
    if sh(["clang", "-O1", "-g", "-static", os.path.join(VERIF, src), "-o", new], os.path.join(build_dir, "build.helper.log")):
        raise BuildError("compiling " + src + " failed")
    os.replace(new, exe)
    return exe


def build(repo, build_dir, sources, exe_name, san=SAN):
    os.makedirs(build_dir, exist_ok=True)
    log = os.path.join(build_dir, f"build.{exe_name}.log")
    open(log, "w").close()
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(VERIF, "build", "ccache")
    env["CCACHE_MAXSIZE"] = "500M"
    env["CCACHE_NOHASHDIR"] = "1"
    env["CCACHE_SLOPPINESS"] = "pch_defines"
    env.pop("CCACHE_DISABLE", None)
    ccache = shutil.which("ccache")
    lib_dir = os.path.join(build_dir, "lib")
    with open(os.path.join(build_dir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = config_key(repo, san)
        stamp = os.path.join(lib_dir, "config.key")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != key or not os.path.exists(os.path.join(lib_dir, "build.ninja")):
            shutil.rmtree(lib_dir, ignore_errors=True)
            cmd = ["cmake", "-S", repo, "-B", lib_dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                   "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++",
                   f"-DCMAKE_C_FLAGS={san} {COV}", f"-DCMAKE_CXX_FLAGS={san} {COV}"]
            if ccache:
                cmd += ["-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
            if sh(cmd, log, env=env):
                raise BuildError("configuring /repo failed")
            with open(stamp, "w") as f:
                f.write(key)
        # objects of an earlier build are not trusted: everything is compiled
        # again (identical translation units come from the compiler cache)
        sh(["ninja", "-C", lib_dir, "-t", "clean", "streamsstatic"], log, env=env)
        if sh(["ninja", "-C", lib_dir, "streamsstatic"], log, env=env):
            raise BuildError("building /repo failed")
        obj_dir = os.path.join(build_dir, "obj")
        os.makedirs(obj_dir, exist_ok=True)
        inc = [f"-I{lib_dir}/include", f"-I{lib_dir}/lib", f"-I{repo}/include", f"-I{repo}/lib"]
        procs, objs = [], []
        for src in sources:
            o = os.path.join(obj_dir, os.path.basename(src) + ".o")
            cmd = ([ccache] if ccache else []) + ["clang++", "-std=c++14"] + san.split() + \
                ["-DSTREAMS_EXPORT=", "-DSTRIGI_INTERNAL_TEST"] + inc + ["-c", os.path.join(VERIF, src), "-o", o]
            objs.append(o)
            f = open(o + ".log", "wb")
            procs.append((src, o + ".log", subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)))
        bad = []
        for src, l, p in procs:
            if p.wait():
                bad.append(src + ":\n" + open(l, errors="replace").read()[:3000])
        if bad:
            raise BuildError("compiling the harness failed: " + "\n".join(bad))
        exe = os.path.join(build_dir, exe_name)
        cmd = ["clang++"] + san.split() + objs + [os.path.join(lib_dir, "lib", "libstreamsstatic.a"),
               "-lz", "-lbz2", "-llzma", "-lpthread", "-o", exe + ".new"]
        if sh(cmd, log, env=env):
            raise BuildError("linking failed")
        os.replace(exe + ".new", exe)
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--cases", default="0")
    ap.add_argument("--wall", default="0")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--workers", default="8")
    a = ap.parse_args()
    ids = sorted(CONF) if a.property == "all" else [a.property]
    bdir = os.path.join(VERIF, "build") if a.repo == "/repo" else \
        os.path.join(VERIF, "build", "alt-" + hashlib.sha1(a.repo.encode()).hexdigest()[:8])
    t0 = time.time()
    worst = 0
    done = {}
    for pid in ids:
        conf = CONF[pid]
        srcs = ["engine/pbt.cpp"] + conf["sources"]
        name = "t_" + re.sub(r"\W", "_", os.path.splitext(os.path.basename(conf["sources"][-1]))[0])
        try:
            thread = conf.get("sanitizer") == "thread"
            key = (thread, tuple(srcs))
            if key not in done:
                done[key] = build(a.repo, os.path.join(bdir, "tsan") if thread else bdir, srcs, name, TSAN if thread else SAN)
            exe = done[key]
            helpers = {"VERIF_HELPER_" + h: build_helper(bdir, src) for h, src in conf.get("helpers", {}).items()}
        except BuildError as e:
            print(f"{pid}: cannot build: {e}")
            worst = 3
            continue
        if a.build_only:
            continue
        print(f"{pid}: built in {time.time() - t0:.1f} s", flush=True)
        cmd = [exe, "--property", pid, "--tier", a.tier, "--seed", str(int(a.seed) % (1 << 62)), "--level", conf.get("level", "exploration"),
               "--out", os.path.join(VERIF, "evidence", "replays"), "--cases", a.cases, "--wall", a.wall, "--workers", a.workers]
        for t in conf.get("assume", []):
            cmd += ["--assume", t]
        if a.replay:
            cmd += ["--replay", a.replay]
        else:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            cmd += ["--evidence", os.path.join(VERIF, "evidence", pid + ".json"), "--replays", os.path.join(VERIF, "replays", pid)]
        renv = dict(os.environ, **helpers)
        if a.replay:
            renv.update(PBT_LIVE="1", ASAN_OPTIONS="symbolize=1", UBSAN_OPTIONS="symbolize=1:print_stacktrace=1")
        rc = subprocess.run(cmd, env=renv).returncode
        worst = max(worst, rc if rc >= 0 else 3)
        t0 = time.time()
    sys.exit(worst)


if __name__ == "__main__":
    main()
