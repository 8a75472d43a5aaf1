#!/usr/bin/env python3
"""Builds the simulator with the library sources found in the working tree. Objects are cached by content."""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
CXX = "g++"

INC = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src", "tinymesh"), "-I" + os.path.join(HERE, "shim"),
       "-isystem", "/usr/include/eigen3"]
# matrix products inside Eigen stay on the calling thread: its spinning workers are not code of the repository
STD = ["-std=gnu++17", "-fopenmp", "-pthread", "-w", "-DEIGEN_DONT_PARALLELIZE"]
LIB = STD + ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-pie"]
LIB_PLAIN = STD + ["-O1", "-g1", "-fno-pie"]
HAR = STD + ["-O1", "-g1", "-fno-pie", "-I" + HERE]
RT = ["-std=gnu++17", "-O2", "-g1", "-fno-pie", "-pthread", "-w", "-fno-builtin-malloc", "-I" + HERE]

VARIANTS = {
    "native": {"def": ['-DVARIANT="native"'], "plain": []},
    "py": {"def": ['-DVARIANT="py"', "-DTINYMESH_PYTHON_MODULE"], "plain": []},
    # the curvature/eigenvalue code runs uninstrumented: same code, no scheduling points inside it
    "fast": {"def": ['-DVARIANT="fast"'], "plain": ["ops/"]},
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


def file_hash(path, memo):
    h = memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "absent"
        memo[path] = h
    return h


def lib_sources():
    root = os.path.join(REPO, "src", "tinymesh")
    out = []
    for p in sorted(glob.glob(os.path.join(root, "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, root)
        if rel.startswith("ext/"):
            continue
        out.append((rel, p))
    return out


def compile_one(src, flags, redefine, memo):
    """returns the path of an object for src compiled with flags"""
    base = sha((src + "\0" + " ".join(flags) + str(redefine)).encode())[:20]
    idx = os.path.join(BUILD, "obj", base + ".json")
    if os.path.exists(idx):
        try:
            rec = json.load(open(idx))
            key = sha("".join(d + file_hash(d, memo) for d in rec["deps"]).encode())
            obj = os.path.join(BUILD, "obj", base + "-" + key[:24] + ".o")
            if os.path.exists(obj):
                os.utime(obj)
                return obj
        except (ValueError, KeyError):
            pass
    tmp = os.path.join(BUILD, "obj", base + ".tmp%d" % os.getpid())
    cmd = [CXX] + flags + INC + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    if redefine:
        subprocess.run(["objcopy"] + sum((["--redefine-sym", s + "=sim_" + s] for s in ("memcpy", "memmove", "memset")), [])
                       + [tmp + ".o"], check=True)
    text = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(text.split(":", 1)[1].split()))
    key = sha("".join(d + file_hash(d, memo) for d in deps).encode())
    obj = os.path.join(BUILD, "obj", base + "-" + key[:24] + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    with open(tmp, "w") as f:
        json.dump({"deps": deps}, f)
    os.replace(tmp, idx)
    return obj


def build(variants, log=None):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        memo = {}
        jobs = []
        for v in variants:
            d = VARIANTS[v]
            for rel, p in lib_sources():
                plain = any(rel.startswith(x) for x in d["plain"])
                defs = [x for x in d["def"] if not x.startswith("-DVARIANT")]
                jobs.append((v, 0, p, (LIB_PLAIN if plain else LIB) + defs, not plain))
            for p in sorted(glob.glob(os.path.join(HERE, "*.cpp"))):
                b = os.path.basename(p)
                if b in ("rt.cpp", "disk.cpp"):
                    jobs.append((v, 2, p, RT, False))
                else:
                    jobs.append((v, 1, p, HAR + d["def"], False))
        uniq = {}
        for j in jobs:
            uniq.setdefault((j[2], tuple(j[3]), j[4]), None)
        # long ones first
        order = sorted(uniq, key=lambda k: -(os.path.getsize(k[0]) + (10 ** 6 if "features" in k[0] or "completion" in k[0] else 0)))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {k: ex.submit(compile_one, k[0], list(k[1]), k[2], memo) for k in order}
            for k, f in futs.items():
                uniq[k] = f.result()
        out = {}
        for v in variants:
            objs = [uniq[(j[2], tuple(j[3]), j[4])] for j in sorted((j for j in jobs if j[0] == v), key=lambda j: (j[1], j[2]))]
            key = sha("".join(objs).encode())[:24]
            exe = os.path.join(BUILD, "sim-%s-%s" % (v, key))
            if not os.path.exists(exe):
                tmp = exe + ".tmp"
                cmd = [CXX, "-no-pie", "-pthread", "-o", tmp] + objs + ["-ldl"]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise RuntimeError("linking failed:\n" + r.stdout[-6000:])
                os.replace(tmp, exe)
            os.utime(exe)
            out[v] = exe
        prune()
        return out


def prune(keep_bytes=1500 << 20):
    files = []
    for p in glob.glob(os.path.join(BUILD, "obj", "*.o")) + glob.glob(os.path.join(BUILD, "sim-*")):
        try:
            st = os.stat(p)
            files.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    files.sort(reverse=True)
    total = 0
    for m, s, p in files:
        total += s
        if total > keep_bytes:
            try:
                os.unlink(p)
            except OSError:
                pass


if __name__ == "__main__":
    vs = sys.argv[1:] or list(VARIANTS)
    for v, exe in build(vs).items():
        print(v, exe)
