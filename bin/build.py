#!/usr/bin/env python3
"""Builds the simulator with the library's sources from /repo's working tree.

Objects are cached by the hash of their preprocessed text, so an unchanged
translation unit is not compiled again; nothing but the content decides."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RAFT_REPO", "/repo")
BUILD = os.environ.get("RAFT_SIM_BUILD", os.path.join(VERIF, "build"))
INC = ["-I" + VERIF + "/sim/stubs", "-I" + REPO, "-I" + REPO + "/raftinc"]
DEFS = ["-include", "cstdint", "-DL1D_CACHE_LINE_SIZE=64", "-DSTRING_NAMES=1"]
BASE = ["clang++", "-std=gnu++17", "-g1", "-fno-omit-frame-pointer", "-w"]
INSTR = ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


def lib_sources():
    txt = ""
    try:
        txt = open(REPO + "/src/CMakeLists.txt").read()
    except OSError:
        pass
    m = re.search(r"set\s*\(\s*CPP_SRC_FILES(.*?)\)", txt, re.S)
    names = m.group(1).split() if m else []
    out = [os.path.join(REPO, "src", n) for n in names if os.path.exists(os.path.join(REPO, "src", n))]
    if not out:
        out = sorted(glob.glob(REPO + "/src/*.cpp"))
    return out


def units():
    u = []
    rt = [VERIF + "/sim/rt/simrt.cpp", VERIF + "/sim/rt/driver.cpp"]
    for s in rt:
        u.append((s, BASE + ["-O2"] + INC[:1]))
    for s in sorted(glob.glob(VERIF + "/sim/scen/*.cpp")):
        u.append((s, BASE + INSTR + DEFS + INC))
    for s in lib_sources():
        u.append((s, BASE + INSTR + DEFS + ["-DLIBCOMPILE=1", "-DRDTSCP=1"] + INC))
    return u


def compile_one(a):
    src, cmd = a
    pre = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        return src, None, pre.stderr.decode(errors="replace")
    h = hashlib.sha256()
    h.update(" ".join(cmd).encode())
    h.update(pre.stdout)
    obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            return src, None, r.stderr.decode(errors="replace")
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return src, obj, ""


def build(log=sys.stderr):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, sorted(units(), key=lambda a: 0 if "/scen/" in a[0] else 1)))
    bad = [(s, e) for s, o, e in res if o is None]
    if bad:
        for s, e in bad:
            log.write("cannot compile %s\n%s\n" % (s, e[-4000:]))
        return None
    order = {s: i for i, (s, _) in enumerate(units())}
    objs = [o for s, o, _ in sorted(res, key=lambda r: order[r[0]])]
    h = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(["clang++", "-no-pie", "-static-libstdc++", "-static-libgcc", "-Wl,-z,muldefs", "-o", tmp] + objs +
                           ["-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            log.write("cannot link\n" + r.stderr.decode(errors="replace")[-4000:] + "\n")
            return None
        os.rename(tmp, exe)
    os.utime(exe)
    # forget what has not been used for a while
    for f in glob.glob(BUILD + "/sim-*") + glob.glob(BUILD + "/obj/*"):
        try:
            if f != exe and f not in objs and os.path.getmtime(f) < os.path.getmtime(exe) - 86400:
                os.unlink(f)
        except OSError:
            pass
    return exe


if __name__ == "__main__":
    e = build()
    if not e:
        sys.exit(2)
    print(e)
