#!/usr/bin/env python3
"""Builds library + harness from /repo's working tree into /verif/build (object cache keyed by content)."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, fcntl, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ENVE_REPO", "/repo")
B = os.path.join(V, "build")
FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
         "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-w"]

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

class BuildError(Exception): pass

def sources():
    own = sorted(glob.glob(REPO + "/src/*.cc"))
    names = {os.path.basename(p) for p in own}
    tool = [p for p in sorted(glob.glob(REPO + "/toolbox/src/*.cc")) if os.path.basename(p) not in names]
    sfun = sorted(glob.glob(REPO + "/sfun/src_sfun/*.cc"))
    return own, tool, sfun

def headers():
    r = []
    for d in ("/src", "/toolbox/src", "/sfun/include_sfun"):
        for p in sorted(glob.glob(REPO + d + "/**/*", recursive=True)):
            if p.endswith((".hh", ".hxx", ".h", ".hpp")): r.append(p)
    return r

def build(log=lambda *a: None):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        own, tool, sfun = sources()
        hs = headers()
        inc = os.path.join(B, "inc"); os.makedirs(inc, exist_ok=True)
        for n in ("acme.hh", "acme"):
            l, t = os.path.join(inc, n), REPO + "/toolbox/src/" + n
            if os.path.islink(l) and os.readlink(l) != t: os.unlink(l)
            if not os.path.islink(l): os.symlink(t, l)
        I = ["-I" + REPO + "/src", "-I" + inc, "-I" + REPO + "/sfun/include_sfun", "-I/usr/include/eigen3", "-I" + V + "/harness"]
        hh = sorted(glob.glob(V + "/harness/*.hh"))
        hd = digest(hs, " ".join(FLAGS)); hd2 = digest(hh, hd)
        jobs, objs = [], []
        od = os.path.join(B, "obj"); os.makedirs(od, exist_ok=True)
        for p in own + tool + sfun + sorted(glob.glob(V + "/harness/*.cc")):
            key = digest([p], hd2 if p.startswith(V) else hd)
            o = os.path.join(od, os.path.basename(p) + "." + key + ".o")
            objs.append(o)
            if os.path.exists(o): os.utime(o)
            else: jobs.append((p, o))
        def cc(job):
            p, o = job
            r = sh(["g++"] + FLAGS + I + ["-c", p, "-o", o + ".tmp%d" % os.getpid()])
            if r.returncode == 0: os.rename(o + ".tmp%d" % os.getpid(), o)
            return p, r
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(8) as ex:
            for p, r in ex.map(cc, jobs):
                if r.returncode: raise BuildError(p + "\n" + r.stdout[-4000:])
        exe = os.path.join(B, "hx." + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24])
        if not os.path.exists(exe):
            r = sh(["g++", "-fsanitize=address,undefined"] + objs + ["-o", exe + ".tmp"])
            if r.returncode: raise BuildError(r.stdout[-4000:])
            os.rename(exe + ".tmp", exe)
        log("built %d objects" % len(jobs))
        # keep the cache small
        old = sorted(glob.glob(od + "/*.o"), key=os.path.getmtime)[:-250]
        for o in old: os.unlink(o)
        for e in sorted(glob.glob(B + "/hx.*"), key=os.path.getmtime)[:-12]:
            if e != exe: os.unlink(e)
        # Java accelerators of the specification
        jk = digest([V + "/java/FxOverrides.java"])
        jd = os.path.join(B, "java." + jk)
        if not os.path.exists(jd):
            tmp = jd + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            r = sh(["javac", "-nowarn", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", tmp, V + "/java/FxOverrides.java"])
            if r.returncode: raise BuildError(r.stdout[-4000:])
            os.rename(tmp, jd)
        return exe, jd

if __name__ == "__main__":
    try: print(*build(lambda *a: print(*a)))
    except BuildError as e: print(e); sys.exit(2)
