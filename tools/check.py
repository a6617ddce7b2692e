#!/usr/bin/env python3
"""check.py PROPERTY: decides one property.

Builds the library and the harness from /repo, generates scenarios (from TLC model runs and from seeded
random drivers), executes them on the library, and lets TLC validate the recorded traces against
spec/EnveTrace.tla.  Exit 0 held, 1 violated, 2 no answer."""
import collections, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gens, models
V = build.V
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = max(1, min(8, os.cpu_count() or 1))

class NoAnswer(Exception): pass

def java(jd, cwd, module, cfg, metadir, env, timeout, workers=1, extra=()):
    cmd = ["java", "-Xmx3g", "-Djava.io.tmpdir=" + metadir, "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FxOverrides", "-cp", JARS + ":" + jd, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-deadlock", "-lncheck", "final", "-metadir", metadir, "-config", cfg, *extra, module]
    e = dict(os.environ); e.update(env)
    os.makedirs(metadir, exist_ok=True)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return -999, (t.stdout.decode(errors="replace") if isinstance(t.stdout, bytes) else t.stdout or "")
    finally: shutil.rmtree(metadir, ignore_errors=True)

def decode(l):
    x = json.loads(l)
    return json.loads(x) if isinstance(x, str) else x
def counts(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*"([^"]*)",\s*\{(.*?)\}\s*>>', re.S)
def validate(jd, trace, props, meta, timeout):
    """TLC on one trace: ("ok"|"fail"|"dead", rejections, counts, text)"""
    spec = "GeomTrace" if props in ("C24", "C25", "C28") else "EnveTrace"
    for attempt in (0, 1):
        rc, out = java(jd, V + "/spec", spec + ".tla", spec + ".cfg", meta, dict(TRACE=trace, PROPS=props), timeout)
        rej = [(int(a), b, re.findall(r'"(C\d\d|SPEC)",\s*(<<.*?>>|"[^"]*")\s*>>', c, re.S) or [("?", c)]) for a, b, c in REJ.findall(out)]
        if "Model checking completed. No error has been found." in out: return "ok", rej, counts(out), out
        if "The error occurred when TLC was evaluating" in out or "is violated" in out or "TLC threw an unexpected exception" in out \
           and "OutOfMemory" not in out and "StackOverflow" not in out: return "fail", rej, counts(out), out
        if rc == -999: return "dead", rej, counts(out), "time limit\n" + out[-2000:]
    return "dead", rej, counts(out), out

def run_harness(exe, script, trace, scratch, timeout):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1", UBSAN_OPTIONS="print_stacktrace=1", HOME=scratch, TMPDIR=scratch)
    env.pop("ENVE_GROUND_PATH", None)
    try:
        p = subprocess.run([exe, script, trace], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, (p.stdout + p.stderr).decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -999, "the harness did not finish within %d s" % timeout

def write_chunk(scns, base):
    off, n = [], 0
    with open(base + ".scr", "w") as f:
        for s in scns:
            off.append(n)
            for l in s.lines(n): f.write(l + "\n")
            n += s.n
    return off, n

def known(prop):
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(C\d\d) scenario=(\S+) clause=(.*?) -- (.*)", l.strip())
            if m and m.group(1) == prop: r.append(m.groups()[1:])
    return r

def main(prop):
    t0 = time.time()
    run = os.path.join(V, "build", "run.%s.%d" % (prop, os.getpid()))
    os.makedirs(run)
    try: return check(prop, run, t0)
    finally: shutil.rmtree(run, ignore_errors=True)

def check(prop, run, t0):
    exe, jd = build.build()
    tb = time.time() - t0
    evid = dict(models=[], states=0, transitions=0)
    # ---- models: checked by TLC, and the behaviours they generate
    def runmodel(m):
        out = os.path.join(run, m.name + ".gen"); cfg = os.path.join(run, m.name + ".cfg")
        open(out, "w").close()
        with open(V + "/spec/" + m.cfg) as f: c = f.read()
        for k, v in m.const.items():
            c, hits = re.subn(r"(?m)\b%s\s*=.*$" % k, lambda _: "%s = %s" % (k, v), c)
            if hits != 1: raise NoAnswer("model %s: constant %s" % (m.name, k))
        with open(cfg, "w") as f: f.write(c)
        rc, txt = java(jd, V + "/spec", m.module + ".tla", cfg, os.path.join(run, "meta." + m.name), dict(GEN=out), m.timeout, workers=m.workers, extra=m.extra)
        g, d = counts(txt)
        if m.refuted:
            if not re.search(r"Invariant \w+ is violated", txt): raise NoAnswer("model %s: TLC does not refute the mutated model\n%s" % (m.name, txt[-3000:]))
        elif m.walks:
            if "Error:" in txt or "Finished in" not in txt: raise NoAnswer("model %s: TLC says\n%s" % (m.name, txt[-3000:]))
            with open(out) as f: g = d = sum(1 for l in f)
        elif "Model checking completed. No error has been found." not in txt: raise NoAnswer("model %s: TLC says\n%s" % (m.name, txt[-3000:]))
        return m, g, d, out
    ms = models.models(prop, TIER, SEED)
    beh = {}
    with cf.ThreadPoolExecutor(max(1, CORES // 2)) as ex:
        for m, g, d, out in ex.map(runmodel, ms):
            evid["models"].append(dict(model=m.name, module=m.module, states=d, transitions=g, answer="refuted, as it must be" if m.refuted else "invariants hold"))
            evid["states"] += d; evid["transitions"] += g
            if m.gen:
                with open(out) as f: beh[m.name] = [decode(l) for l in f if l.strip()]
                if m.walks:                      # TLC writes every last step of a walk: keep one of each
                    by = {}
                    for h in beh[m.name]: by.setdefault(json.dumps(h[:-1]), []).append(h)
                    beh[m.name] = [by[k][SEED % len(by[k])] for k in by]
                if not beh[m.name]: raise NoAnswer("model %s generated no behaviour" % m.name)
    tm = time.time() - t0 - tb
    # ---- scenarios
    scns = gens.scenarios(prop, TIER, SEED, run, beh)
    order = sorted(range(len(scns)), key=lambda k: -scns[k].cost)
    chunks, load = [[] for _ in range(CORES)], [0.0] * CORES
    for k in order:
        j = load.index(min(load)); chunks[j].append(scns[k]); load[j] += scns[k].cost
    chunks = [c for c in chunks if c]
    tg = time.time() - t0 - tb - tm
    limit = 780 if TIER == "quick" else 14400
    def work(j):
        base = os.path.join(run, "c%d" % j)
        off, n = write_chunk(chunks[j], base)
        rc, err = run_harness(exe, base + ".scr", base + ".nd", run, 200 if TIER == "quick" else 3000)
        if rc == 99: return j, off, n, rc, err, None
        got = sum(1 for l in open(base + ".nd", "rb"))
        if rc != 0: return j, off, n, rc, err, got
        return j, off, n, 0, "", validate(jd, base + ".nd", prop, base + ".meta", max(30, limit - (time.time() - t0)))
    bad, ev_n, kinds = [], 0, collections.Counter()
    known_hit, ks = set(), known(prop)
    stat = collections.Counter()
    with cf.ThreadPoolExecutor(CORES) as ex: results = list(ex.map(work, range(len(chunks))))
    distinct = set()
    for j, off, n, rc, err, res in results:
        base = os.path.join(run, "c%d" % j)
        def owner(line):                          # 0-based trace line
            k = max(i for i in range(len(off)) if off[i] <= line)
            return chunks[j][k]
        if rc == 99: raise NoAnswer("harness: " + err[-1500:])
        if rc != 0:
            s = owner(min(res, n - 1))
            bad.append((s, "the process died" if rc != -999 else "no answer within the time limit", res, err[-3000:])); continue
        kind, rej, (g, d), out = res
        evid["states"] += d; evid["transitions"] += g
        for l in open(base + ".nd"):
            e = json.loads(l); ev_n += 1; kinds[e["e"]] += 1
            if e["e"] in ("setupm", "setupf") and "out" in e:
                stat["rib_results"] += len(e["out"]); t = sum(1 for o in e["out"] if o["v"] and o["v"][0] > 0 or o["a"] and o["a"][0] > 0)
                stat["rib_contacts"] += t; stat["setups_with_contact"] += t > 0
            if e["e"] not in ("reset", "scenario"): distinct.add(hash(l))
        if kind == "dead": raise NoAnswer("TLC gave no answer: " + out[-1500:])
        if kind == "fail":
            m = re.findall(r"^/\\ i = (\d+)", out, re.M); at = int(m[-1]) - 1 if m else 0
            bad.append((owner(at), "the recorded answer is outside the specification's vocabulary (evaluation failed)", at, out[-3000:]))
        for line, op, cl in rej:
            s = owner(line - 1)
            for p, c in cl:
                c = c.strip('"')
                if p == "SPEC": raise NoAnswer("machinery: %s in %s" % (c, s.name))
                hit = [k for k in ks if k[0] == s.name and k[1] == c]
                if hit: known_hit.add(hit[0]); continue
                bad.append((s, "%s: %s" % (op, c), line - 1, ""))
    # ---- report
    wall = time.time() - t0
    r = gens.rng_sample(scns, SEED)
    cov = dict(states=evid["states"], transitions=evid["transitions"], traces_validated_against_impl=len(scns),
               samples=[dict(scenario=s.name, script=[x if isinstance(x, str) else json.dumps(x[1]) for x in s.l][:12]) for s in r],
               events_validated=ev_n, distinct_events=len(distinct), events_by_kind=dict(kinds), models=evid["models"],
               seconds=dict(build=round(tb, 1), models=round(tm, 1), generate=round(tg, 1), run_and_validate=round(wall - tb - tm - tg, 1)), **stat)
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(dict(property=prop, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level="model_checking", coverage=cov,
                   assumptions=["IEEE doubles; comparisons use the tolerances written in spec/EnveTrace.tla", "cases within 1e-6 of a contact boundary are not judged"],
                   wall_s=round(wall, 2), violations=len(bad)), open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for k in sorted(known_hit): print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    print("%s: %d scenarios, %d events, %d states, %.1f s (build %.1f, models %.1f, generate %.1f)" % (prop, len(scns), ev_n, evid["states"], wall, tb, tm, tg))
    if not bad: return 0
    rp = os.path.join(V, "evidence", "replay", prop); shutil.rmtree(rp, ignore_errors=True); os.makedirs(rp)
    seen = set()
    for s, what, line, text in bad:
        if (s.name, what) in seen or len(seen) >= 5: continue
        seen.add((s.name, what)); k = len(seen)
        b = os.path.join(rp, "%d" % k)
        with open(b + ".scr", "w") as f:
            for l in s.lines(0): f.write(l.replace(run, rp + "/files") + "\n")
        for path in getattr(s, "files", []):
            if os.path.exists(path): os.makedirs(rp + "/files", exist_ok=True); shutil.copy(path, rp + "/files/")
        with open(b + ".txt", "w") as f: f.write("property %s\nscenario %s\n%s\ntrace line %s of its run\n%s\nreplay: python3 tools/replay.py %s %s.scr\n" % (prop, s.name, what, line, text, prop, b))
        print("  %s [%s]%s" % (what, s.name, " " + text.strip().splitlines()[0][:200] if text.strip() else ""))
        print("VIOLATION property=%s replay=%s" % (prop, b + ".txt"))
    return 1

if __name__ == "__main__":
    try: sys.exit(main(sys.argv[1]))
    except build.BuildError as e: print("the library does not build:\n%s" % e); sys.exit(2)
    except NoAnswer as e: print("no answer: %s" % e); sys.exit(2)
    except Exception: traceback.print_exc(); sys.exit(2)
