"""Scenario generators: what is executed for each property."""
import math, os, random
from scn import *

def rng_sample(scns, seed): return random.Random(seed).sample(scns, min(3, len(scns)))
def gen(seed, tag): return Gen("%s/%s" % (seed, tag))

# ---------------------------------------------------------------- contact on meshes and planes
def contact(g, name, k, ground, meths, flags="o b", n=None, setups=None, big=False, camber=0.35, ribs=12, uniform=None):
    """One tyre, a few setups of it on grounds built around its poses."""
    sh = g.shape(); n = n or g.nribs(ribs)
    s = Scn("%s-%d" % (name, k)); s.shell(1, n, sh, "r b")
    cost = 0
    for j in range(setups or g.i(1, 3)):
        pose = g.pose(camber)
        if ground == "mesh" or (ground == "any" and g.p(0.7)):
            T = g.ground(sh, pose, big=big, uniform=uniform); s.meshv(1, T, g.i(0, 2))
            for m in meths:
                s.setupm(1, 1, m, pose, flags); cost += 1 + n * len(T) * (0.012 if m == "g" else 0.006)
                if g.p(0.3):
                    p2 = Pose(pose.r, add(pose.t, (g.u(-.3, .3) * sh[0], g.u(-.3, .3) * sh[0], g.u(-.3, .3) * sh[0]))); s.setupm(1, 1, m, p2, flags)
                    cost += 1 + n * len(T) * 0.01
        else:
            f, o, nn = g.plane(sh, pose); s.flat(1, f, o, nn, g.i(0, 2))
            for m in meths:
                s.setupf(1, 1, m, pose, flags); cost += 1 + n * 0.05
    s.cost = cost
    return s

def profile(sh, y): return sh[0] * max(0., 1 - (abs(y) / sh[2]) ** sh[3]) ** (1 / sh[1])
def graze(g, name, k, ground, meths, flags="o b", deep=True, miss=.15):
    """Contacts of any depth, from a hair's breadth to the whole radius, of one chosen rib on a plane."""
    sh = g.shape(wide=g.c([None, None, (.2, .6)])); n = g.nribs(9); s = Scn("%s-%d" % (name, k)); s.shell(1, n, sh, "r b"); s.cost = 2
    for j in range(g.i(2, 5)):
        pose = g.pose(g.c([0., .35, 1.0])); i = g.i(0, n - 1); y = -sh[4] + (2 * i + 1) * sh[4] / n; r = profile(sh, y)
        nn = unit((0., 0., 1.) if g.p(.4) else (g.u(-.5, .5), g.u(-.5, .5), 1.)); e = col(pose.r, 1); h = math.sqrt(max(0., 1 - dot(nn, e) ** 2))
        if h < .05: continue
        d = r * (-10 ** g.u(-8.5, -2) if g.p(miss) else 10 ** g.u(-6.3, -1) if g.p(.6) or not deep else 1 - 10 ** g.u(-5, -.3)); c = pose.at((0., y, 0.))
        o = sub(c, mul((r - d) * h, nn)); a = unit(cross(nn, (1., .3, .2))); b = cross(nn, a); o2 = add(o, add(mul(g.u(-1, 1), a), mul(g.u(-1, 1), b)))
        if ground in ("mesh", "split") or (ground == "any" and g.p(.6)):
            q = [add(o, add(mul(x * g.u(1.5, 4) * sh[0] + g.u(-.1, .1), a), mul(z * g.u(1.5, 4) * sh[0], b))) for x, z in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
            T = [g.tri(0, g.friction(), q[0], q[1], q[2]), g.tri(1, g.friction(), q[0], q[2], q[3])]
            if ground == "split": uni = g.p(.5); T = [(i_, T[0][1] if uni else f_) + tuple(v_) for i_, f_, *v_ in T]; s.meshv(2, subdivide(g, T, g.i(1, 6))); s.meshv(1, T); s.cost += .5 + n * .05; s.rel("split", s.setupm(1, 1, "g", pose, flags), s.setupm(1, 2, "g", pose, flags), uniform=uni); continue
            if g.p(.4): T = subdivide(g, T, g.i(1, 6))
            s.meshv(1, T, g.i(0, 2))
            for m in meths: s.setupm(1, 1, m, pose, flags); s.cost += .5 + n * len(T) * .01
        else:
            s.flat(1, g.friction(), o2, mul(g.c([1., 1., 3.]), nn), g.i(0, 2))
            for m in meths: s.setupf(1, 1, m, pose, flags); s.cost += .5
    return s

def tiremodel(g, beh, count):
    for k, h in enumerate(some(g, beh["TireLife"], count) + beh["TireLifeWalk"]):
        sh = [x / 100 for x in h[0]["shape"]]; s = Scn("tirelife-%d" % k); s.shell(1, h[0]["n"], sh, "r")
        for op in h[1:]:
            if op["op"] == "resize": s.cmd("resize 1 %d" % op["n"])
            else: s.cmd("prof 1 " + nums([op["j"] * sh[4] / 5, -op["j"] * sh[4] / 5]))
        s.cmd("obs 1 r p"); s.cmd("prof 1 " + nums([j * sh[4] / 5 for j in range(-4, 5)])); s.cost = 8 + len(h)
        yield s

def c01(g, N, run, beh):
    yield from tiremodel(g, beh, int(40 * N))
    for k in range(int(60 * N)):
        sh = g.shape(); n = g.nribs(30); s = Scn("tyre-%d" % k); s.shell(1, n, sh, "r")
        ly = sh[4]; ys = [0.0, ly * 0.999, -ly * 0.999, ly * 1.0001, -ly * 1.01, 10 * ly, -1e300] + [g.u(-1, 1) * ly for _ in range(6)] + [g.u(-2, 2) * ly for _ in range(2)]
        y = g.u(0, 1) * ly; ys += [y, -y, 1e-3 * ly]
        if g.p(.3): ys += [ly, -ly, ly * .99999]
        if g.p(.3): e = g.c([1e-15, 1e-12, 1e-10, 1e-8, 1e-5]); ys += [ly * (1 + e), -ly - e * ly]
        s.cmd("prof 1 " + nums(ys))
        for _ in range(g.i(1, 6)):
            m = g.c([0, 1, 2, 3, 7, n, n - 1, n + 1, g.i(1, 40)]); s.cmd("resize 1 %d" % max(m, 0))
            if g.p(0.3): s.cmd("obs 1 r p")
            if g.p(0.2): s.cmd("prof 1 " + nums([0.0, g.u(-1, 1) * ly]))
        if g.p(0.1): s.shell(2, 0, sh)
        if g.p(0.1): s.cmd("resize 1 %d" % g.c([100, 257]))
        s.cost = 6 + n * .1
        yield s

def c02(g, N, run, beh):
    yield from latticemodel(g, beh, int(120 * N), "C02")
    for k in range(int(60 * N)): yield graze(g, "section-thin", k, "mesh", ["g"])
    for k in range(int(150 * N)): yield contact(g, "section", k, "mesh", ["g"])
    for k in range(int(12 * N)): yield contact(g, "section-big", k, "mesh", ["g"], big=True, setups=1)
    for k in range(int(10 * N)): yield contact(g, "section-wide", k, "mesh", ["g"], camber=1.4)

def layout(g, n):
    """Triangles for box-query tests: clustered, gridded, degenerate extents, duplicates, spread over scales."""
    T = []
    kind = g.c(["soup", "grid", "cluster", "line", "same", "scales", "towers"])
    S = g.c([1.0, 1.0, 100.0])
    for k in range(n):
        if kind == "grid":
            m = max(1, int(math.sqrt(n))); a, b = k % m, k // m
            v = [(a, b, 0.), (a + 1., b, g.c([0., 0., 1.])), (a, b + 1., 0.)]
        elif kind == "cluster":
            o = g.c([(0, 0, 0), (50, 0, 0), (50, 50, 3), (0, -80, 0)]); v = [add(o, (g.u(-1, 1), g.u(-1, 1), g.u(-1, 1))) for _ in range(3)]
        elif kind == "line": v = [(k * 0.5, 0., 0.), (k * 0.5 + 1, 0., g.c([0., 0.1])), (k * .5, 1., 0.)]
        elif kind == "same": v = [(0., 0., 0.), (1., 0., 0.), (0., 1., float(g.i(0, 1)))]
        elif kind == "scales": z = 10.0 ** g.i(-3, 2); v = [(g.u(-z, z), g.u(-z, z), g.u(-z, z)) for _ in range(3)]
        elif kind == "towers": x, y = g.i(0, 3), g.i(0, 3); v = [(x + .1, y + .1, k * .3), (x + .8, y + .2, k * .3), (x + .2, y + .7, k * .3 + .1)]
        else: o = (g.u(-S, S), g.u(-S, S), g.u(-S, S)); v = [add(o, (g.u(-1, 1), g.u(-1, 1), g.u(-1, 1))) for _ in range(3)]
        if norm(cross(sub(v[1], v[0]), sub(v[2], v[0]))) < 1e-12: v[2] = add(v[2], (0.3, 0.4, 0.5))
        T.append((g.c([k, k, 0, 5]) if g.p(.3) else k, 1.0, *[tuple(map(float, x)) for x in v]))
    return T
def bounds(t): return tuple(min(t[2 + k][j] for k in range(3)) for j in range(3)), tuple(max(t[2 + k][j] for k in range(3)) for j in range(3))
def boxes(g, T, q):
    """Query boxes: random, exactly touching a triangle's box, points, everything, nothing."""
    for _ in range(q):
        k = g.r.random(); t = g.c(T); lo, hi = bounds(t)
        if k < 0.35:
            c = tuple(g.u(lo[j], hi[j]) for j in range(3)); e = tuple(g.u(0, 1.5) * g.c([0.05, 1, 3]) for _ in range(3)); yield sub(c, e), add(c, e)
        elif k < 0.5:                                              # touches a face of t's box from outside
            j = g.i(0, 2); up = g.p(.5); a = [x - .25 for x in lo]; b = [x + .25 for x in hi]
            if up: a[j], b[j] = hi[j], hi[j] + g.c([0.0, .5])
            else: a[j], b[j] = lo[j] - g.c([0.0, .5]), lo[j]
            yield tuple(a), tuple(b)
        elif k < 0.6: yield lo, hi
        elif k < 0.7: v = g.c(t[2:5]); yield v, v                  # a point
        elif k < 0.8: yield (-1e4,) * 3, (1e4,) * 3
        elif k < 0.9: c = g.u(-200, 200); yield (c, c, c), (c + 1, c + 1, c + 1)
        else:
            c = tuple(g.u(lo[j], hi[j]) for j in range(3)); j = g.i(0, 2); a = list(c); b = list(c); a[j], b[j] = -1e3, 1e3; yield tuple(a), tuple(b)

def c03(g, N, run, beh):
    yield from meshlife(g, run, beh, int(150 * N), "C03")
    for k in range(int(100 * N)):
        n = g.c([1, 2, 3, 4, 5, 8, 16, 17, g.i(1, 40), g.i(1, 40), g.i(40, 120)])
        T = layout(g, n); s = Scn("query-%d" % k); s.meshv(1, T, g.i(0, 2))
        for lo, hi in boxes(g, T, 12): s.query(1, lo, hi, g.c([0, 0, 1, 3]))
        s.cost = 1 + n * 12 * .006; yield s
    for k in range(int(4 * N)):
        n = g.c([300, 500, 700]); T = layout(g, n); s = Scn("query-large-%d" % k); s.meshv(1, T)
        for lo, hi in boxes(g, T, 10): s.query(1, lo, hi, g.c([0, 2]))
        s.cost = 1 + n * 10 * .006; yield s

def shuffled(g, T):
    T2 = [(i, f, *g.r.sample(v, 3)) for i, f, *v in T]; g.r.shuffle(T2); return T2
def c04(g, N, run, beh):
    yield from latticemodel(g, beh, int(60 * N), "C04")
    yield from histories(g, beh, "C04", int(60 * N))
    for k in range(int(130 * N)):
        sh = g.shape(); n = g.nribs(20); pose = g.pose(g.c([0.35, 1.2])); T = g.ground(sh, pose, big=g.p(0.25))
        s = Scn("prune-%d" % k); s.shell(1, n, sh, "b"); s.meshv(1, T)
        a = s.setupm(1, 1, "g", pose); b = s.brute(1, 1, "g", pose); s.rel("pruned", a, b)
        aa = s.setupm(1, 1, "s", pose)
        s.meshv(2, shuffled(g, T))
        b = s.setupm(1, 2, "g", pose); s.rel("permuted", a, b)
        b = s.setupm(1, 2, "s", pose); s.rel("permuted", aa, b)
        far = []                                                  # boxes that cannot meet the shell's box
        for _ in range(g.i(1, 8)):
            d = unit((g.u(-1, 1), g.u(-1, 1), g.u(-.3, .3))); R = (sh[0] + sh[4]) * g.u(2.6, 20)
            if max(map(abs, d)) < .6: continue
            o = add(pose.t, mul(R, d)); far += g.soup(o[0], o[1], o[2], .3 * (sh[0] + sh[4]), 1, first=len(T) + len(far))
        T3 = T + far; g.r.shuffle(T3)
        s.meshv(3, T3)
        b = s.setupm(1, 3, "g", pose); s.rel("far", a, b)
        b = s.setupm(1, 3, "s", pose); s.rel("far", aa, b)
        s.cost = 6 + n * len(T) * .002; yield s

def c05(g, N, run, beh):
    yield from latticemodel(g, beh, int(40 * N), "C05")
    yield from histories(g, beh, "C05", int(60 * N))
    for k in range(int(130 * N)):
        sh = g.shape(wide=(0.02, 1.0)) if g.p(.5) else g.shape(); n = g.nribs(12)
        s = Scn("box-%d" % k); s.shell(1, n, sh, "r b")
        s.flat(1, 1.0, (0, 0, -1e3), (0, 0, 1)); s.meshv(1, [(0, 1.0, (-1., -1., -9e2), (1., -1., -9e2), (0., 1., -9e2))])
        for _ in range(g.i(2, 6)):
            p = g.pose(g.c([.4, 1.6, 3.1]))
            k2 = g.i(0, 3)
            if k2 == 0: s.setupf(1, 1, g.c("gs"), p, "o b")
            elif k2 == 1: s.setupm(1, 1, g.c("gs"), p, "o b")
            elif k2 == 2: s.cmd("resize 1 %d" % g.nribs()); s.setupf(1, 1, "g", p, "o b")
            else: s.cmd("transform 1 %s" % p); s.cmd("translate 1 1 2 3"); p = Pose(p.r, add(p.t, (0.01, 0, 0))); s.setupf(1, 1, "s", p, "o b")
        s.cost = 3; yield s
    for k in range(int(50 * N)):                                   # triangles near the rim of the outer ribs
        sh = g.shape(wide=(0.1, .6)); n = g.nribs(9); pose = g.pose(1.3); s = Scn("box-face-%d" % k); s.shell(1, n, sh, "r b")
        T = []
        for j in range(6):
            y = g.c([-1, 1]) * sh[4] * (1 - 1 / n); a = g.u(-3.2, 3.2)
            rr = sh[0] * (1 - min(1., abs(y) / sh[2]) ** sh[3]) ** (1 / sh[1]) * g.u(.9, .999)
            c = pose.at((rr * math.cos(a), y, rr * math.sin(a))); e = g.c([.002, .01, .05])
            v = [add(c, (g.u(-e, e), g.u(-e, e), g.u(-e, e))) for _ in range(3)]
            nn = cross(sub(v[1], v[0]), sub(v[2], v[0]))
            if norm(nn) > .1 * e * e: T.append((j, .5, *v))
        if not T: continue
        s.meshv(1, T); a = s.setupm(1, 1, "g", pose, "o b"); b = s.brute(1, 1, "g", pose); s.rel("boxed", a, b); s.cost = 2; yield s

def c06(g, N, run, beh):
    yield from latticemodel(g, beh, int(60 * N), "C06")
    for k in range(int(60 * N)): yield graze(g, "flag-thin", k, "any", ["g", "s"])
    yield from histories(g, beh, "C06", int(120 * N))
    for k in range(int(250 * N)): yield contact(g, "flag", k, "any", ["g", "s"], flags="o b", n=g.i(1, 8))
    for k in range(int(80 * N)):                                   # only some of the ribs touch: tilted tyre, edges of the mesh
        sh = g.shape(wide=(.1, .3)); n = g.i(2, 10); s = Scn("flag-partial-%d" % k); s.shell(1, n, sh)
        cam = g.c([-1, 1]) * g.u(.02, .6); pose = Pose(mm(rz(g.u(-3, 3)), rx(cam)), g.place()); b = g.bottom(sh, pose)
        for _ in range(4):
            h = b[2] + sh[4] * math.sin(abs(cam)) * g.u(-1.1, .5)
            if g.p(.5): s.flat(1, 1., (b[0], b[1], h), (0, 0, 1)); s.setupf(1, 1, g.c("gs"), pose)
            else:
                T = g.grid(b[0], b[1], h, 1.5 * sh[0], g.i(1, 3), g.i(1, 3), amp=.0, uniform=1.0)
                ax, ofs = col(pose.r, 1), g.u(-.9, .9) * sh[4]; sg = g.c([-1, 1])
                T2 = [t for t in T if sg * (dot(ax, sub(mul(1 / 3, add(t[2], add(t[3], t[4]))), pose.t)) - ofs) > 0] or T
                s.meshv(1, T2); s.setupm(1, 1, g.c("gs"), pose)
        s.cost = 3; yield s

def c07(g, N, run, beh):
    yield from latticemodel(g, beh, int(40 * N), "C07")
    for k in range(int(25 * N)): yield graze(g, "lift-thin", k, "any", ["g", "s"])
    yield from histories(g, beh, "C07", int(70 * N))
    for k in range(int(90 * N)):
        sh = g.shape(); n = g.nribs(8); s = Scn("lift-%d" % k); s.shell(1, n, sh); cost = 0
        for _ in range(g.i(2, 5)):                                 # contact, then partial or no contact
            pose = g.pose(); T = g.ground(sh, pose); s.meshv(1, T); f, o, nn = g.plane(sh, pose); s.flat(1, f, o, nn)
            for _ in range(3):
                up = g.c([0, 0, g.u(0, .6), 3.0]) * sh[0]; side = g.c([0, 0, 4 * sh[0], g.u(-1, 1) * sh[4]])
                p = Pose(pose.r, add(pose.t, add((0, 0, up), mul(side, col(pose.r, 1)))))
                m = g.c("gs")
                if g.p(.65): s.setupm(1, 1, m, p); cost += n * len(T) * .01
                else: s.setupf(1, 1, m, p)
        s.cost = 4 + cost; yield s

def c08(g, N, run, beh):
    for k in range(int(120 * N)): yield graze(g, "chord-thin", k, "flat", ["g"])
    for k in range(int(220 * N)): yield contact(g, "chord", k, "flat", ["g"], setups=4, camber=g.c([.35, 1.3]))
def stack(g, name, k):
    """Several layers of ground under the probes, in any order, with steps between them."""
    sh = g.shape(); n = g.nribs(5); s = Scn("%s-%d" % (name, k)); s.shell(1, n, sh); pose = g.pose(.2); b = g.bottom(sh, pose); z = b[2] + sh[0] * g.u(.1, .5); T = []
    for _ in range(g.i(2, 7)):
        zz = z - sh[0] * g.c([0., g.u(0, .05), g.u(0, .3), g.u(-.1, .6)]); w = g.u(.15, 2.) * sh[0]; x, y = (b[0] + g.u(-.3, .3) * sh[0], b[1] + g.u(-.3, .3) * sh[0]) if g.p(.4) else b[:2]
        T += g.grid(x, y, zz, w, 1, g.i(1, 2), amp=.02 * sh[0], first=len(T))
    s.meshv(1, T)
    for _ in range(3): s.setupm(1, 1, "s", Pose(pose.r, add(pose.t, (g.u(-.05, .05), g.u(-.05, .05), g.u(-.05, .05)))))
    s.cost = 1 + n * len(T) * .02; return s
def c09(g, N, run, beh):
    yield from latticemodel(g, beh, int(80 * N), "C09")
    for k in range(int(80 * N)): yield stack(g, "probe-stack", k)
    for k in range(int(40 * N)): yield graze(g, "probe-thin", k, "any", ["s"])
    for k in range(int(20 * N)): yield graze(g, "probe-miss", k, "any", ["s"], miss=.7)
    for k in range(int(150 * N)): yield contact(g, "probe", k, "mesh", ["s"], camber=g.c([.3, .3, 1.0]))
    for k in range(int(60 * N)): yield contact(g, "probe-flat", k, "flat", ["s"], setups=3, camber=g.c([.3, 1.0]))
    for k in range(int(10 * N)): yield contact(g, "probe-big", k, "mesh", ["s"], big=True, setups=1)

def c10(g, N, run, beh):
    yield from latticemodel(g, beh, int(50 * N), "C10")
    for k in range(int(60 * N)): yield graze(g, "sum-graze", k, "any", ["g", "s"], flags="o b a")
    for k in range(int(200 * N)): yield contact(g, "sum", k, "any", ["g", "s"], flags="o b a", n=g.nribs(25))
    for k in range(int(30 * N)):                                   # hardly any volume
        sh = g.shape(); n = g.nribs(); pose = g.pose(); f, o, nn = g.plane(sh, pose, -.001, .004); s = Scn("sum-thin-%d" % k); s.shell(1, n, sh); s.flat(1, f, o, nn)
        for m in "gs": s.setupf(1, 1, m, pose, "o b a")
        s.cost = 3; yield s

def c11(g, N, run, beh):
    yield from histories(g, beh, "C11", int(70 * N))
    for k in range(int(150 * N)):
        sh = g.shape(); n = g.nribs(12); s = Scn("forms-%d" % k); s.shell(1, n, sh, "r"); pose = g.pose()
        fl = lambda: " ".join(g.r.sample(["o", "a", "A", "v%d" % g.c([0, 1, n, n + 5, 40]), "f", "w%d" % g.c([0, n, n + 3, 50])], 6))
        for _ in range(g.i(1, 4)):
            pose = g.pose(); m = g.c("gs")
            if g.p(.6): s.meshv(1, g.ground(sh, pose)); s.setupm(1, 1, m, pose, fl())
            else: f, o, nn = g.plane(sh, pose); s.flat(1, f, o, nn); s.setupf(1, 1, m, pose, fl())
            for _ in range(g.i(1, 3)): s.cmd("obs 1 " + fl())
            if g.p(.4): n = g.nribs(15); s.cmd("resize 1 %d" % n); s.meshv(1, g.ground(sh, pose)); s.setupm(1, 1, m, pose, fl()); s.cmd("obs 1 " + fl())
        s.cost = 4; yield s

def c12(g, N, run, beh):
    yield from latticemodel(g, beh, int(40 * N), "C12")
    for k in range(int(25 * N)): yield graze(g, "frame-thin", k, "any", ["g", "s"], flags="o b a f")
    for k in range(int(90 * N)): yield contact(g, "frame", k, "any", ["g", "s"], flags="o b a f", n=g.nribs(7), setups=2, camber=g.c([.35, .9]))

def c13(g, N, run, beh):
    yield from histories(g, beh, "C13", int(150 * N))
    for k in range(int(70 * N)):
        s = Scn("history-%d" % k); shp = {}; nr = {}; meshes = {}; cost = 3; fresh = 90
        for i in (1, 2): shp[i] = g.shape(); nr[i] = g.nribs(6); s.shell(i, nr[i], shp[i], "r")
        pose = {i: g.pose() for i in (1, 2)}
        for i in (1, 2): s.meshv(i, g.ground(shp[i], pose[i])); f, o, nn = g.plane(shp[i], pose[i]); s.flat(i, f, o, nn)
        for _ in range(g.i(4, 10)):
            i = g.i(1, 2); k2 = g.r.random()
            if k2 < .6:
                j = i if g.p(.8) else 3 - i; e = g.c([1., 1., 1., 1e-3, 1e-6]); p = pose[i] if g.p(.4) else Pose(pose[i].r, add(pose[i].t, (e * g.u(-.2, .2), e * g.u(-.2, .2), e * g.u(-.1, .1)))); m = g.c("gs")
                fn, G = (s.setupm, j) if g.p(.6) else (s.setupf, j)
                a = fn(i, G, m, p, "o r b a")
                fresh += 1; s.shell(fresh, nr[i], shp[i], "r"); b = fn(fresh, G, m, p, "o r b a"); s.rel("twin", a, b); cost += 2
            elif k2 < .7: nr[i] = g.nribs(6); s.cmd("resize %d %d" % (i, nr[i]))
            elif k2 < .8: s.cmd("obs %d o a A f v%d" % (i, g.i(0, 9)))
            elif k2 < .85: (s.setupm if g.p(.5) else s.setupf)(i, i, "nonsense", pose[i], "b")
            elif k2 < .9: s.cmd("translate %d %s" % (i, nums((g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)))))
            elif k2 < .95: s.cmd("transform %d %s" % (i, g.pose()))
            else: pose[i] = g.pose(); s.meshv(i, g.ground(shp[i], pose[i])); f, o, nn = g.plane(shp[i], pose[i]); s.flat(i, f, o, nn)
        s.cost = cost; yield s

def moved(Q, T): return [(i, f, Q.at(a), Q.at(b), Q.at(c)) for i, f, a, b, c in T]
def simple_ground(g, sh, pose):                                    # a single surface (no overhang)
    b = g.bottom(sh, pose); R = sh[0]; z0 = b[2] + R * g.u(-.05, .5)
    n = g.i(1, 6); return g.grid(b[0], b[1], z0, g.u(.6, 3) * R, n, g.i(1, 6), amp=.1 * R, noise=g.c([0, .5]))
def tilt(g, Q, normals):                                           # a motion that also tilts, as long as every normal keeps pointing upwards
    for _ in range(8):
        W = Pose(mm(Q.r, mm(rx(g.u(-1.2, 1.2)), rz(g.u(-3.2, 3.2)))), Q.t)
        if all(mv(W.r, n)[2] > .02 and n[2] > 1e-3 for n in normals): return W
    return Q
def upward(T):
    for _, _, a, b, c in T: n = unit(cross(sub(b, a), sub(c, a))); yield n if n[2] >= 0 else mul(-1, n)
def c14(g, N, run, beh):
    yield from latticemodel(g, beh, int(60 * N), "C14")
    for k in range(int(170 * N)):
        sh = g.shape(); n = g.nribs(10); s = Scn("motion-%d" % k); s.shell(1, n, sh); pose = g.pose(g.c([.35, 1.]))
        Q = Pose(rz(g.u(-3.2, 3.2)), g.place()); p2 = after(Q, pose); k2 = g.r.random()
        spin = Pose(mm(pose.r, ry(g.u(-3.2, 3.2))), pose.t)
        if k2 < .5:
            T = g.ground(sh, pose)
            if g.i(0, 1): Q = tilt(g, Q, list(upward(T))); p2 = after(Q, pose)
            s.meshv(1, T); s.meshv(2, moved(Q, T)); a = s.setupm(1, 1, "g", pose); b = s.setupm(1, 2, "g", p2); s.rel("moved", a, b, Q=Q)
            b = s.setupm(1, 1, "g", spin); s.rel("spun", a, b)
        elif k2 < .7:
            T = simple_ground(g, sh, pose); s.meshv(1, T); s.meshv(2, moved(Q, T)); a = s.setupm(1, 1, "s", pose); b = s.setupm(1, 2, "s", p2); s.rel("moved", a, b, Q=Q)
        else:
            f, o, nn = g.plane(sh, pose); m = g.c("ggs")
            if m == "g" and g.i(0, 2): Q = tilt(g, Q, [unit(nn)]); p2 = after(Q, pose)
            s.flat(1, f, o, nn); s.flat(2, f, Q.at(o), mv(Q.r, nn))
            a = s.setupf(1, 1, m, pose); b = s.setupf(1, 2, m, p2); s.rel("moved", a, b, Q=Q)
            if m == "g": b = s.setupf(1, 1, m, spin); s.rel("spun", a, b)
        s.cost = 3; yield s

def subdivide(g, T, times):
    T = list(T)
    for _ in range(times):
        k = g.i(0, len(T) - 1); i, f, a, b, c = T.pop(k)
        w = g.i(0, 2); L = lambda p, q, t: add(p, mul(t, sub(q, p)))
        if w == 0:                                                 # cut an edge
            m = L(a, b, g.u(.2, .8)); T += [(i, f, a, m, c), (i, f, m, b, c)]
        elif w == 1:                                               # a point inside
            u_, v_ = g.u(.2, .4), g.u(.2, .4); m = tuple(a[j] * (1 - u_ - v_) + b[j] * u_ + c[j] * v_ for j in range(3)); T += [(i, f, a, b, m), (i, f, b, c, m), (i, f, c, a, m)]
        else:                                                      # the four midpoints
            x, y, z = L(a, b, .5), L(b, c, .5), L(c, a, .5); T += [(i, f, a, x, z), (i, f, x, b, y), (i, f, z, y, c), (i, f, x, y, z)]
    g.r.shuffle(T); return T
def c15(g, N, run, beh):
    yield from latticemodel(g, beh, int(80 * N), "C15")
    for k in range(int(130 * N)):
        sh = g.shape(); n = g.nribs(10); s = Scn("split-%d" % k); s.shell(1, n, sh); pose = g.pose(g.c([.35, 1.])); uni = g.c([None, .7])
        T = g.ground(sh, pose, uniform=uni); T2 = subdivide(g, T, g.i(1, 6)); s.meshv(1, T); s.meshv(2, T2)
        a = s.setupm(1, 1, "g", pose); b = s.setupm(1, 2, "g", pose); s.rel("split", a, b, uniform=uni is not None)
        s.cost = 3 + n * len(T) * .002; yield s
    for k in range(int(60 * N)):                                   # grazing and deep chords, one triangle or many
        s = graze(g, "split-graze", k, "split", ["g"]); yield s
    for k in range(int(60 * N)):                                   # a plane and its tessellation
        sh = g.shape(); n = g.nribs(10); s = Scn("plane-%d" % k); s.shell(1, n, sh); pose = g.pose(.35); f, o, nn = g.plane(sh, pose, -.1, .6)
        un = unit(nn); e1 = unit(cross(un, (g.u(-1, 1), g.u(-1, 1), .1))); e2 = cross(un, e1); H = 3 * (sh[0] + sh[4]) + abs(sub(o, pose.t)[0]) + abs(sub(o, pose.t)[1])
        P = lambda x, y: add(o, add(mul(x, e1), mul(y, e2)))
        T = [(0, f, P(-H, -H), P(H, -H), P(H, H)), (1, f, P(-H, -H), P(H, H), P(-H, H))]; T2 = subdivide(g, T, g.i(0, 8))
        s.flat(1, f, o, nn); s.meshv(1, T2); m = g.c("gs")
        a = s.setupf(1, 1, m, pose); b = s.setupm(1, 1, m, pose, "o b"); s.rel("split" if m == "g" else "splits", a, b, uniform=True); s.cost = 3; yield s
    for k in range(int(60 * N)):
        sh = g.shape(); n = g.nribs(10); s = Scn("split-probe-%d" % k); s.shell(1, n, sh); pose = g.pose(.3); T = simple_ground(g, sh, pose)
        s.meshv(1, T); s.meshv(2, subdivide(g, T, g.i(1, 6))); a = s.setupm(1, 1, "s", pose); b = s.setupm(1, 2, "s", pose); s.rel("splits", a, b); s.cost = 3; yield s

# ---------------------------------------------------------------- mesh files
def fnum(g, x):
    k = g.i(0, 7)
    if k == 7:                                                     # unusual spellings
        x *= g.c([1., 1., 1e-5, 1e-12]); t = g.c(["%.17e", "%.16E", "%.20f", "%.12g", "%.0e", "%010.4f", "%.1f"]) % x
        w = g.i(0, 5)
        if w == 0 and t[:2] == "0.": t = t[1:]
        if w == 1 and t[-2:] == ".0": t = t[:-1]
        if w == 2 and t[0] not in "+-": t = "+" + t
        return t
    if k == 0: return "%.3f" % x
    if k == 1: return "%.6e" % x
    if k == 2: return "%d" % round(x)
    if k == 3: return "%+.4f" % x if x >= 0 else "%.4f" % x
    return "%.6g" % x if "e" not in "%.6g" % x or g.p(.5) else "%.5f" % x
def good_nodes(g, n): return [(g.u(-3, 3), g.u(-3, 3), g.u(-.5, .5)) for _ in range(n)]
def area_ok(P, e): return norm(cross(sub(P[e[1]], P[e[0]]), sub(P[e[2]], P[e[0]]))) > 1e-3
def index(g, k): return g.c([str(k)] * 6 + ["%02d" % k, "%03d" % k, "%05d" % k, "+%d" % k])
def rdf_lines(g, n=None, m=None, mess=True):
    n = n or g.c([g.i(3, 14), g.i(3, 14), g.i(9, 40)]); txt = [[fnum(g, x) for x in p] for p in good_nodes(g, n)]; P = [tuple(float(x) for x in t) for t in txt]
    L = []
    noise = lambda: [g.c([[], ["%", "comment"], ["{", "0", "1", "2", "}"], ["#", "x"], ["{node_id,", "x,", "y,", "z}"], ["%NODES"], ["#0", "0", "0", "0"]]) for _ in range(g.c([0, 0, 1, 2]))] if mess else []
    head = lambda w: [w] if g.p(.5) else ["[%s]" % w]
    if mess and g.p(.3): L += [["junk", "header", "line"], ["1", "2", "3", "4"]]
    cuts = sorted(g.r.sample(range(3, n), min(g.c([0, 0, 0, 1, 2]) if mess else 0, n - 3))) + [n]; E = []; at = 0; style = g.c([index, index, lambda g, k: str(k)]) if mess else lambda g, k: str(k)
    for cut in cuts:                                               # sections may come again
        L += noise() + [head("NODES")]
        for k, t in enumerate(txt[at:cut], at): L += noise() if g.p(.2) else []; L.append([str(g.c([k, k, k + 1, 0]))] + t)
        at = cut; L += noise() + [head("ELEMENTS")]
        for _ in range(m or g.i(1, 12)):
            e = g.r.sample(range(cut), 3)
            if not area_ok(P, e): continue
            E.append(e); L += noise() if g.p(.2) else []; L.append([style(g, k) for k in e] + [g.c(["1", "0.8", "1.0", "0", "1e-1", "0.75"])])
    if not E: return rdf_lines(g, n, m, mess)
    return L + noise()
def obj_lines(g, n=None, m=None, mess=True):
    n = n or g.c([g.i(3, 14), g.i(3, 14), g.i(9, 40)]); txt = [[fnum(g, x) for x in p] for p in good_nodes(g, n)]; P = [tuple(float(x) for x in t) for t in txt]
    L = []
    noise = lambda: [g.c([[], ["#", "comment"], ["vn", "0", "0", "1"], ["vt", "0.1", "0.2"], ["vt", "0.1", "0.2", "0.3"], ["vp", "0.3", "0.1", "1"], ["o", "name"], ["s", "off"], ["usemtl", "m"], ["g", "f"], ["#f", "1", "2", "3"]]) for _ in range(g.c([0, 0, 1, 2]))] if mess else []
    k = 0; faces = 0; style = g.c([index, index, lambda g, k: str(k)]) if mess else lambda g, k: str(k)
    L += noise()
    for i, t in enumerate(txt):
        L.append(["v"] + t); k += 1
        if g.p(.1) and k >= 3:                                     # faces between vertices
            e = g.r.sample(range(k), 3)
            if area_ok(P, e): L.append(["f"] + [style(g, x + 1) for x in e]); faces += 1
        if g.p(.2): L += noise()
    for _ in range(m or g.i(1, 12)):
        e = g.r.sample(range(n), 3)
        if area_ok(P, e): L.append(["f"] + [style(g, x + 1) for x in e]); faces += 1
        if g.p(.2): L += noise()
    return L if faces else obj_lines(g, n, m, mess)

class Files:
    def __init__(s, run, scn): s.run, s.scn, s.k = run, scn, 0; scn.files = []
    def put(s, mt, g, there=True, name=None, plain=False):
        s.k += 1; path = os.path.join(s.run, name or "%s-%d.%s" % (s.scn.name, s.k, mt.ext))
        if there:
            with open(path, "w", newline="") as f: f.write(mt.text(g, plain))
        s.scn.files.append(path); s.scn.raw(mt.event(s.k, there)); return s.k, path
def load(s, op, m, fid, kind, f, pose, path): return s.cmd("%s %d %d %s %s %s %s" % (op, m, fid, kind, num(f), pose, path))
def qboxes(g, P):
    t = [(0, 1.0) + tuple(g.c(P) for _ in range(3))]
    return list(boxes(g, t, 3))
def nodes_of(mt, pose):
    P = []
    for l in mt.lines:
        if len(l) == 4 and (mt.ext == "rdf" or l[0] == "v"):
            try: P.append(pose.at(tuple(float(x) for x in l[1:])))
            except ValueError: pass
    return P or [(0., 0., 0.)]
def loadable(g, N, run, ext, count):
    for k in range(count):
        s = Scn("%s-%d" % (ext, k)); F = Files(run, s)
        big = g.p(.05)
        mt = MeshText((rdf_lines if ext == "rdf" else obj_lines)(g, *((60, 120) if big else (None, None))), ext)
        fid, path = F.put(mt, g); pose = g.c([Pose(), Pose(), g.pose(1.5)]); fr = g.c([1.0, .4, 0.0])
        op = g.c(["load", "ctor"])
        if op == "load": s.cmd("meshe 1")
        load(s, op, 1, fid, ext, fr, pose, path); s.cmd("mobs 1")
        for lo, hi in qboxes(g, nodes_of(mt, pose)): s.query(1, lo, hi, g.c([0, 1]))
        if g.p(.3):                                                # load something else on top
            mt = MeshText((rdf_lines if ext == "rdf" else obj_lines)(g), ext); fid, path = F.put(mt, g); load(s, "load", 1, fid, ext, fr, pose, path); s.cmd("mobs 1")
            for lo, hi in qboxes(g, nodes_of(mt, pose)): s.query(1, lo, hi)
        s.cost = 2 + big * 4; yield s
def c16(g, N, run, beh): yield from filemodel(g, run, beh, "rdf", int(500 * N)); yield from loadable(g, N, run, "rdf", int(220 * N))
def c17(g, N, run, beh): yield from filemodel(g, run, beh, "obj", int(500 * N)); yield from loadable(g, N, run, "obj", int(220 * N))

def spoil(g, mt):
    """One defect at a random place."""
    L = [list(l) for l in mt.lines]; ext = mt.ext
    elem = [k for k, l in enumerate(L) if l and (l[0] == "f" if ext == "obj" else len(l) == 4 and k > max([j for j, q in enumerate(L) if q and q[0] in ("ELEMENTS", "[ELEMENTS]")] + [0]) and l[0][0] not in "{%#")]
    node = [k for k, l in enumerate(L) if l and len(l) == 4 and (l[0] == "v" if ext == "obj" else k not in elem and l[0][0] not in "{%#" and k > min(j for j, q in enumerate(L) if q and q[0] in ("NODES", "[NODES]")))]
    nn = len(node); k = g.i(0, 9); j = g.c(elem); off = 1 if ext == "obj" else 0; p = g.i(off, off + 2)
    if k == 0: L[j][p] = str(nn + off + g.c([0, 0, 1, 1000]))       # undefined node
    elif k == 1: L[j][p] = g.c(["-1", "-2", "-%d" % (nn + 1)])
    elif k == 2:
        if ext == "obj": L[j][p] = "0"
        else: L[j][3] = g.c(["-0.5", "-1", "-1e-9"])
    elif k == 3: L[j].pop()
    elif k == 4: L[j].append(g.c(["1", "7"]))
    elif k == 5: q = g.c(node); L[q].pop()
    elif k == 6: q = g.c(node); L[q].append("0.5")
    elif k == 7: L = [l for i, l in enumerate(L) if i not in elem]  # no triangle
    elif k == 8: L[j][p] = g.c(["abc", "x1", "?"])
    else:
        if g.p(.5): L = [] if g.p(.5) else L[:g.c(node)]
        else: q = node[-1]; L.insert(elem[-1] + 1, L.pop(q)) if ext == "obj" else L.pop(node[0]); 
    return MeshText(L, ext)
def c18(g, N, run, beh):
    yield from meshlife(g, run, beh, int(250 * N), "C18")
    yield from filemodel(g, run, beh, "rdf", int(350 * N)); yield from filemodel(g, run, beh, "obj", int(350 * N))
    for k in range(int(260 * N)):
        s = Scn("bad-%d" % k); F = Files(run, s); ext = g.c(["rdf", "obj"]); mk = rdf_lines if ext == "rdf" else obj_lines
        pose = g.c([Pose(), g.pose(1.)]); s.cmd("meshe 1")
        if g.p(.7): fid, path = F.put(MeshText(mk(g), ext), g); load(s, "load", 1, fid, ext, 1.0, pose, path)
        for _ in range(g.i(1, 3)):
            w = g.i(0, 9)
            if w == 0: fid, path = F.put(MeshText(mk(g), ext), g, there=False); kind = ext
            elif w == 1:                                           # wrong extension
                x = g.c(["txt", "obj" if ext == "rdf" else "rdf", "rd", "rdfx", "OBJ"]); fid, path = F.put(MeshText(mk(g), x), g); kind = ext
            else: fid, path = F.put(spoil(g, MeshText(mk(g), ext)), g); kind = ext
            op = g.c(["load", "load", "ctor"])
            load(s, op, 1 if op == "load" else 5, fid, kind, g.c([1.0, 1.0, -0.5 if ext == "obj" else 1.0]), pose, path)
            s.cmd("mobs 1"); s.query(1, (-5, -5, -5), (5, 5, 5))
        if g.p(.3): s.shell(1, 3, (.3, 4., .15, 4., .1)); s.setupm(1, 1, g.c("gs"), Pose(t=(0, 0, .2)))
        if g.p(.7): mt = MeshText(mk(g), ext); fid, path = F.put(mt, g); load(s, "load", 1, fid, ext, 1.0, pose, path); s.cmd("mobs 1"); [s.query(1, lo, hi) for lo, hi in qboxes(g, nodes_of(mt, pose))]
        s.cost = 3; yield s

def c19(g, N, run, beh):
    yield from meshlife(g, run, beh, int(600 * N), "C19")
    for k in range(int(100 * N)):
        s = Scn("meshes-%d" % k); F = Files(run, s); alive = set(); sh = (.3, 4., .15, 4., .1); s.shell(1, 3, sh); good = []
        for _ in range(g.i(5, 14)):
            w = g.r.random(); m = g.i(1, 3)
            if good and g.p(.2): a, b, c = g.c(good); load(s, "load", g.c(sorted(alive)), a, b, .5, g.c([Pose(), g.pose(1.), g.pose(3.)]), c)   # the same file again, somewhere else
            elif w < .15: s.meshv(m, g.soup(0, 0, 0, 2., g.i(1, 9)), g.i(0, 2)); alive.add(m)
            elif w < .2: s.cmd("meshe %d" % m); alive.add(m)
            elif w < .4:
                ext = g.c(["rdf", "obj"]); mt = MeshText((rdf_lines if ext == "rdf" else obj_lines)(g), ext); bad = g.p(.3)
                fid, path = F.put(spoil(g, mt) if bad else mt, g)
                op = "load" if m in alive else "ctor"
                if bad and op == "ctor": continue
                load(s, op, m, fid, ext, .5, g.c([Pose(), g.pose(1.)]), path); alive.add(m)
                if not bad: good.append((fid, ext, path))
            elif w < .6 and alive: b = g.c(sorted(alive)); (s.cmd("meshe %d" % m) if m not in alive else None); s.cmd("copy %d %d" % (m, b)); alive.add(m)
            elif w < .7 and m in alive: s.cmd("clear %d" % m)
            elif w < .75 and m in alive and len(alive) > 1: s.cmd("drop %d" % m); alive.discard(m)
            elif m in alive: s.setupm(1, m, g.c("gs"), Pose(t=(g.u(-1, 1), g.u(-1, 1), .2)), "o b")
            for q in sorted(alive):
                if g.p(.6): s.cmd("mobs %d" % q)
                if g.p(.8): z = g.c([.3, 1., 1e3]); c = (g.u(-2, 2), g.u(-2, 2), g.u(-.5, .5)); s.query(q, sub(c, (z,) * 3), add(c, (z,) * 3), g.c([0, 2]))
        s.cost = 6; yield s

def c20(g, N, run, beh):
    for k in range(int(70 * N)):
        s = Scn("elements-%d" % k)
        for _ in range(14):
            sc = 10.0 ** g.i(-2, 2); o = (g.u(-9, 9) * g.c([0, 1, 50]), g.u(-9, 9), g.u(-9, 9)); v = [add(o, (g.u(-sc, sc), g.u(-sc, sc), g.u(-sc, sc))) for _ in range(3)]
            if g.p(.2): v = [(float(g.i(-3, 3)), float(g.i(-3, 3)), float(g.i(-2, 2))) for _ in range(3)]
            if g.p(.15): v = [(a, b, o[2]) for a, b, c in v]        # horizontal
            if g.p(.15): v = [(o[0], b, c) for a, b, c in v]        # vertical
            nn = cross(sub(v[1], v[0]), sub(v[2], v[0])); 
            if norm(nn) < 1e-9: continue
            if 0 < abs(nn[2]) < 1e-6 * norm(nn): continue
            f = g.c(["0.0", "0.5", "1.0", repr(g.u(0, 2)), "-0.5", "nan", "-1e-9", "2.5"])
            s.cmd("tri %d %d %s %s" % (g.i(0, 2), g.c([0, 1, 5, -3, 100000, k]), f, " ".join(nums(x) for x in v)))
        for _ in range(8):
            f = g.c(["0.0", "0.5", "1.0", repr(g.u(0, 2)), "-0.5", "nan", "-1e-9"]); n = g.c([(0., 0., 1.), (0., 0., 5.), (g.u(-1, 1), g.u(-1, 1), g.u(.1, 2)), (g.u(-1, 1), g.u(-1, 1), -g.u(.1, 2)), (1., 0., 0.), (0., 0., -1.)])
            s.cmd("flat %d %d %s %s %s" % (g.i(1, 2), g.i(0, 2), f, nums((g.u(-9, 9), g.u(-9, 9), g.u(-9, 9))), nums(n)))
        s.flat(1, .6, (1., 2., 3.), (.1, .2, .9)); s.cmd("fcopy 3 1"); s.flat(1, .7, (1., 2., 4.), (.1, .1, .9)); s.cmd("fcopy 3 1"); s.cmd("fcopy 4 3")
        T = g.soup(0, 0, 0, 3., g.i(1, 6), steep=True); s.meshv(1, T, g.i(0, 2)); s.cmd("mobs 1")
        s.cost = 4; yield s

# ---------------------------------------------------------------- S-function
def tyre_mesh(g, half=1.5): return None
def sfun_file(g, F):
    ext = g.c(["rdf", "obj"]); n = g.i(1, 4); h = g.height(.05); S = g.u(.8, 2.)
    P = {}; L = []; idx = {}
    for a in range(n + 1):
        for b in range(n + 1):
            x = -S + 2 * S * a / n; y = -S + 2 * S * b / n; idx[a, b] = len(idx); P[a, b] = ["%.5f" % x, "%.5f" % y, "%.5f" % h(x, y)]
    if ext == "rdf":
        L = [["[NODES]"]] + [[str(i)] + P[k] for k, i in idx.items()] + [["[ELEMENTS]"]]
    else: L = [["v"] + P[k] for k in idx]
    for a in range(n):
        for b in range(n):
            q = [idx[a, b], idx[a + 1, b], idx[a + 1, b + 1], idx[a, b + 1]]
            for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3])):
                L.append([str(x) for x in t] + [g.c(["1", "0.7", "0.9"])] if ext == "rdf" else ["f"] + [str(x + 1) for x in t])
    mt = MeshText(L, ext); return mt, F.put(mt, g)
class SSession:
    """S-function session with reference shells in the same scenario."""
    def __init__(s, g, run, name): s.g, s.s = g, Scn(name); s.F = Files(run, s.s); s.ok = False
    def init(s, n, shape, h, f, mt, fid, path, good=True):
        s.s.cmd("sinit %s %s %d %s" % (num(n), nums(list(shape) + [h, f]), fid, path))
        if good:
            s.ok = True; s.s.shell(1, n, shape); s.s.flat(1, f, (0., 0., h), (0., 0., 1.))
            s.s.cmd("meshe 1"); load(s.s, "load", 1, fid, mt.ext, 1.0, Pose(), path)
            s.n = n
    def out(s, meth, sel, pose):
        k = s.s.cmd("sout %s %s %s" % (num(meth), num(sel), pose))
        if s.ok and meth in (0, 1) and sel in (0, 1):
            m = "gs"[int(meth)]
            a = s.s.setupm(1, 1, m, pose, "o a f") if sel == 0 else None
            b = s.s.setupf(1, 1, m, pose, "o a f")
            s.s.sref(k, a if a is not None else b, b)
def sfun_random(g, N, run, count, tag):
    for k in range(count):
        z = SSession(g, run, "%s-%d" % (tag, k)); s = z.s; s.cost = 4
        if g.p(.2): s.cmd("sout 0 0 %s" % Pose()) if False else None
        for _ in range(g.i(1, 3)):
            mt, (fid, path) = sfun_file(g, z.F); sh = g.shape(); n = g.c([1, 2, 5, 19, 20, 21, 25, g.i(1, 30)]); h = g.u(-.1, .1); f = g.c([0., .5, 1.])
            w = g.r.random()
            if w < .12 and tag == "session":                       # unusable initialisations
                b = g.i(0, 3)
                if b == 0: z.init(n, sh, h, f, mt, 0, "-", good=False)
                elif b == 1: fid, path = z.F.put(MeshText([["x"]], "txt"), g); z.init(n, sh, h, f, mt, fid, path, good=False)
                elif b == 2: fid, path = z.F.put(spoil_sure(g, mt), g); z.init(n, sh, h, f, mt, fid, path, good=False)
                else: fid, path = z.F.put(mt, g, there=False); z.init(n, sh, h, f, mt, fid, path, good=False)
                s.after_bad = True
                mt, (fid, path) = sfun_file(g, z.F); z.init(n, sh, h, f, mt, fid, path)
            else: z.init(n, sh, h, f, mt, fid, path)
            for _ in range(g.i(1, 6)):
                w = g.r.random(); r = g.rot(.3)
                t = (g.u(-1, 1), g.u(-1, 1), h + sh[0] * g.u(.6, 1.1)) if w < .6 else (g.u(5, 9), g.u(-9, 9), h + sh[0] * g.u(.6, 1.1)) if w < .85 else (0., 0., 9.)
                meth, sel = g.c([0, 0, 0, 1, 1, 1]), g.c([0, 0, 0, 1])
                if tag == "session" and g.p(.15): meth, sel = g.c([(2, 0), (0, 2), (-1, 0), (0, 0.5), (float("nan"), 0), (1.5, 1), (1, float("nan"))])
                z.out(meth, sel, Pose(r, t)); s.cost += 1.2 + n * .15
            if g.p(.5): s.cmd("send"); z.ok = z.ok
        yield s
def spoil_sure(g, mt):
    L = [list(l) for l in mt.lines]; L[-1][1] = "-4"; return MeshText(L, mt.ext)
def c21(g, N, run, beh): yield from sfunmodel(g, run, beh, int(60 * N), "C21"); yield from sfun_random(g, N, run, int(75 * N), "bus")
def c22(g, N, run, beh): yield from sfunmodel(g, run, beh, int(150 * N), "C22"); yield from sfun_random(g, N, run, int(45 * N), "session")

# ---------------------------------------------------------------- trees
def rbox(g, kind):
    if kind == "int": a = [float(g.i(0, 6)) for _ in range(3)]; return tuple(a), tuple(x + g.c([0, 0, 1, 1, 2]) for x in a)
    if kind == "pt": a = tuple(g.u(-3, 3) for _ in range(3)); return a, a
    if kind == "scales": z = 10. ** g.i(-4, 3); a = [g.u(-z, z) for _ in range(3)]; return tuple(a), tuple(x + g.u(0, z) for x in a)
    if kind == "line": x = float(g.i(0, 30)); return (x, 0., 0.), (x + g.c([0., 1., 5.]), 0., 0.)
    if kind == "same": return (0., 0., 0.), (1., 1., 1.)
    a = [g.u(-5, 5) for _ in range(3)]; return tuple(a), tuple(x + g.u(0, 3) for x in a)
KINDS = ["int", "pt", "scales", "line", "same", "any", "any"]
def c23(g, N, run, beh):
    yield from treemodel(g, beh, int(1000 * N))
    for k in range(int(130 * N)):
        s = Scn("trees-%d" % k); cost = 1
        for t in (1, 2):
            n = g.c([0, 1, 1, 2, 3, 5, 8, g.i(1, 40), g.i(1, 40)]); kd = g.c(KINDS); B = [rbox(g, kd if g.p(.9) else g.c(KINDS)) for _ in range(n)]
            if g.p(.2) and B: B = [g.c(B) for _ in B]
            s.cmd("tree %d %s" % (t, " ".join(nums(a) + " " + nums(b) for a, b in B))); cost += n * .05
        s.cmd("treex 1 2 0"); s.cmd("treex 1 2 1"); s.cmd("treex 2 1 0"); s.cmd("treex 1 1 0")
        for _ in range(g.i(1, 3)): a, b = g.c([(1, 2), (2, 1), (1, 1)]); s.cmd("treec %d %d %d %d %d" % (a, b, g.i(0, 1), g.c([0, g.i(1, 9), g.i(1, 40)]), g.i(1, g.c([2, 9, 40]))))
        if g.p(.4): s.cmd("treeclear %d" % g.i(1, 2)); s.cmd("treex 1 2 0"); s.cmd("treex 2 1 1")
        if g.p(.4):
            n = g.i(0, 10); B = [rbox(g, "int") for _ in range(n)]; s.cmd("tree 1 %s" % " ".join(nums(a) + " " + nums(b) for a, b in B)); s.cmd("treex 1 2 0"); s.cmd("treex 2 1 0")
        s.cost = cost + 2; yield s

def c26(g, N, run, beh):
    yield from posemodel(g, beh, int(300 * N))
    for k in range(int(90 * N)):
        s = Scn("pose-%d" % k); sh = g.shape(); s.shell(1, 2, sh, "p"); s.flat(1, 1., (0, 0, 0), (0, 0, 1)); s.meshv(1, [(0, 1., (-1., -1., 0.), (1., -1., 0.), (0., 1., 0.))])
        if k % 3 == 0:                                                 # a slow motion, near the origin or far from it: every step counts
            far = g.c([0., 3., 700., 3000.]); P = Pose(g.pose(1.).r, tuple(g.u(-1, 1) * far for _ in range(3))); s.cmd("transform 1 %s" % P)
            for _ in range(g.i(4, 9)):
                e = g.c([1e-4, 1e-6, 1e-8]); d = tuple(g.u(-e, e) for _ in range(3)); w = g.i(0, 5)
                P = Pose(P.r, add(P.t, d)) if w > 1 else Pose(mm(P.r, rx(d[0])), P.t)
                if w in (0, 2): s.cmd("transform 1 %s" % P)
                elif w in (1, 3): s.setupf(1, 1, g.c("gs"), P, "p")
                elif w == 4: s.setupm(1, 1, g.c(["g", "s", "other"]), P, "p")
                else: s.cmd("translate 1 " + nums(d)) if g.i(0, 1) else s.cmd("rotate 1 %s %s" % (num(e), nums(g.c([(1, 0, 0), (0, 1, 0), (0, 0, 1)]))))
                s.cmd("obs 1 p")
            s.cost = 5; yield s; continue
        for _ in range(g.i(3, 9)):
            w = g.i(0, 7)
            if w == 0: s.cmd("transform 1 %s" % g.pose(2.))
            elif w in (1, 2): s.cmd("translate 1 " + nums((g.u(-2, 2), g.u(-2, 2), g.u(-2, 2))))
            elif w in (3, 4): s.cmd("rotate 1 %s %s" % (num(g.c([g.u(-3, 3), g.u(-3, 3), math.pi / 2, 7.5])), nums(g.c([(1, 0, 0), (0, 1, 0), (0, 0, 1), unit((g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)))]))))
            elif w == 5: s.setupf(1, 1, g.c("gs"), g.pose(2.), "p")
            elif w == 6: s.setupm(1, 1, g.c(["g", "s", "g", "other"]), g.pose(2.), "p")
            else: s.cmd("resize 1 %d" % g.i(1, 4))
            s.cmd("obs 1 p" + g.c(["", " o a", " f"]))
        s.cost = 5; yield s

def c27(g, N, run, beh):
    yield from latticemodel(g, beh, int(60 * N), "C27")
    for k in range(int(50 * N)): yield graze(g, "sane-thin", k, "any", ["g", "s"])
    for k in range(int(40 * N)): yield graze(g, "sane-miss", k, "any", ["s", "g"], miss=.7)
    for k in range(int(220 * N)): yield contact(g, "sane", k, "any", ["g", "s"], n=g.nribs(8), camber=g.c([.35, 1.5]))
    for k in range(int(40 * N)):                                   # radial, vertical and tiny triangles
        sh = g.shape(); n = g.nribs(5); pose = g.pose(); s = Scn("sane-odd-%d" % k); s.shell(1, n, sh); T = []
        for j in range(g.i(1, 6)):
            w = g.i(0, 3); y = g.u(-1, 1) * sh[4]; a = g.u(-3.2, 3.2); R = sh[0]; q = lambda r_, yy, a_: pose.at((r_ * math.cos(a_), yy, r_ * math.sin(a_)))
            if w == 0: v = [q(R * .2, y - .3, a), q(R * .2, y + .3, a), q(R * 1.2, y, a)]
            elif w == 1: v = [q(R * .99, y - .3, a), q(R * .99, y + .3, a + .3), q(R * 1.1, y, a + .1)]
            elif w == 2: v = [q(R * .5, y - .01, a), q(R * .5, y + .01, a), q(R * .5, y, a + .05)]
            else: v = [q(0., y - .5, a), q(0., y + .5, a), q(R, y, a)]
            if norm(cross(sub(v[1], v[0]), sub(v[2], v[0]))) > 1e-9: T.append((j, g.friction(), *v))
        if not T: continue
        s.meshv(1, T); s.setupm(1, 1, "g", pose); s.setupm(1, 1, "s", pose); s.cost = 2; yield s

# ---------------------------------------------------------------- behaviours generated by the models (see spec/)
def some(g, l, k): return l if len(l) <= k else g.r.sample(l, k)
def histories(g, beh, p, count, flags="o r b"):
    """ShellLife: histories of one tyre on two meshes, an empty one and a plane."""
    H = some(g, [h for h in beh["ShellLifeGen"] if h[-1]["op"] == "setup" or p in ("C13", "C11")], count) + some(g, beh["ShellLifeWalk"], max(8, count // 4))
    for k, h in enumerate(H):
        s = Scn("life-%d" % k); sh = g.shape(wide=g.c([None, (.1, .4)])); n = h[0]["n"]; cost = 3; fresh = 90
        cam = g.c([0., g.u(-.3, .3), g.u(-1., 1.)]); o = g.place(); yaw = g.u(-3.2, 3.2)
        on = Pose(mm(rz(yaw), mm(rx(cam), ry(g.u(-3, 3)))), o)
        P = dict(on=on, half=Pose(mm(on.r, rx(g.c([-1, 1]) * g.u(.1, .5))), add(on.t, add(mul(g.u(-1, 1) * sh[4], col(on.r, 1)), (0, 0, g.u(0, .3) * sh[0])))),
                 over=Pose(on.r, add(on.t, (0, 0, sh[0] * g.u(.3, .9)))), away=Pose(on.r, add(on.t, (0, 0, 50.))))
        b = g.bottom(sh, on); z = b[2] + sh[0] * g.u(.05, .3)
        big = g.grid(b[0], b[1], z, 1.6 * sh[0], g.i(2, 4), g.i(2, 4), amp=.05 * sh[0])
        small = g.grid(b[0] + g.u(-.3, .3) * sh[0], b[1] + g.u(-.3, .3) * sh[0], z, g.u(.2, 1.) * sh[0], 1, 1, amp=.02 * sh[0])
        G = dict(big=1, small=2, none=3, plane=1)
        s.shell(1, n, sh, "r b"); s.meshv(1, big); s.meshv(2, small); s.cmd("meshe 3"); s.flat(1, g.friction(), (b[0], b[1], z), (g.u(-.2, .2), g.u(-.2, .2), 1.))
        for op in h[1:]:
            if op["op"] == "resize": n = op["n"] or n; s.cmd("resize 1 %d" % op["n"])
            elif op["op"] == "move": s.cmd("transform 1 %s" % P[op["p"]])
            else:
                f = s.setupf if op["g"] == "plane" else s.setupm; a = (G[op["g"]], op["m"], P[op["p"]], flags); x = f(1, *a); cost += 1.5 + n * .1
                if p == "C13" and op["m"] != "other": fresh += 1; s.shell(fresh, n, sh, "r"); y = f(fresh, *a); s.rel("twin", x, y)
                if p == "C04" and op["m"] == "g" and op["g"] in ("big", "small"): y = s.brute(1, G[op["g"]], "g", P[op["p"]]); s.rel("pruned", x, y)
            if p == "C11": s.cmd("obs 1 " + " ".join(g.r.sample(["o", "a", "A", "v%d" % g.c([0, 1, n, n + 5, 40]), "f", "w%d" % g.c([0, n, n + 3, 50])], 6)))
            elif p == "C13" and g.p(.3): s.cmd("obs 1 o a")
        s.cost = cost; yield s
def latticemodel(g, beh, count, p):
    """Lattice: terrains of one or two lattice triangles or a plane patch, under a tyre of twice the lattice step."""
    for k, b in enumerate(some(g, beh["Lattice"], count)):
        a = g.c([1., .125, .25, g.u(.05, .6)]); n, ly = g.c([(1, .25), (1, 1.), (2, .5), (3, 1.2), (4, 1.), (5, .4)])
        sh = (2 * a, g.c([1., 2., 8.]), ly * a * g.c([1., 1.5, 2.]), g.c([1., 4., 9.]), ly * a); s = Scn("lattice-%d" % k); s.shell(1, n, sh, "r b")
        pose = Pose() if g.p(.35) else Pose(g.c([ID, rz(math.pi / 2), ry(math.pi / 2), rz(g.u(-3, 3))]), tuple(float(g.i(-4, 4)) for _ in range(3))) if g.p(.4) else g.pose()
        uni = g.c([None, None, .5]); T = [(i, uni or g.friction(), *[pose.at(mul(a, v)) for v in t]) for i, t in enumerate(b["ts"])]
        def slope(t): n_ = cross(sub(t[3], t[2]), sub(t[4], t[2])); return abs(n_[2]) / norm(n_)
        m = "s" if p == "C09" else "g" if p in ("C02", "C04", "C15", "C14") else g.c("ggs")
        if min(map(slope, T)) < .05:
            if p == "C09" or p == "C14": continue
            m = "g"
        s.meshv(1, T); fl = {"C10": "o b a", "C11": "o a A f", "C12": "o b a f"}.get(p, "o b"); x = s.setupm(1, 1, m, pose, fl)
        if p == "C04":
            y = s.brute(1, 1, m, pose); s.rel("pruned", x, y); s.meshv(2, shuffled(g, T)); y = s.setupm(1, 2, m, pose); s.rel("permuted", x, y)
        elif p == "C15":
            for j in (2, 3): s.meshv(j, subdivide(g, T, g.i(1, 3))); y = s.setupm(1, j, m, pose); s.rel("split", x, y, uniform=uni is not None)
        elif p == "C14":
            Q = Pose(rz(g.u(-3.2, 3.2)), g.place()); s.meshv(2, moved(Q, T)); y = s.setupm(1, 2, m, after(Q, pose)); s.rel("moved", x, y, Q=Q)
            for w in (math.pi / 2, g.u(-3, 3)): y = s.setupm(1, 1, m, Pose(mm(pose.r, ry(w)), pose.t)); s.rel("spun", x, y)
        else:
            for _ in range(2):
                q = Pose(pose.r, add(pose.t, mul(a * g.c([.25, .5, 1., 1e-3]), col(pose.r, g.i(0, 2))))); s.setupm(1, 1, m, q, fl)
        s.cost = 2 + n * .15; yield s
def filemodel(g, run, beh, ext, count):
    """FileGen: short files over an alphabet of good and bad lines; the mesh is observed and queried after each."""
    B = some(g, beh["FileGen-" + ext], count) + (some(g, beh["FileGen3-" + ext], 6 * count) if "FileGen3-" + ext in beh else [])
    for c in range(0, len(B), 5):
        s = Scn("lines-%s-%d" % (ext, c)); F = Files(run, s); s.cost = 0; s.cmd("meshe 1")
        if g.p(.5): s.meshv(1, g.soup(0, 0, 0, 2., g.i(1, 3)))
        for lines in B[c:c + 5]:
            mt = MeshText(lines, ext); fid, path = F.put(mt, g, plain=g.p(.5)); pose = g.c([Pose(), Pose(t=(1., -2., .5)), g.pose(1.)]); fr = g.c([.5, 1., 0.])
            op = g.c(["load", "load", "ctor"]); load(s, op, 1 if op == "load" else 2, fid, ext, fr, pose, path); s.cmd("mobs 1")
            s.query(1, (-9., -9., -9.), (9., 9., 9.)); s.query(1, pose.at((2., 1., 0.)), add(pose.at((2., 1., 0.)), (2., 2., 2.)), g.c([0, 1])); s.cost += .6
        yield s
def meshlife(g, run, beh, count, p):
    """MeshLife: histories of mesh objects; every live mesh is observed and queried after every step."""
    H = some(g, beh["MeshLife"], count) + (some(g, beh["MeshLifeAll"], 6 * count) if "MeshLifeAll" in beh else [])
    short_ = len(H); H += beh["MeshLifeWalk"]
    for k, h in enumerate(H):
        s = Scn("mlife-%d" % k); F = Files(run, s); ext = g.c(["rdf", "obj"]); up = set(); o = 1 if ext == "obj" else 0; fr = g.c([.5, 1.0])
        tok = {}
        for j, t in enumerate(["a1", "a2", "b1", "b2", "b3", "c1", "c2", "d1", "d2"]):
            c = (g.c([0., 3.]) * j, g.u(-1, 1), 0.)
            while True:
                v = [[float("%.4f" % (c[q] + g.u(-1, 1))) for q in range(3)] for _ in range(3)]
                if norm(cross(sub(v[1], v[0]), sub(v[2], v[0]))) > .05: break
            tok[t] = [tuple(x) for x in v]
        lists = dict(A=["a1", "a2"], B=["b1", "b2", "b3"], D=["d1", "d2"], E=[])
        def text(ts, after=()):
            V = [[repr(x) for x in v] for t in ts for v in tok[t]]; n = len(V)
            el = [[str(3 * q + o), str(3 * q + 1 + o), str(3 * q + 2 + o)] for q in range(len(ts))]
            if ext == "rdf": return MeshText([["[NODES]"]] + [[str(i)] + v for i, v in enumerate(V)] + [["[ELEMENTS]"]] + [e + [repr(fr)] for e in el] + [x(n) for x in after], ext)
            return MeshText([["v"] + v for v in V] + [["f"] + e for e in el] + [["f"] + x(n)[:3] if len(x(n)) > 3 else ["f"] + x(n)[:2] for x in after], ext)
        short = lambda n: [str(o), str(o + 1), str(o + 2)]        # rdf: friction missing; obj: one index missing
        undef = lambda n: [str(o), str(o + 1), str(n + o), "1.0"]
        neg = lambda n: ["-1", str(o + 1), str(o + 2), "1.0"]
        defect = g.c([undef, neg]) if g.p(.7) else short
        files = dict(goodA=text(["a1", "a2"]), goodB=text(["b1", "b2", "b3"]), goodD=text(["d1", "d2"]), badLast=text(["c1", "c2"], [defect]), badNode=text(["c1"], [undef]), hollow=None)
        if ext == "rdf": files["badFirst"] = MeshText([["[NODES]"], ["0", "1", "2"]] + text(["c1"]).lines, ext); files["hollow"] = MeshText(text(["c1"]).lines[:4] + [["[ELEMENTS]"]], ext)
        else: files["badFirst"] = MeshText([["f", "1", "2", "3"]] + text(["c1"]).lines, ext); files["hollow"] = MeshText(text(["c1"]).lines[:3], ext)
        files["missing"] = text(["c1"]); put = {}
        for at, op in enumerate(h):
            m = op["m"]
            if op["op"] == "new": s.cmd("meshe %d" % m); up.add(m)
            elif op["op"] == "list": s.meshv(m, [(q, fr, *tok[t]) for q, t in enumerate(lists[op["x"]])], g.i(0, 2)); up.add(m)
            elif op["op"] == "copy": s.cmd("copy %d %d" % (m, op["n"]))
            elif op["op"] == "clear": s.cmd("clear %d" % m)
            else:
                x = op["x"]
                if x not in put: put[x] = F.put(files[x], g, there=x != "missing")
                load(s, op["op"], m, put[x][0], ext, fr, Pose(), put[x][1])
                if op["op"] == "ctor" and x.startswith("good"): up.add(m)
            for q in sorted(up):
                if k >= short_ and g.p(.6) and at < len(h) - 1: continue   # in long walks, not always
                s.cmd("mobs %d" % q)
                for t in some(g, sorted(tok), 2):
                    lo, hi = bounds((0, 0) + tuple(tok[t])); s.query(q, lo, hi, g.c([0, 0, 1, 3]))
                s.query(q, (-99.,) * 3, (99.,) * 3, g.c([0, 2]))
        if p != "C03" and up and g.p(.4): s.shell(1, 2, (.3, 4., .15, 4., .1)); [s.setupm(1, q, g.c("gs"), Pose(t=(g.u(-1, 1), g.u(-1, 1), .1)), "o b") for q in sorted(up)]
        s.cost = 1 + .4 * len(h); yield s
def sfunmodel(g, run, beh, count, p):
    """SfunLife: sessions on files that are rewritten, removed and spoilt between initialisations."""
    H = some(g, [h for h in beh["SfunLife"] if h[-1]["op"] == "step"], int(count * .6))
    H += beh["SfunLifeWalk"]
    for h in some(g, beh["SfunLifeRe"], int(count * .6)):          # repeated initialisations
        H.append([dict(op, flat=g.c(["f1", "f1", "f2"]), tyre=g.c(["small", "small", "large"]), m=g.c("gs"), s=g.c(["mesh", "mesh", "flat"])) for op in h])
    for k, h in enumerate(H):
        z = SSession(g, run, "slife-%d" % k); s = z.s; s.cost = 4; sh = g.shape(); R = sh[0]
        def patch(x0, fr, ext):
            S = 1.5; V = [(x0 - S, -S), (x0 + S, -S), (x0 + S, S), (x0 - S, S)]; zz = lambda q: "%.4f" % (g.u(-.02, .02) * R)
            V = [["%.3f" % a, "%.3f" % b, zz(0)] for a, b in V]
            return MeshText([["NODES"]] + [[str(i)] + v for i, v in enumerate(V)] + [["ELEMENTS"], ["0", "1", "2", fr], ["0", "2", "3", fr]] if ext == "rdf" else [["v"] + v for v in V] + [["f", "1", "2", "3"], ["f", "1", "3", "4"]], ext)
        ext = dict(a=g.c(["rdf", "obj"]), b=g.c(["rdf", "obj"])); C = {}
        for q in "ab":
            for c, mt in (("m1", patch(0., "0.5", ext[q])), ("m2", patch(3.6, "0.75", ext[q]))): C[q, c] = (mt,) + z.F.put(mt, g)
            bad = spoil_sure(g, C[q, "m1"][0]); C[q, "bad"] = (bad,) + z.F.put(bad, g)
            gone = C[q, "m1"][0]; C[q, "gone"] = (gone,) + z.F.put(gone, g, there=False)
        disk = dict(a="m1", b="m2"); at = dict((q, os.path.join(run, "slife-%d-at-%s.%s" % (k, q, ext[q]))) for q in "ab")
        def place(q): s.cmd("place %s %s" % ("-" if disk[q] == "gone" else C[q, disk[q]][2], at[q]))
        place("a"); place("b")
        hgt = dict(f1=g.u(-.05, .05) * R, f2=-.3 * R); fr = dict(f1=.25, f2=1.0); n = dict(small=g.c([1, 2, 5, 20]), large=g.c([21, 25]))
        P = dict(p1=(0.,), p2=(3.6,), pp=(1.8,), up=(0.,)); rot = g.c([ID, rz(g.u(-3, 3)), ry(g.u(-3, 3))])
        for op in h:
            if op["op"] == "write": disk[op["path"]] = op["c"]; place(op["path"])
            elif op["op"] == "init":
                mt, fid, src = C[op["path"], op["c"]]; nn, ff = n[op["tyre"]], fr[op["flat"]]; good = op["c"] in ("m1", "m2") and op["wrong"] == "no"
                if op["wrong"] == "size": nn = 0
                if op["wrong"] == "friction": ff = -.5
                s.cmd("sinit %s %s %d %s" % (num(nn), nums(list(sh) + [hgt[op["flat"]], ff]), fid, at[op["path"]]))
                if good: z.ok = True; s.shell(1, nn, sh); s.flat(1, ff, (0., 0., hgt[op["flat"]]), (0., 0., 1.)); s.cmd("meshe 1"); load(s, "load", 1, fid, mt.ext, 1.0, Pose(), src); s.cost += nn * .1
            elif op["op"] == "end": s.cmd("send")
            else:
                x = P[op["p"]][0]; pose = Pose(rot, (x + g.u(-.05, .05), g.u(-.3, .3), R * (g.u(.75, .9) if op["p"] != "up" else 3.)))
                z.out(dict(g=0, s=1).get(op["m"], g.c([2, -1, .5])), dict(mesh=0, flat=1).get(op["s"], g.c([2, -1, .5])), pose); s.cost += 2
        yield s
def treemodel(g, beh, count):
    """AabbTree: every pair of small collections of intervals, along a random axis."""
    B = some(g, beh["AabbGen"], count)
    for c in range(0, len(B), 12):
        s = Scn("intervals-%d" % c); s.cost = 3
        for pair in B[c:c + 12]:
            ax = g.i(0, 2); sc = g.c([1., .5, 3.]); of = g.c([0., 0., -7., .25]); lo, hi = g.c([(0., 1.), (0., 0.), (-2., 5.)])
            for t, L in zip((1, 2), pair):
                L = list(L); g.r.shuffle(L); b = []
                for x, y in L:
                    u, v = [lo] * 3, [hi] * 3; u[ax], v[ax] = of + sc * x, of + sc * y; b.append(nums(u) + " " + nums(v))
                s.cmd("tree %d %s" % (t, " ".join(b)))
            s.cmd("treex 1 2 %d" % g.i(0, 1)); s.cmd("treex 2 1 %d" % g.i(0, 1)); s.cmd("treec %d %d %d %d %d" % (*g.c([(1, 2), (2, 1)]), g.i(0, 1), g.i(0, 3), g.i(1, 3)))
        yield s
def posemodel(g, beh, count):
    """PoseLife: walks over the rotations of the cube, with every way to change the pose."""
    for k, h in enumerate(some(g, beh["PoseLife"], count) + beh["PoseLifeWalk"]):
        s = Scn("walk-%d" % k); sh = g.shape(); s.shell(1, 2, sh, "p"); s.flat(1, 1., (0, 0, -.2), (0, 0, 1)); s.meshv(1, [(0, 1., (-1., -1., -.2), (1., -1., -.2), (0., 1., -.2))])
        for op in h:
            e = [0., 0., 0.]
            if op["op"] == "translate": e[op["k"] - 1] = float(op["d"]); s.cmd("translate 1 " + nums(e))
            elif op["op"] == "rotate":
                q = op["q"]; q, d = g.c([(q, 1.), (q - 4, 1.), (-q, -1.), (4 - q, -1.)]); e[op["k"] - 1] = d; s.cmd("rotate 1 %s %s" % (num(q * math.pi / 2), nums(e)))
            elif op["op"] == "transform": s.cmd("transform 1 %s" % Pose(op["r"], op["t"]))
            elif op["op"] == "setupm": s.setupm(1, 1, g.c(["g", "s", "other"]), Pose(op["r"], op["t"]), "p")
            elif op["op"] == "setupf": s.setupf(1, 1, g.c("gs"), Pose(op["r"], op["t"]), "p")
            elif op["op"] == "resize": s.cmd("resize 1 %d" % g.i(0, 3))
            else: s.cmd("obs 1 o a f")
            s.cmd("obs 1 p")
        s.cost = 2 + .3 * len(h); yield s

from ggens import c24, c25, c28
TABLE = {k[0].upper() + k[1:]: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
def scenarios(prop, tier, seed, run, beh):
    N = 1.0 if tier == "quick" else float(os.environ.get("VERIF_SCALE", "12"))
    return list(TABLE[prop](gen(seed, prop), N, run, beh))
