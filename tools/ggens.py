"""Scenario generators for the geometry layer (C24, C25, C28): primitives with small integer coordinates."""
import math
from scn import *

KINDS = ["pt", "line", "ray", "plane", "seg", "tri", "disk", "ball"]
ROUND = {"disk", "ball"}
def sv(v): return "%d %d %d" % tuple(v)
def icross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])

class Prim:
    def __init__(s, k, *f): s.k, s.f = k, f
    def __str__(s): return s.k + " " + " ".join(sv(x) if isinstance(x, (tuple, list)) else str(x) for x in s.f)
    def dir(s):
        return sub(s.f[1], s.f[0]) if s.k == "seg" else icross(sub(s.f[1], s.f[0]), sub(s.f[2], s.f[0])) if s.k == "tri" else s.f[1] if s.k in ("line", "ray", "plane", "disk") else (1, 1, 1)
    def proper(s): return any(s.dir()) and (s.k not in ROUND or s.f[-1] > 0)

class Lattice:
    """A source of integer points: a box, a plane or a line of the lattice."""
    def __init__(s, g, shape, R):
        s.g, s.R = g, R
        s.o = tuple(g.i(-1, 1) for _ in range(3)); s.u = s.vec(2); s.shape = shape
        if g.i(0, 1): s.u = g.c([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, -1, 1)])
        while True:
            s.v = g.c([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 0, -1), (-1, 1, 0)])
            if any(icross(s.u, s.v)): break
    def vec(s, R):
        while True:
            v = tuple(s.g.i(-R, R) for _ in range(3))
            if any(v): return v
    def pt(s):
        while True:
            if s.shape == "line": k = s.g.i(-3, 3); p = add(s.o, mul(k, s.u))
            elif s.shape == "plane": p = add(s.o, add(mul(s.g.i(-2, 2), s.u), mul(s.g.i(-2, 2), s.v)))
            else: p = tuple(s.g.i(-s.R, s.R) for _ in range(3))
            if max(map(abs, p)) <= 4: return p
    def dir(s):
        if s.shape == "line": return mul(s.g.c([-2, -1, 1, 2]), s.u) if max(map(abs, s.u)) <= 2 else mul(s.g.c([-1, 1]), s.u)
        if s.shape == "plane":
            while True:
                d = sub(s.pt(), s.pt())
                if any(d) and max(map(abs, d)) <= 4: return d
        return s.vec(s.g.c([1, 2, 2, 3]))
    def nrm(s):
        if s.shape == "plane" and s.g.i(0, 3):
            n = icross(s.u, s.v); k = s.g.c([-1, 1]); return mul(k, n)
        return s.vec(s.g.c([1, 2, 3]))
    def prim(s, k):
        for _ in range(200):
            p = Prim(k, *dict(pt=lambda: (s.pt(),), line=lambda: (s.pt(), s.dir()), ray=lambda: (s.pt(), s.dir()), plane=lambda: (s.pt(), s.nrm()), seg=lambda: (s.pt(), s.pt()),
                              tri=lambda: (s.pt(), s.pt(), s.pt()), disk=lambda: (s.pt(), s.nrm(), s.g.i(1, 3)), ball=lambda: (s.pt(), s.g.i(1, 3)))[k]())
            if p.proper(): return p
        return Lattice(s.g, "box", s.R).prim(k)

SIGNED = [m for m in __import__("itertools").product(*[[(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)]] * 3)
          if dot(m[0], icross(m[1], m[2])) == 1]
def motion(g, kinds, p=.4):
    """A similarity applied to the operands: exact rotations, general ones, translations, scales (not for discs and balls)."""
    if g.u(0, 1) > p: return ""
    w = g.i(0, 3)
    r = g.c(SIGNED) if w == 0 else ID if w == 1 else mm(mm(rz(g.u(-3, 3)), rx(g.u(-3, 3))), ry(g.u(-3, 3)))
    t = (0., 0., 0.) if g.i(0, 1) else tuple(g.u(-3, 3) for _ in range(3))
    if not ROUND & set(kinds) and g.i(0, 2) < 2: k = g.c([.125, .25, .5, 2., 10.]); r = tuple(mul(k, x) for x in r)
    return " " + str(Pose(r, t))

PAIRS = [(a, b) for a in KINDS for b in KINDS]
def pair(g, ka, kb, mov=.4):
    if g.i(0, 1): x = tuple(g.i(-2, 2) for _ in range(3)); return "p_pair %s %s%s" % (through(g, ka, x), through(g, kb, x), motion(g, (ka, kb), mov))
    L = Lattice(g, g.c(["box", "box", "box", "plane", "plane", "line"]), g.c([1, 2, 2, 3]))
    a = L.prim(ka); M = L if g.i(0, 3) else Lattice(g, "box", L.R)
    b = M.prim(kb)
    return "p_pair %s %s%s" % (a, b, motion(g, (ka, kb), mov))
def through(g, k, x):
    """A primitive whose carrier (line, plane) passes through the lattice point x; x itself may lie just outside."""
    for _ in range(300):
        v = lambda R=2: tuple(g.i(-R, R) for _ in range(3))
        d = g.c([v(), v(1), (1, 0, 0), (0, 1, 0), (0, 0, 1)]); j = g.i(-2, 2); u, w = v(1), v(1)
        if k in ("line", "ray"): p = Prim(k, add(x, mul(j, d)), d)
        elif k == "seg": i = g.c([-2, -1, 0, 1, 2, 2 * j, 2 * j]); p = Prim(k, *g.r.sample([add(x, mul(j, d)), add(x, mul(i, d))], 2))
        elif k in ("plane", "disk"): p = Prim(k, add(x, icross(d, v(1))), d, *([g.i(1, 3)] if k == "disk" else []))
        elif k == "tri": a = add(x, add(mul(g.i(-2, 2), u), mul(g.i(-2, 2), w))); q = [a, add(a, mul(2, u)), add(a, mul(2, w))]; g.r.shuffle(q); p = Prim(k, *q)
        elif k == "ball": p = Prim(k, add(x, v()), g.i(1, 3))
        else: p = Prim(k, x)
        if p.proper() and all(max(map(abs, f)) <= 4 for f in p.f if isinstance(f, tuple)): return p
    return Lattice(g, "box", 2).prim(k)
FLAT1 = ("line", "ray", "seg")
def pairs(g, tag, n, mov=.4, kinds=PAIRS):
    """n queries over the pairs of kinds, every pair of kinds equally often."""
    c = []
    while len(c) < n:
        K = list(kinds) + [(a, b) for a, b in kinds if a in FLAT1 and b in FLAT1] * 2; g.r.shuffle(K); c += K
    for k in range(0, n, 60):
        s = Scn("%s-%d" % (tag, k)); s.cost = 6
        for ka, kb in c[k:min(n, k + 60)]: s.cmd(pair(g, ka, kb, mov))
        yield s
def lattice_pairs(g, beh, count):
    """Pairs emitted by the model of Common over a small lattice."""
    B = beh if len(beh) <= count else g.r.sample(beh, count)
    for k in range(0, len(B), 60):
        s = Scn("model-%d" % k); s.cost = 6
        for x in B[k:k + 60]: s.cmd("p_pair %s %s%s" % (fromrec(x["a"]), fromrec(x["b"]), motion(g, (x["a"]["k"], x["b"]["k"]), .25)))
        yield s
FIELDS = dict(pt="p", line="pd", ray="pd", plane="pd", seg="pq", tri="abc", disk="pdr", ball="pr", none="")
def fromrec(r): return Prim(r["k"], *[tuple(r[f]) if isinstance(r[f], list) else r[f] for f in FIELDS[r["k"]]])

def c24(g, N, run, beh):
    if "PrimsGen" in beh: yield from lattice_pairs(g, beh["PrimsGen"], int(2400 * N))
    yield from pairs(g, "pairs", int(9000 * N), .5)
    for k in range(int(10 * N)):
        s = Scn("planes-%d" % k); s.cost = 2
        for _ in range(30):
            L = Lattice(g, g.c(["box", "plane"]), 2); a, b, c = L.prim("plane"), L.prim("plane"), L.prim("plane"); s.cmd("p_planes %s %s %s%s" % (a, b, c, motion(g, ())))
        yield s

def degenerate(g):
    p = tuple(g.i(-2, 2) for _ in range(3)); d = tuple(g.i(-2, 2) for _ in range(3)); z = (0, 0, 0)
    return Prim(*g.c([("line", p, z), ("ray", p, z), ("plane", p, z), ("seg", p, p), ("tri", p, p, add(p, d)), ("tri", p, add(p, d), p), ("tri", add(p, d), p, p), ("disk", p, (0, 0, 1), 0), ("ball", p, 0)]))
def probes(g, L, a, n):
    P = []
    for _ in range(n):
        w = g.i(0, 3)
        if w == 0 or a.k in ("ball",): x = tuple(g.i(-4, 4) for _ in range(3))
        elif w == 1: x = L.pt()
        elif a.k == "tri": x = g.c(list(a.f) + [L.pt()])
        elif a.k == "seg": x = g.c([a.f[0], a.f[1], add(a.f[0], mul(g.c([-1, 2]), sub(a.f[1], a.f[0]))), tuple((u + v) // 2 for u, v in zip(*a.f))])
        elif a.k in ("line", "ray"): x = add(a.f[0], mul(g.i(-2, 2), a.f[1]))
        else: x = add(a.f[0], icross(a.dir(), g.c([(1, 0, 0), (0, 1, 0), (0, 0, 1)]))) if a.k in ("plane", "disk") else L.pt()
        P.append(x if max(map(abs, x)) <= 12 else L.pt())
    return P
def one(g, k):
    L = Lattice(g, g.c(["box", "box", "plane"]), g.c([1, 2, 3])); a = L.prim(k) if g.i(0, 9) else degenerate(g)
    P = probes(g, L, a, 6)
    return "p_one %s %d %s%s" % (a, len(P), " ".join(sv(x) for x in P), motion(g, (a.k,), .5))
def move(g, k):
    a = Lattice(g, "box", 3).prim(k)
    return "p_move %s %s %s %s" % (a, sv([g.i(-4, 4) for _ in range(3)]), num(g.c([g.u(-3, 3), math.pi / 2, -math.pi, 7.])),
                                   nums(g.c([(1, 0, 0), (0, 1, 0), (0, 0, 1), unit((g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)))])))
def box2(g):
    v = lambda: sv([g.i(-3, 3) for _ in range(3)])
    return "p_box %s %s %s %s %s 6 %s" % (v(), v(), v(), v(), v(), " ".join(v() for _ in range(6)))
def c25(g, N, run, beh):
    if "PrimsGen" in beh: yield from lattice_pairs(g, beh["PrimsGen"], int(900 * N))
    yield from pairs(g, "relations", int(1800 * N))
    for k in range(int(45 * N)):
        s = Scn("measures-%d" % k); s.cost = 8
        for _ in range(3):
            for kind in KINDS: s.cmd(one(g, kind))
        for kind in KINDS: s.cmd(move(g, kind))
        for _ in range(10): s.cmd(box2(g))
        yield s

# ---------------------------------------------------------------- collections
BOXY = ["pt", "seg", "tri", "ball"]
class Coll:
    def __init__(z, g, s): z.g, z.s, z.tag, z.n, z.built, z.fresh = g, s, 0, {}, {}, {}
    def member(z, boxy, deg=.1):
        g = z.g; z.tag += 1
        if not boxy and g.i(0, 9) == 0: return "%d none" % z.tag
        if g.u(0, 1) < deg:
            d = degenerate(g)
            if not boxy or d.k in BOXY: return "%d %s" % (z.tag, d)
        return "%d %s" % (z.tag, Lattice(g, "box", 3).prim(g.c(BOXY if boxy else KINDS)))
    def new(z, c, how, n, boxy):
        z.s.cmd("p_new %d %d %d %s" % (c, how, n, " ".join(z.member(boxy) for _ in range(n)))); z.fresh[c] = False
    def build(z, c): z.s.cmd("p_build %d" % c); z.fresh[c] = True
    def box(z):
        v = lambda: [z.g.i(-4, 4) for _ in range(3)]
        a = v(); b = z.g.c([v(), [x + z.g.i(0, 3) for x in a]]); return sv(a) + " " + sv(b)
def collections(g, tag, n):
    for k in range(n):
        s = Scn("%s-%d" % (tag, k)); z = Coll(g, s); s.cost = 3; boxy = g.i(0, 2) > 0
        for c in (1, 2): z.new(c, g.c([0, 2]), g.c([0, 1, 2, 3, 5, 8]), boxy)
        size = None
        for _ in range(g.i(4, 10)):
            c = g.i(1, 2); w = g.i(0, 9)
            if w == 0: z.new(c, 1, g.i(1, 3), boxy)
            elif w in (1, 2): s.cmd("p_remove %d %s" % (c, g.c(["none", "pt", "line", "ray", "plane", "seg", "tri", "disk", "ball", "clampable", "nonclampable", "degenerated"]))); z.fresh[c] = False
            elif w == 3 and g.i(0, 2) == 0: s.cmd("p_clear %d" % c); z.fresh[c] = True
            elif w == 4: s.cmd("p_shift %d %s" % (c, sv([g.i(-1, 1) for _ in range(3)]))); z.fresh[c] = False
            elif w == 5: s.cmd("p_boxes %d" % c)
            elif not boxy: s.cmd("p_all %d" % c) if g.i(0, 3) == 0 else s.cmd("p_build %d" % c) 
            else:
                for d in (1, 2):
                    if not z.fresh.get(d): z.build(d)
                for _ in range(g.i(1, 3)):
                    s.cmd("p_search %d %s" % (c, g.c(["coll %d" % g.i(1, 2), "box " + z.box(), "boxes " + z.box(), "tree " + z.box()])))
        if k % 4 == 0:
            s.cmd("p_new 3 %d %d %s" % (g.c([0, 2]), 4, " ".join("%d %s" % (900 + j, Lattice(g, g.c(["box", "plane"]), 2).prim(g.c(["pt", "line", "ray", "plane", "seg"]))) for j in range(4)))); s.cmd("p_all 3")
        yield s
def collmodel(g, beh, count, name="coll"):
    """CollLife: histories of one collection; it is searched whenever its tree is up to date."""
    H = [h for h in beh if len(h) >= 3]
    H = H if len(H) <= count else g.r.sample(H, count)
    pool = dict(p=("pt", 0, 0), q=("pt", 2, 2), s=("seg", 1, 3), t=("tri", -1, 0), z=("seg", 3, 3), l=("line", 0, 0))
    for k, h in enumerate(H):
        s = Scn("%s-%d" % (name, k)); ax = g.i(0, 2); off = {}
        def at(x, y=0, z=0): v = [y, y, y]; v[ax] = x; v[(ax + 1) % 3] = z; return tuple(v)
        def member(x):
            kind, lo, hi = pool[x]; t = "pqstzl".index(x) + 1
            return "%d %s" % (t, dict(pt=lambda: Prim("pt", at(lo)), seg=lambda: Prim("seg", *g.c([(at(lo), at(hi)), (at(hi), at(lo))])), line=lambda: Prim("line", at(lo), at(1)),
                                      tri=lambda: Prim("tri", *g.r.sample([at(lo), at(hi), at(hi, 0, 1)], 3)))[kind]())
        s.cmd("p_new 1 %d 0" % g.c([0, 2])); m, fresh = [], True
        def ask():
            for _ in range(g.i(1, 3)):
                lo = g.i(-2, 4); hi = g.i(lo, 4); s.cmd("p_search 1 %s %s %s" % (g.c(["box", "boxes", "tree"]), sv(at(lo, -1, -1)), sv(at(hi, 1, 1))))
            if g.i(0, 3) == 0: s.cmd("p_search 1 coll 1")
        for op in h:
            w = op["op"]
            if w == "push": s.cmd("p_new 1 1 1 " + member(op["x"])); m.append(pool[op["x"]][0]); fresh = False
            elif w == "wipe": s.cmd("p_remove 1 " + op["w"]); fresh = False
            elif w == "clear": s.cmd("p_clear 1"); fresh = True
            elif w == "resize": s.cmd("p_resize 1 %d" % op["n"]); fresh = False
            elif w == "shift": s.cmd("p_shift 1 " + sv(at(op["d"]))); fresh = False
            else: s.cmd("p_build 1"); fresh = True
            if fresh: ask()
        if not fresh and not any(o["op"] == "push" and o["x"] == "l" for o in h): s.cmd("p_build 1"); ask()
        s.cmd("p_boxes 1"); yield s
def c28(g, N, run, beh):
    yield from collmodel(g, beh["CollLifeGen"], int(260 * N)); yield from collmodel(g, beh["CollLifeWalk"], 10 ** 6, "coll-walk")
    yield from collections(g, "collection", int(220 * N))
