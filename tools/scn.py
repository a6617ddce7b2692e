"""Scenario builder: scripts for the harness, with numbers, poses, grounds and mesh files."""
import json, math, os, random

# ---------------------------------------------------------------- numbers
def fx(x):
    """The specification's fixed-point form of a float."""
    if not math.isfinite(x): return []
    n = int(round(abs(x) * 2**20 * 2**40)) if abs(x) < 2**40 else int(abs(x)) << 60
    m, e = math.frexp(abs(x)); n = int(m * 2**53); sh = e - 53 + 60
    n = n << sh if sh >= 0 else ((n >> -sh) + ((n >> (-sh - 1)) & 1) if -sh < 64 else 0)
    if n == 0: return [0]
    r = [1 if x > 0 else -1]
    while n: r.append(n & 0x7fff); n >>= 15
    return r
def num(x): return repr(float(x))
def nums(v): return " ".join(num(x) for x in v)

# ---------------------------------------------------------------- 3-vectors, rotations, poses
def add(a, b): return (a[0] + b[0], a[1] + b[1], a[2] + b[2])
def sub(a, b): return (a[0] - b[0], a[1] - b[1], a[2] - b[2])
def mul(k, a): return (k * a[0], k * a[1], k * a[2])
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def norm(a): return math.sqrt(dot(a, a))
def unit(a): return mul(1 / norm(a), a)
def rx(a): c, s = math.cos(a), math.sin(a); return ((1, 0, 0), (0, c, -s), (0, s, c))
def ry(a): c, s = math.cos(a), math.sin(a); return ((c, 0, s), (0, 1, 0), (-s, 0, c))
def rz(a): c, s = math.cos(a), math.sin(a); return ((c, -s, 0), (s, c, 0), (0, 0, 1))
def mm(a, b): return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))
def mv(m, v): return tuple(dot(m[i], v) for i in range(3))
def col(m, k): return (m[0][k], m[1][k], m[2][k])
def tr(m): return tuple(zip(*m))
ID = ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
class Pose:
    def __init__(s, r=ID, t=(0., 0., 0.)): s.r, s.t = r, tuple(map(float, t))
    def __str__(s): return " ".join(nums(x) for x in s.r) + " " + nums(s.t)
    def at(s, p): return add(mv(s.r, p), s.t)
    def json(s): return {"r": [[fx(x) for x in row] for row in s.r], "t": [fx(x) for x in s.t]}
def after(q, p): return Pose(mm(q.r, p.r), q.at(p.t))          # q o p

# ---------------------------------------------------------------- scenarios
class Scn:
    """Script lines; every entry yields exactly one line of the trace."""
    def __init__(s, name, cost=1.0):
        s.name, s.cost, s.l, s.n = name, cost, [], 0
        s.cmd("reset"); s.raw(dict(e="scenario", name=name))
    def _put(s, x): s.l.append(x); s.n += 1; return s.n - 1        # local 0-based index of its trace line
    def cmd(s, t): assert "\n" not in t; return s._put(t)
    def raw(s, d): return s._put(("raw", d))
    def rel(s, kind, a, b, Q=None, uniform=None):
        d = dict(e="rel", rel=kind, a=("@", a), b=("@", b))
        if Q is not None: d["Q"] = Q.json()
        if uniform is not None: d["uniform"] = uniform
        return s.raw(d)
    def sref(s, out, m, f): return s.raw(dict(e="sref", out=("@", out), m=("@", m), f=("@", f)))
    def lines(s, off):                                             # off: trace lines before this scenario
        for x in s.l:
            if isinstance(x, str): yield x
            else:
                d = {k: (v[1] + off + 1 if isinstance(v, tuple) and v and v[0] == "@" else v) for k, v in x[1].items()}
                yield "raw " + json.dumps(d, separators=(",", ":"))
    # -- commands
    def shell(s, i, n, sh, flags=""): return s.cmd("shell %d %d %s %s" % (i, n, nums(sh), flags))
    def setupm(s, i, m, meth, pose, flags="o b"): return s.cmd("setupm %d %d %s %s %s" % (i, m, meth, pose, flags))
    def setupf(s, i, f, meth, pose, flags="o b"): return s.cmd("setupf %d %d %s %s %s" % (i, f, meth, pose, flags))
    def brute(s, i, m, meth, pose): return s.cmd("brute %d %d %s %s" % (i, m, meth, pose))
    def flat(s, i, f, o, n, ctor=0): return s.cmd("flat %d %d %s %s %s" % (i, ctor, num(f), nums(o), nums(n)))
    def meshv(s, i, tris, ctor=0):
        return s.cmd("meshv %d %d %s" % (i, ctor, " ".join("%d %s %s %s %s" % (t[0], num(t[1]), nums(t[2]), nums(t[3]), nums(t[4])) for t in tris)))
    def query(s, m, lo, hi, dirty=0): return s.cmd("query %d %d %s %s" % (m, dirty, nums(lo), nums(hi)))

# ---------------------------------------------------------------- generators
class Gen:
    def __init__(s, seed): s.r = random.Random(seed)
    def u(s, a, b): return s.r.uniform(a, b)
    def i(s, a, b): return s.r.randint(a, b)
    def p(s, q): return s.r.random() < q
    def c(s, l): return s.r.choice(l)

    def shape(s, wide=None):
        rx_ = s.u(0.15, 0.6)
        ly = s.u(0.03, 0.25) if wide is None else s.u(*wide)
        if s.p(0.2): rx_, ly = s.c([(0.3, 0.1), (0.31, 0.125), (0.5, 0.25), (0.25, 0.5)])
        ryy = ly * (1.0 if s.p(0.1) else s.u(1.01, 2.0))
        mx = s.c([1.0, 2.0, 4.0, 8.0, s.u(1.0, 12.0)]); my = s.c([1.0, 2.0, 4.0, 9.0, s.u(1.0, 12.0)])
        if s.p(0.08): my = s.u(0.6, 1.0)
        if s.p(0.08): mx = s.u(0.6, 1.0)
        return (rx_, mx, ryy, my, ly)
    def nribs(s, hi=12): return s.c([1, 2, 3, 4, 5, s.i(1, hi), s.i(1, hi)])
    def rot(s, camber=0.35):
        k = s.r.random()
        if k < 0.12: return ID
        if k < 0.2: return rz(s.c([0, math.pi / 2, math.pi, -math.pi / 2, s.u(-3.2, 3.2)]))
        if k < 0.3: return rx(s.u(-camber, camber))
        if k < 0.4: return ry(s.u(-3.2, 3.2))
        if k < 0.5: return mm(rz(s.u(-3.2, 3.2)), rx(s.u(-1.2, 1.2)))
        return mm(rz(s.u(-3.2, 3.2)), mm(rx(s.u(-camber, camber)), ry(s.u(-3.2, 3.2))))
    def place(s):
        k = s.r.random()
        m = 0.0 if k < 0.2 else 2.0 if k < 0.8 else 50.0 if k < 0.95 else 700.0
        return (s.u(-m, m), s.u(-m, m), s.u(-m, m) / 4)
    def pose(s, camber=0.35): return Pose(s.rot(camber), s.place())
    def yawpose(s, m=20.0): return Pose(rz(s.u(-3.2, 3.2)), (s.u(-m, m), s.u(-m, m), s.u(-m, m)))

    def friction(s): return s.c([0.0, 0.5, 0.8, 1.0, s.u(0, 1.5)])
    def tri(s, i, f, a, b, c):
        v = [a, b, c]
        if s.p(0.7): s.r.shuffle(v)
        return (i, f, v[0], v[1], v[2])

    def height(s, amp):
        """A random terrain height function (relative to 0)."""
        gx, gy = s.u(-0.4, 0.4), s.u(-0.4, 0.4)
        k = s.r.random()
        if k < 0.25: gx = gy = 0.0
        waves = [(s.u(-amp, amp), s.u(2, 30), s.u(2, 30), s.u(0, 6)) for _ in range(s.i(0, 3))]
        step = (s.u(0.02, 0.25), s.u(-0.2, 0.2), s.u(-3.2, 3.2)) if s.p(0.25) else None
        def h(x, y):
            z = gx * x + gy * y + sum(a * math.sin(p * x + q * y + r) for a, p, q, r in waves)
            if step and math.cos(step[2]) * x + math.sin(step[2]) * y > step[1]: z += step[0]
            return z
        return h
    def grid(s, cx, cy, z0, half, nx, ny, amp=0.03, uniform=None, noise=0.0, first=0):
        h = s.height(amp)
        ox, oy = s.u(-0.3, 0.3) * half, s.u(-0.3, 0.3) * half
        yaw = s.c([0.0, s.u(-3.2, 3.2)]); c, sn = math.cos(yaw), math.sin(yaw)
        P = {}
        for a in range(nx + 1):
            for b in range(ny + 1):
                x = -half + 2 * half * a / nx + ox + (s.u(-noise, noise) * half / nx)
                y = -half + 2 * half * b / ny + oy + (s.u(-noise, noise) * half / ny)
                X, Y = c * x - sn * y, sn * x + c * y
                P[a, b] = (cx + X, cy + Y, z0 + h(X, Y))
        fr = [s.friction() for _ in range(3)]
        T = []
        for a in range(nx):
            for b in range(ny):
                q = [P[a, b], P[a + 1, b], P[a + 1, b + 1], P[a, b + 1]]
                if s.p(0.5): q = q[1:] + q[:1]
                for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3])):
                    T.append(s.tri(first + len(T), uniform if uniform is not None else s.c(fr), *t))
        if s.p(0.5): s.r.shuffle(T)
        return T
    def soup(s, cx, cy, z0, size, n, steep=False, first=0, uniform=None):
        T = []
        while len(T) < n:
            o = (cx + s.u(-size, size), cy + s.u(-size, size), z0 + s.u(-0.5, 0.5) * size)
            L = s.u(0.03, 1.0) * size
            v = [tuple(o[k] + s.u(-L, L) for k in range(3)) for _ in range(3)]
            if not steep: v = [(a, b, o[2] + 0.4 * (d - o[2])) for a, b, d in v]
            nn = cross(sub(v[1], v[0]), sub(v[2], v[0]))
            if norm(nn) < 1e-3 * L * L or abs(nn[2]) < 0.02 * norm(nn): continue
            T.append(s.tri(first + len(T), s.friction() if uniform is None else uniform, *v))
        return T
    def bottom(s, sh, pose):
        """Lowest world point of the tyre (centre rib), roughly: where the ground should be."""
        ay = col(pose.r, 1); down = (0, 0, -1)
        d = sub(down, mul(dot(down, ay), ay)); L = norm(d)
        d = mul(1 / L, d) if L > 1e-3 else mul(-1, col(pose.r, 2))
        return add(pose.t, mul(sh[0], d))
    def ground(s, sh, pose, big=False, uniform=None, lo=-0.1, hi=0.6):
        """Triangles in reach of the tyre at that pose; the tyre sinks in by lo..hi of its radius."""
        b = s.bottom(sh, pose); R = sh[0]
        z0 = b[2] + R * (s.u(lo, hi) if s.p(0.8) else s.u(0.01, 0.1)); cx, cy = b[0], b[1]
        k = s.r.random()
        if k < 0.45:
            n = s.i(1, 6) if not big else s.i(8, 14)
            T = s.grid(cx, cy, z0, s.u(0.6, 3.0) * R, n, s.i(1, 6) if not big else s.i(8, 14), amp=0.1 * R, uniform=uniform, noise=s.c([0, 0.5]))
        elif k < 0.55:                                             # one plane of big triangles
            T = s.grid(cx, cy, z0, s.u(2, 60), 1, s.i(1, 2), amp=0.0, uniform=uniform)
        elif k < 0.7:                                              # cover one side only
            T = s.grid(cx, cy, z0, 1.5 * R, s.i(1, 5), s.i(1, 5), amp=0.05 * R, uniform=uniform)
            ax, ofs = col(pose.r, s.c([0, 1, 1])), s.u(-0.5, 0.5) * sh[4]
            T = [t for t in T if dot(ax, sub(mul(1 / 3, add(t[2], add(t[3], t[4]))), pose.t)) > ofs] or T[:1]
        elif k < 0.85:
            T = s.soup(cx, cy, z0, s.u(0.3, 1.5) * R, s.i(1, 12 if not big else 80), steep=s.p(0.5), uniform=uniform)
        elif k < 0.93:                                             # layers
            T = []
            for _ in range(s.c([2, 2, 3, 4, 5])):
                m = s.i(1, 2 if len(T) > 8 else 4); T += s.grid(cx, cy, z0 + s.u(-0.4, 0.2) * R, s.u(1.2, 2.) * R, m, s.i(1, 2), amp=0.05 * R, uniform=uniform, first=len(T))
            if s.p(.5): s.r.shuffle(T)
        else:                                                      # small patch + scattered outliers
            T = s.grid(cx, cy, z0, 0.7 * R, s.i(1, 3), s.i(1, 3), amp=0.05 * R, uniform=uniform)
            T += s.soup(cx, cy, z0, 30 * R, s.i(1, 6), first=len(T), uniform=uniform)
        if s.p(0.3):
            T = [(s.c([i, 0, 7, -3]), f, a, b_, c) for i, f, a, b_, c in T]
        return T
    def plane(s, sh, pose, lo=-0.2, hi=0.7):
        b = s.bottom(sh, pose)
        n = (0., 0., 1.) if s.p(0.3) else (s.u(-0.6, 0.6), s.u(-0.6, 0.6), s.u(0.3, 2.0))
        o = add(b, (s.u(-1, 1) * s.c([0, 1]), s.u(-1, 1) * s.c([0, 1]), 0.0))
        un = unit(n)
        o = add(o, mul(-dot(un, sub(o, b)) + sh[0] * s.u(lo, hi), un))
        return s.friction(), o, n

# ---------------------------------------------------------------- mesh files
def tok(t):
    """A token as the specification sees it."""
    try: x = fx(float(t)) if t[0] in "+-.0123456789" and not any(c in t for c in "xXnN_") else []
    except ValueError: x = []
    lead = t.split("/")[0]
    try: i = int(lead) if lead.lstrip("+-").isdigit() else -1000000
    except ValueError: i = -1000000
    return dict(s=t if all(32 < ord(ch) < 127 for ch in t) and len(t) < 30 else "?", c=t[0], x=x, i=i if abs(i) < 10**6 else 10**6 if i > 0 else -10**6)
class MeshText:
    """Lines of tokens, and how they are written down."""
    def __init__(s, lines, ext): s.lines, s.ext = lines, ext
    def event(s, fid, there=True): return dict(e="file", id=fid, there=there, ext=s.ext, lines=[[tok(t) for t in l] for l in s.lines])
    def text(s, g, plain=False):
        nl = "\n" if plain or g.p(0.6) else "\r\n"
        o = []
        for l in s.lines:
            if plain: o.append(" ".join(l)); continue
            lead = g.c(["", "", "", " ", "\t", "   "])
            if l == []: o.append(g.c(["", "", " ", "\t"])); continue
            t = lead
            for k, w in enumerate(l): t += ("" if k == 0 else g.c([" ", " ", "  ", "\t", "    "])) + w
            o.append(t + g.c(["", "", "", " ", "  ", "\t"]))
        r = nl.join(o)
        return r + ("" if (not plain and g.p(0.25)) else nl)
