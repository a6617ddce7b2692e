// Conformance harness: executes a script of commands on the real library and records
// one ndjson event per command.  It only calls the public interface of the library; what
// the values should be is decided by the TLA+ specification that reads the trace.
#include "common.hh"
#include <fstream>
#include <iostream>
#include "enve_sfun_interface.h"

using enve::output; using enve::rib; using enve::shell; using enve::triangleground;
namespace ground = enve::ground;

FILE * g_out = nullptr;
static std::map<long, std::unique_ptr<shell>>        SH;
static std::map<long, std::unique_ptr<ground::mesh>> ME;
static std::map<long, std::unique_ptr<ground::flat>> FL;
static std::map<long, std::unique_ptr<AABBtree>>     TR;

struct Missing {};                                      // the library refused to make the object
template <class M> static typename M::mapped_type & at(M & m, long k) { auto i = m.find(k); if (i == m.end() || !i->second) throw Missing{}; return i->second; }
static int guarded(std::function<void()> f) {           // 0 ok, 1 std::exception, 2 other
  try { f(); return 0; }
  catch (Missing const &) { throw; }
  catch (std::exception const &) { return 1; }
  catch (...) { return 2; }
}

static std::string jtri(triangleground const & t) {
  return "{\"id\":" + ji(t.id()) + ",\"f\":" + js(t.friction()) + ",\"v\":[" + js(vec3(t.vertex(0))) + "," +
         js(vec3(t.vertex(1))) + "," + js(vec3(t.vertex(2))) + "],\"n\":" + js(vec3(t.normal())) +
         ",\"lo\":" + js(vec3(t.bbox().min())) + ",\"hi\":" + js(vec3(t.bbox().max())) + ",\"bid\":" + ji(t.bbox().id()) + "}";
}
static std::string jout(output const & o) {
  return "{\"p\":" + js(vec3(o.point)) + ",\"n\":" + js(o.normal) + ",\"f\":" + js(o.friction) + ",\"d\":" + js(o.depth) +
         ",\"a\":" + js(o.area) + ",\"v\":" + js(o.volume) + "}";
}
static std::string jouts(shell const & s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); ++i) {
    output t; 
    s.contactPoint(i, t.point); s.contactNormal(i, t.normal); s.contactFriction(i, t.friction);
    s.contactDepth(i, t.depth); s.contactArea(i, t.area); s.contactVolume(i, t.volume);
    if (i) o += ','; o += jout(t);
  }
  return o + "]";
}
static std::string jribs(shell const & s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) o += ',';
    o += "{\"r\":" + js(s.ribRadius(i)) + ",\"c\":" + js(vec3(s.ribCenter(i))) + ",\"w\":" + js(s.ribWidth(i)) + ",\"a\":" + js(s.ribAngle(i)) + "}";
  }
  return o + "]";
}
static std::string jbox(aabb const & b) { return "[" + js(vec3(b.min())) + "," + js(vec3(b.max())) + "]"; }

static void observe(Ev & ev, shell const & s, Cmd & c) {
  while (c.more()) {
    std::string f = c.w();
    if (f == "o") ev.k("out", jouts(s));
    else if (f == "r") ev.k("ribs", jribs(s));
    else if (f == "b") ev.k("box", jbox(*s.bbox()));
    else if (f == "p") {
      vec3 eu; s.eulerAngles(eu);
      ev.k("pose", jpose(s.transformation())).k("tr", js(vec3(s.translation()))).k("rot", jmat(s.rotation()))
        .k("lin", jmat(s.linear())).k("x", js(s.x())).k("y", js(s.y())).k("z", js(s.z())).k("eul", js(eu))
        .k("last", jmat4(s.transformation().matrix()));
    }
    else if (f == "a") {
      output t;
      s.contactPoint(t.point); s.contactNormal(t.normal); s.contactFriction(t.friction);
      s.contactDepth(t.depth); s.contactArea(t.area); s.contactVolume(t.volume);
      ev.k("agg", jout(t));
    }
    else if (f == "A") {                                // the same, asked in another order into used variables
      output t; t.point = point(7, 7, 7); t.normal = vec3(7, 7, 7); t.friction = t.depth = t.area = t.volume = 7;
      s.contactVolume(t.volume); s.contactArea(t.area); s.contactDepth(t.depth);
      s.contactFriction(t.friction); s.contactNormal(t.normal); s.contactPoint(t.point);
      ev.k("agg2", jout(t));
    }
    else if (f[0] == 'v') {                             // vector forms into vectors of the given size
      size_t d = std::strtoul(f.c_str() + 1, nullptr, 10);
      std::vector<point> P(d, point(7, 7, 7)); std::vector<vec3> N(d, vec3(7, 7, 7));
      std::vector<double> F(d, 7.), D(d, 7.), A(d, 7.), V(d, 7.);
      s.contactPoint(P); s.contactNormal(N); s.contactFriction(F); s.contactDepth(D); s.contactArea(A); s.contactVolume(V);
      ev.k("vp", jlist<point>(P, [](point const & p) { return js(vec3(p)); }))
        .k("vn", jlist<vec3>(N, [](vec3 const & p) { return js(p); }))
        .k("vf", jlist<double>(F, [](double const & x) { return js(x); })).k("vd", jlist<double>(D, [](double const & x) { return js(x); }))
        .k("va", jlist<double>(A, [](double const & x) { return js(x); })).k("vv", jlist<double>(V, [](double const & x) { return js(x); }));
    }
    else if (f[0] == 'w') {                             // vector forms of frames and angles
      size_t d = std::strtoul(f.c_str() + 1, nullptr, 10);
      std::vector<affine> A(d); std::vector<vec3> G(d, vec3(7, 7, 7));
      for (auto & a : A) a.matrix().setConstant(7);
      s.contactPointAffine(A); s.relativeAngles(G);
      ev.k("vF", jlist<affine>(A, [](affine const & a) { return jmat4(a.matrix()); }))
        .k("vg", jlist<vec3>(G, [](vec3 const & p) { return js(p); }));
    }
    else if (f == "f") {                                // frames and relative angles
      affine a; vec3 g; a.matrix().setConstant(7);
      s.contactPointAffine(a); s.relativeAngles(g);
      ev.k("F", jmat4(a.matrix())).k("rg", js(g));
      std::string o = "[", q = "[";
      for (size_t i = 0; i < s.size(); ++i) {
        affine b; vec3 h; b.matrix().setConstant(7); s.contactPointAffine(i, b); s.relativeAngles(i, h);
        if (i) { o += ','; q += ','; }
        o += jmat4(b.matrix()); q += js(h);
      }
      ev.k("Fi", o + "]").k("gi", q + "]");
    }
  }
}

static std::string jmesh(ground::mesh const & m) {
  std::string o = "[";
  for (size_t i = 0; i < m.size(); ++i) { if (i) o += ','; o += m[i] ? jtri(*m[i]) : std::string("{\"id\":-1}"); }
  return o + "]";
}

static triangleground::ptr make_tri(int ctor, long id, double f, vec3 a, vec3 b, vec3 d) {
  point A(a.x(), a.y(), a.z()), B(b.x(), b.y(), b.z()), D(d.x(), d.y(), d.z());
  if (ctor == 1) return std::make_shared<triangleground const>(id, f, a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), d.x(), d.y(), d.z());
  if (ctor == 2) { point v[3] = {A, B, D}; return std::make_shared<triangleground const>(id, f, v); }
  return std::make_shared<triangleground const>(id, f, A, B, D);
}

static void sfun_bus(Ev & ev, EnveOutputBus const & b) {
  auto m16 = [](double const * p) { std::string o = "["; for (int i = 0; i < 16; ++i) { if (i) o += ','; o += fx(p[i]); } return o + "]"; };
  auto nan = [](double const * p, int n) { int k = 0; for (int i = 0; i < n; ++i) k += std::isnan(p[i]); return ji(k); };
  std::string A = "[", R = "[", F = "[", N = "[";
  for (int i = 0; i < ENVE_MAX_RIBS; ++i) {
    if (i) { A += ','; R += ','; F += ','; N += ','; }
    A += m16(b.RibsAffine + 16 * i); R += fx(b.RibsRho[i]); F += fx(b.RibsFriction[i]);
    double t[18]; for (int k = 0; k < 16; ++k) t[k] = b.RibsAffine[16 * i + k]; t[16] = b.RibsRho[i]; t[17] = b.RibsFriction[i];
    N += nan(t, 18);
  }
  ev.k("inmesh", js(b.InMesh)).k("SA", m16(b.ShellAffine)).k("Srho", js(b.ShellRho)).k("Sf", js(b.ShellFriction))
    .k("RA", A + "]").k("Rrho", R + "]").k("Rf", F + "]").k("nans", N + "]");
}

static std::string METHOD(std::string m) { return m == "g" ? "geometric" : m == "s" ? "sampling" : m; }

static void command(std::string const & line) {
  Cmd c(line);
  std::string op = c.w();
  if (op.empty() || op[0] == '#') return;
  if (op == "raw") { std::string t = c.rest(); fputs(t.c_str(), g_out); fputc('\n', g_out); fflush(g_out); return; }
  if (is_acme_command(op)) { acme_command(op, c); return; }
  Ev ev(op);
  if (op == "reset") { SH.clear(); ME.clear(); FL.clear(); TR.clear(); acme_reset(); }
  else if (op == "shell") {
    long s = c.i(), n = c.i(); double p[5]; for (double & x : p) x = c.r();
    std::unique_ptr<shell> t;
    int thr = guarded([&] { t.reset(new shell((size_t) n, p[0], p[1], p[2], p[3], p[4])); });
    ev.k("s", ji(s)).k("n", ji(n)).k("shape", "[" + js(p[0]) + "," + js(p[1]) + "," + js(p[2]) + "," + js(p[3]) + "," + js(p[4]) + "]").k("thr", ji(thr));
    if (!thr) { SH[s] = std::move(t); ev.k("size", ji(SH[s]->size())).k("ribs", jribs(*SH[s])); observe(ev, *SH[s], c); }
  }
  else if (op == "resize") {
    long s = c.i(), n = c.i();
    int thr = guarded([&] { at(SH, s)->resize((size_t) n); });
    ev.k("s", ji(s)).k("n", ji(n)).k("thr", ji(thr)).k("size", ji(at(SH, s)->size())).k("ribs", jribs(*at(SH, s)));
  }
  else if (op == "prof") {                              // profile functions at the given lateral coordinates
    long s = c.i(); shell const & t = *at(SH, s);
    std::string o = "[";
    while (c.more()) {
      double y = c.r(), r = 0, d = 0, a = 0;
      int e1 = guarded([&] { r = t.surfaceRadius(y); }), e2 = guarded([&] { d = t.surfaceDerivative(y, EPSILON_ENVE); }), e3 = guarded([&] { a = t.surfaceAngle(y, EPSILON_ENVE); });
      if (o.size() > 1) o += ',';
      o += "{\"y\":" + js(y) + ",\"r\":" + js(r) + ",\"d\":" + js(d) + ",\"a\":" + js(a) + ",\"thr\":[" + ji(e1) + "," + ji(e2) + "," + ji(e3) + "],\"in\":" + jb(t.checkWidthBound(y)) + "}";
    }
    ev.k("s", ji(s)).k("at", o + "]").k("R", js(t.surfaceMaxRadius())).k("W", js(t.surfaceWidth())).k("MW", js(t.surfaceMaxWidth()));
  }
  else if (op == "translate") { long s = c.i(); vec3 v = c.v(); int thr = guarded([&] { at(SH, s)->translate(v); }); ev.k("s", ji(s)).k("v", js(v)).k("thr", ji(thr)); }
  else if (op == "rotate") {
    long s = c.i(); double a = c.r(); vec3 v = c.v(); int thr = guarded([&] { at(SH, s)->rotate(a, v); });
    ev.k("s", ji(s)).k("ang", js(a)).k("axis", js(v)).k("thr", ji(thr));
  }
  else if (op == "transform") { long s = c.i(); affine a = c.pose(); int thr = guarded([&] { at(SH, s)->transform(a); }); ev.k("s", ji(s)).k("to", jpose(a)).k("thr", ji(thr)); }
  else if (op == "obs") { long s = c.i(); ev.k("s", ji(s)).k("size", ji(at(SH, s)->size())); observe(ev, *at(SH, s), c); }
  else if (op == "setupm" || op == "setupf") {
    long s = c.i(), g = c.i(); std::string m = c.w(); affine a = c.pose();
    int ret = -1;
    int thr = guarded([&] { ret = op == "setupm" ? at(SH, s)->setup(*at(ME, g), a, METHOD(m)) : at(SH, s)->setup(*at(FL, g), a, METHOD(m)); });
    ev.k("s", ji(s)).k("g", ji(g)).k("meth", jq(m)).k("at", jpose(a)).k("thr", ji(thr)).k("ret", ji(ret));
    observe(ev, *at(SH, s), c);
  }
  else if (op == "brute") {                             // every rib against every triangle of the mesh
    long s = c.i(), g = c.i(); std::string m = c.w(); affine a = c.pose();
    shell const & t = *at(SH, s); std::string o = "["; int thr = 0, any = 0;
    for (size_t i = 0; i < t.size(); ++i) {
      rib r((integer) i, t.ribRadius(i), t.ribCenter(i).y(), t.ribWidth(i), t.ribAngle(i));
      output u; bool hit = false;
      int e = guarded([&] { hit = r.envelop(at(ME, g)->vecptrTriangleground(), a, METHOD(m), u); });
      thr |= e; any |= hit; if (i) o += ','; o += jout(u);
    }
    ev.k("s", ji(s)).k("g", ji(g)).k("meth", jq(m)).k("at", jpose(a)).k("thr", ji(thr)).k("ret", ji(any)).k("out", o + "]");
  }
  else if (op == "flat") {
    long f = c.i(); int ctor = c.i(); double fr = c.r(); vec3 o = c.v(), n = c.v();
    std::unique_ptr<ground::flat> t;
    int thr = guarded([&] {
      if (ctor == 1) t.reset(new ground::flat(fr, o.x(), o.y(), o.z(), n.x(), n.y(), n.z()));
      else if (ctor == 2) { plane p(point(o.x(), o.y(), o.z()), n); t.reset(new ground::flat(fr, p)); }
      else t.reset(new ground::flat(fr, point(o.x(), o.y(), o.z()), n)); });
    ev.k("g", ji(f)).k("ctor", ji(ctor)).k("f", js(fr)).k("o", js(o)).k("nn", js(n)).k("thr", ji(thr));
    if (!thr) { FL[f] = std::move(t); ground::flat & q = *FL[f]; ev.k("of", js(q.friction())).k("oo", js(vec3(q.origin()))).k("on", js(q.normal())); }
  }
  else if (op == "fcopy") {
    long a = c.i(), b = c.i(); if (!FL.count(a)) FL[a].reset(new ground::flat());
    int thr = guarded([&] { FL[a]->copy(*at(FL, b)); }); ground::flat & q = *FL[a];
    ev.k("g", ji(a)).k("from", ji(b)).k("thr", ji(thr)).k("of", js(q.friction())).k("oo", js(vec3(q.origin()))).k("on", js(q.normal()));
  }
  else if (op == "tri") {                               // one ground triangle
    int ctor = c.i(); long id = c.i(); double f = c.r(); vec3 a = c.v(), b = c.v(), d = c.v();
    triangleground::ptr t; int thr = guarded([&] { t = make_tri(ctor, id, f, a, b, d); });
    ev.k("ctor", ji(ctor)).k("id", ji(id)).k("f", js(f)).k("v", "[" + js(a) + "," + js(b) + "," + js(d) + "]").k("thr", ji(thr));
    if (!thr) {
      ev.k("t", jtri(*t));
      triangleground u; guarded([&] { u.copy(*t); }); ev.k("copy", jtri(u));
    }
  }
  else if (op == "meshe") { long m = c.i(); ME[m].reset(new ground::mesh()); ev.k("m", ji(m)).k("size", ji(ME[m]->size())); }
  else if (op == "meshv" || op == "meshl") {            // from a list of triangles (meshl: not logged twice)
    long m = c.i(); int ctor = c.i(); triangleground::vecptr l; std::string o = "[";
    while (c.more()) {
      long id = c.i(); double f = c.r(); vec3 a = c.v(), b = c.v(), d = c.v();
      l.push_back(make_tri(ctor, id, f, a, b, d));
      if (o.size() > 1) o += ',';
      o += "{\"id\":" + ji(id) + ",\"f\":" + js(f) + ",\"v\":[" + js(a) + "," + js(b) + "," + js(d) + "]}";
    }
    int thr = guarded([&] { ME[m].reset(new ground::mesh(l)); });
    ev.k("m", ji(m)).k("thr", ji(thr)).k("tris", o + "]");
  }
  else if (op == "load" || op == "ctor") {              // kind: rdf or obj (which interface is used)
    long m = c.i(), f = c.i(); std::string kind = c.w(); double fr = c.r(); affine a = c.pose(); std::string path = c.rest();
    bool ret = false; int thr;
    if (op == "ctor")
      thr = guarded([&] { std::unique_ptr<ground::mesh> t; if (kind == "rdf") t.reset(new ground::mesh(path, a)); else t.reset(new ground::mesh(path, fr, a)); ret = true; ME[m] = std::move(t); });
    else
      thr = guarded([&] { ret = kind == "rdf" ? at(ME, m)->load(path, a) : at(ME, m)->load(path, fr, a); });
    ev.k("m", ji(m)).k("file", ji(f)).k("kind", jq(kind)).k("f", js(fr)).k("at", jpose(a)).k("thr", ji(thr)).k("ret", jb(ret));
    if (ME.count(m) && ME[m]) ev.k("size", ji(ME[m]->size()));
  }
  else if (op == "copy") { long a = c.i(), b = c.i(); int thr = guarded([&] { at(ME, a)->copy(*at(ME, b)); }); ev.k("m", ji(a)).k("from", ji(b)).k("thr", ji(thr)); }
  else if (op == "clear") { long m = c.i(); int thr = guarded([&] { at(ME, m)->clear(); }); ev.k("m", ji(m)).k("thr", ji(thr)); }
  else if (op == "drop") { long m = c.i(); ME.erase(m); ev.k("m", ji(m)); }
  else if (op == "mobs") {                              // contents of a mesh, through every accessor
    long m = c.i(); ground::mesh const & t = *at(ME, m); bool same = t.vecptrTriangleground().size() == t.size();
    for (size_t i = 0; same && i < t.size(); ++i) same = t[i] == t.ptrTriangleground(i) && t[i] == t.vecptrTriangleground()[i];
    ev.k("m", ji(m)).k("size", ji(t.size())).k("same", jb(same)).k("tris", jmesh(t));
  }
  else if (op == "query") {                             // box query; dirty = entries already in the caller's list
    long m = c.i(); int dirty = c.i(); vec3 lo = c.v(), hi = c.v(); ground::mesh const & t = *at(ME, m);
    triangleground::vecptr l;
    for (int i = 0; i < dirty; ++i) l.push_back(make_tri(0, 900 + i, 1., vec3(0, 0, 0), vec3(1, 0, 0), vec3(0, 1, 0)));
    bool ret = false;
    auto box = std::make_shared<aabb const>(point(lo.x(), lo.y(), lo.z()), point(hi.x(), hi.y(), hi.z()), 0, 0);
    int thr = guarded([&] { ret = t.intersection(box, l); });
    std::map<void const *, long> idx; for (size_t i = 0; i < t.size(); ++i) idx[t[i].get()] = i + 1;
    ev.k("m", ji(m)).k("lo", js(lo)).k("hi", js(hi)).k("thr", ji(thr)).k("ret", jb(ret))
      .k("res", jlist<triangleground::ptr>(l, [&](triangleground::ptr const & p) { auto i = idx.find(p.get()); return ji(i == idx.end() ? 0 : i->second); }));
  }
  else if (op == "tree") {                              // build an AABB tree from boxes numbered 1..n
    long k = c.i(); aabb::vecptr b; std::string o = "["; long n = 0;
    while (c.more()) {
      vec3 lo = c.v(), hi = c.v(); b.push_back(std::make_shared<aabb const>(point(lo.x(), lo.y(), lo.z()), point(hi.x(), hi.y(), hi.z()), ++n, 0));
      if (o.size() > 1) o += ','; o += "[" + js(lo) + "," + js(hi) + "]";
    }
    if (!TR.count(k)) TR[k].reset(new AABBtree());
    int thr = guarded([&] { TR[k]->build(b); });
    ev.k("k", ji(k)).k("thr", ji(thr)).k("boxes", o + "]").k("empty", jb(TR[k]->isEmpty()));
  }
  else if (op == "treeclear") { long k = c.i(); if (!TR.count(k)) TR[k].reset(new AABBtree()); int thr = guarded([&] { TR[k]->clear(); }); ev.k("k", ji(k)).k("thr", ji(thr)).k("empty", jb(TR[k]->isEmpty())); }
  else if (op == "treex") {                             // pairs of touching boxes of two trees
    long a = c.i(), b = c.i(); int sw = c.i(); aabb::vecpairptr l;
    int thr = guarded([&] { at(TR, a)->intersection(*at(TR, b), l, sw != 0); });
    std::string o = "[";
    for (auto const & p : l) { if (o.size() > 1) o += ','; o += "[" + ji(p.first ? p.first->id() : 0) + "," + ji(p.second ? p.second->id() : 0) + "]"; }
    ev.k("k", ji(a)).k("l", ji(b)).k("swap", jb(sw)).k("thr", ji(thr)).k("pairs", o + "]");
  }
  else if (op == "treec") {                             // collision test; the given pair (of the order asked for) is the one that collides
    long a = c.i(), b = c.i(); int sw = c.i(); long x = c.i(), y = c.i(); std::string o = "["; bool ret = false;
    int thr = guarded([&] { ret = at(TR, a)->collision(*at(TR, b), [&](aabb::ptr p, aabb::ptr q) {
      if (o.size() > 1) o += ','; o += "[" + ji(p ? p->id() : 0) + "," + ji(q ? q->id() : 0) + "]";
      return p && q && p->id() == x && q->id() == y; }, sw != 0); });
    ev.k("k", ji(a)).k("l", ji(b)).k("swap", jb(sw)).k("x", ji(x)).k("y", ji(y)).k("thr", ji(thr)).k("ret", jb(ret)).k("pairs", o + "]");
  }
  else if (op == "sinit") {
    double p[8]; for (double & x : p) x = c.r(); long f = c.i(); std::string path = c.rest();
    if (path == "-") unsetenv("ENVE_GROUND_PATH"); else setenv("ENVE_GROUND_PATH", path.c_str(), 1);
    int thr = guarded([&] { enve_sfun_init(p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7); });
    ev.k("n", ji((long) p[0])).k("shape", "[" + js(p[1]) + "," + js(p[2]) + "," + js(p[3]) + "," + js(p[4]) + "," + js(p[5]) + "]").k("h", js(p[6])).k("f", js(p[7])).k("file", ji(f)).k("thr", ji(thr));
  }
  else if (op == "sout") {
    double meth = c.r(), sel = c.r(); affine a = c.pose();
    EnveInputBus in; for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) in.HubAffine[r + 4 * k] = a.matrix()(r, k);
    static EnveOutputBus out;
    { double * q = reinterpret_cast<double *>(&out); for (size_t i = 0; i < sizeof(out) / sizeof(double); ++i) q[i] = 7777.; }
    int thr = guarded([&] { enve_sfun_out(&in, &out, &meth, &sel); });
    ev.k("meth", js(meth)).k("sel", js(sel)).k("at", jpose(a)).k("thr", ji(thr));
    sfun_bus(ev, out);
  }
  else if (op == "place") {                             // copy a file; "-": remove it
    std::string src = c.w(), dst = c.w(); std::remove(dst.c_str());
    if (src != "-") { std::ifstream i(src, std::ios::binary); std::ofstream o(dst, std::ios::binary); o << i.rdbuf(); if (!i || !o) { fprintf(stderr, "hx: cannot copy %s\n", src.c_str()); exit(99); } }
    ev.k("dst", jq(dst));
  }
  else if (op == "send") { int thr = guarded([&] { enve_sfun_end(); }); ev.k("thr", ji(thr)); }
  else { fprintf(stderr, "hx: unknown command %s\n", op.c_str()); exit(99); }
  emit(ev);
}

int main(int argc, char ** argv) {
  if (argc != 3) { fprintf(stderr, "usage: hx SCRIPT TRACE\n"); return 99; }
  std::ifstream in(argv[1]); g_out = fopen(argv[2], "w");
  if (!in || !g_out) { fprintf(stderr, "hx: cannot open files\n"); return 99; }
  std::ostringstream sink; std::streambuf * old = std::cout.rdbuf(sink.rdbuf());   // the library prints progress
  std::string line; long n = 0;
  while (std::getline(in, line)) {
    ++n; sink.str("");
    try { command(line); }
    catch (Missing const &) { fputs("{\"e\":\"skip\"}\n", g_out); fflush(g_out); }   // an object whose creation was refused
    catch (std::exception const & e) { fprintf(stderr, "hx: line %ld: %s\n", n, e.what()); std::cout.rdbuf(old); return 98; }
  }
  std::cout.rdbuf(old);
  fclose(g_out);
  return 0;
}
