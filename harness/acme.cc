// Geometry layer: primitives given by small integers, their pairwise queries, measures and collections.
#include "common.hh"
#include "acme/collection.hxx"
#include "acme/collinear.hxx"
#include "acme/coplanar.hxx"
#include "acme/intersection.hxx"
#include "acme/orthogonal.hxx"
#include "acme/parallel.hxx"
using namespace acme;
typedef std::shared_ptr<entity> E;

static vec3 iv(Cmd & c, std::string & o) {
  long a = c.i(), b = c.i(), d = c.i();
  o += "[" + ji(a) + "," + ji(b) + "," + ji(d) + "]";
  return vec3(a, b, d);
}
// kind and integers; json receives the specification's record
static E prim(Cmd & c, std::string & json) {
  std::string k = c.w(); json = "{\"k\":" + jq(k);
  auto v = [&](char const * n) { json += ",\""; json += n; json += "\":"; return iv(c, json); };
  E r;
  if (k == "pt") r = std::make_shared<point>(v("p"));
  else if (k == "line") { vec3 p = v("p"), d = v("d"); r = std::make_shared<line>(point(p), d); }
  else if (k == "ray") { vec3 p = v("p"), d = v("d"); r = std::make_shared<ray>(point(p), d); }
  else if (k == "plane") { vec3 p = v("p"), d = v("d"); r = std::make_shared<plane>(point(p), d); }
  else if (k == "seg") { vec3 p = v("p"), d = v("q"); r = std::make_shared<segment>(point(p), point(d)); }
  else if (k == "tri") { vec3 a = v("a"), b = v("b"), d = v("c"); r = std::make_shared<triangle>(point(a), point(b), point(d)); }
  else if (k == "disk") { vec3 p = v("p"), d = v("d"); long q = c.i(); json += ",\"r\":" + ji(q); r = std::make_shared<disk>(double(q), point(p), d); }
  else if (k == "ball") { vec3 p = v("p"); long q = c.i(); json += ",\"r\":" + ji(q); r = std::make_shared<ball>(double(q), point(p)); }
  else { fprintf(stderr, "unknown primitive %s\n", k.c_str()); exit(98); }
  json += "}";
  return r;
}
template <class T> static T const & as(entity const * e) { return *dynamic_cast<T const *>(e); }

static std::string jent(entity const * e) {
  if (!e) return "{\"k\":\"null\"}";
  if (e->isPoint()) return "{\"k\":\"pt\",\"p\":" + js(vec3(as<point>(e))) + "}";
  if (e->isLine()) { auto & x = as<line>(e); return "{\"k\":\"line\",\"p\":" + js(vec3(x.origin())) + ",\"d\":" + js(x.direction()) + "}"; }
  if (e->isRay()) { auto & x = as<ray>(e); return "{\"k\":\"ray\",\"p\":" + js(vec3(x.origin())) + ",\"d\":" + js(x.direction()) + "}"; }
  if (e->isPlane()) { auto & x = as<plane>(e); return "{\"k\":\"plane\",\"p\":" + js(vec3(x.origin())) + ",\"d\":" + js(x.normal()) + "}"; }
  if (e->isSegment()) { auto & x = as<segment>(e); return "{\"k\":\"seg\",\"p\":" + js(vec3(x.vertex(0))) + ",\"q\":" + js(vec3(x.vertex(1))) + "}"; }
  if (e->isTriangle()) { auto & x = as<triangle>(e); return "{\"k\":\"tri\",\"a\":" + js(vec3(x.vertex(0))) + ",\"b\":" + js(vec3(x.vertex(1))) + ",\"c\":" + js(vec3(x.vertex(2))) + "}"; }
  if (e->isDisk()) { auto & x = as<disk>(e); return "{\"k\":\"disk\",\"p\":" + js(vec3(x.center())) + ",\"d\":" + js(x.normal()) + ",\"r\":" + js(x.radius()) + "}"; }
  if (e->isBall()) { auto & x = as<ball>(e); return "{\"k\":\"ball\",\"p\":" + js(vec3(x.center())) + ",\"r\":" + js(x.radius()) + "}"; }
  if (e->isNone()) return "{\"k\":\"none\"}";
  return "{\"k\":\"unknown\"}";
}
static std::string generic(entity const * a, entity const * b) {
  try {
    std::unique_ptr<entity> o(Intersection(a, b));
    return jent(o.get());
  } catch (std::exception const &) { return "{\"k\":\"threw\"}"; }
}

// ---------------------------------------------------------------- typed overloads
struct Typed { std::string s; bool first = true; };
template <class A, class B, class O> static void typed(Typed & t, char const * kind, A const & a, B const & b) {
  O o; std::string r;
  try { r = Intersection(a, b, o) ? jent(&o) : "{\"k\":\"none\"}"; }
  catch (std::exception const &) { r = "{\"k\":\"threw\"}"; }
  if (!t.first) t.s += ","; t.first = false;
  t.s += "[" + jq(kind) + "," + r + "]";
}
template <class A, class B> static void flag(Typed & t, A const & a, B const & b) {
  none o; std::string r;
  try { r = Intersection(a, b, o) ? "yes" : "no"; } catch (std::exception const &) { r = "threw"; }
  if (!t.first) t.s += ","; t.first = false;
  t.s += "[\"flag\",{\"k\":" + jq(r) + "}]";
}
#define T(A, B, O, K) typed<A, B, O>(t, K, as<A>(a), as<B>(b))
static std::string typedAll(entity const * a, entity const * b) {   // canonical order: level(a) <= level(b)
  Typed t; int s = a->level() * 100 + b->level();
  switch (s) {
  case 101: T(point, point, point, "pt"); break;
  case 103: T(point, line, point, "pt"); break;
  case 104: T(point, ray, point, "pt"); break;
  case 105: T(point, plane, point, "pt"); break;
  case 106: T(point, segment, point, "pt"); break;
  case 107: T(point, triangle, point, "pt"); break;
  case 108: T(point, disk, point, "pt"); break;
  case 303: T(line, line, line, "line"); T(line, line, point, "pt"); break;
  case 304: T(line, ray, ray, "ray"); T(line, ray, point, "pt"); break;
  case 305: T(line, plane, line, "line"); T(line, plane, point, "pt"); break;
  case 306: T(line, segment, segment, "seg"); T(line, segment, point, "pt"); break;
  case 307: T(line, triangle, segment, "seg"); T(line, triangle, point, "pt"); break;
  case 308: T(line, disk, segment, "seg"); T(line, disk, point, "pt"); break;
  case 309: T(line, ball, segment, "seg"); break;
  case 404: T(ray, ray, ray, "ray"); T(ray, ray, segment, "seg"); T(ray, ray, point, "pt"); break;
  case 405: T(ray, plane, ray, "ray"); T(ray, plane, point, "pt"); break;
  case 406: T(ray, segment, segment, "seg"); T(ray, segment, point, "pt"); break;
  case 407: T(ray, triangle, segment, "seg"); T(ray, triangle, point, "pt"); break;
  case 408: T(ray, disk, segment, "seg"); T(ray, disk, point, "pt"); break;
  case 409: T(ray, ball, segment, "seg"); break;
  case 505: T(plane, plane, plane, "plane"); T(plane, plane, line, "line"); break;
  case 506: T(plane, segment, segment, "seg"); T(plane, segment, point, "pt"); break;
  case 507: T(plane, triangle, triangle, "tri"); T(plane, triangle, segment, "seg"); break;
  case 508: T(plane, disk, disk, "disk"); T(plane, disk, segment, "seg"); break;
  case 509: T(plane, ball, disk, "disk"); break;
  case 606: T(segment, segment, segment, "seg"); T(segment, segment, point, "pt"); break;
  case 607: T(segment, triangle, segment, "seg"); T(segment, triangle, point, "pt"); break;
  case 608: T(segment, disk, segment, "seg"); T(segment, disk, point, "pt"); break;
  case 609: T(segment, ball, segment, "seg"); break;
  case 707: T(triangle, triangle, segment, "seg"); flag(t, as<triangle>(a), as<triangle>(b)); break;
  case 708: T(triangle, disk, segment, "seg"); break;
  case 808: T(disk, disk, segment, "seg"); break;
  default: break;
  }
  return "[" + t.s + "]";
}
#undef T

// typed relations for every pair of kinds that has them, in canonical order
template <class A, class B> static std::string relT(A const & a, B const & b) { return "[" + jb(IsParallel(a, b)) + "," + jb(IsOrthogonal(a, b)) + "," + jb(IsCoplanar(a, b)) + "]"; }
template <class A, class B> static std::string relC(A const & a, B const & b) { return "[" + jb(IsParallel(a, b)) + "," + jb(IsOrthogonal(a, b)) + "," + jb(IsCoplanar(a, b)) + "," + jb(IsCollinear(a, b)) + "]"; }
static std::string relations(entity const * a, entity const * b) {
  int s = a->level() * 100 + b->level();
  switch (s) {
  case 303: return relC(as<line>(a), as<line>(b));
  case 304: return relC(as<line>(a), as<ray>(b));
  case 305: return relT(as<line>(a), as<plane>(b));
  case 306: return relC(as<line>(a), as<segment>(b));
  case 307: return relT(as<line>(a), as<triangle>(b));
  case 308: return relT(as<line>(a), as<disk>(b));
  case 404: return relC(as<ray>(a), as<ray>(b));
  case 405: return relT(as<ray>(a), as<plane>(b));
  case 406: return relC(as<ray>(a), as<segment>(b));
  case 407: return relT(as<ray>(a), as<triangle>(b));
  case 408: return relT(as<ray>(a), as<disk>(b));
  case 505: return relT(as<plane>(a), as<plane>(b));
  case 506: return relT(as<plane>(a), as<segment>(b));
  case 507: return relT(as<plane>(a), as<triangle>(b));
  case 508: return relT(as<plane>(a), as<disk>(b));
  case 606: return relC(as<segment>(a), as<segment>(b));
  case 607: return relT(as<segment>(a), as<triangle>(b));
  case 608: return relT(as<segment>(a), as<disk>(b));
  case 707: return relT(as<triangle>(a), as<triangle>(b));
  case 708: return relT(as<triangle>(a), as<disk>(b));
  case 808: return relT(as<disk>(a), as<disk>(b));
  default: return "[]";
  }
}
// relations of a bare vector with a primitive
static std::string relV(vec3 const & v, entity const * b) {
  #define R(K) return "[" + jb(IsParallel(v, as<K>(b))) + "," + jb(IsOrthogonal(v, as<K>(b))) + "]"
  if (b->isLine()) { R(line); } if (b->isRay()) { R(ray); } if (b->isPlane()) { R(plane); }
  if (b->isSegment()) { R(segment); } if (b->isTriangle()) { R(triangle); } if (b->isDisk()) { R(disk); }
  #undef R
  return "[]";
}
static std::string optq(Cmd & c, affine & q, bool & on) {
  on = false; if (!c.more()) return "{\"on\":false}";
  q = c.pose(); on = true;
  return "{\"on\":true,\"r\":" + jmat(q.linear()) + ",\"t\":" + js(vec3(q.translation())) + "}";
}

// ---------------------------------------------------------------- measures of one primitive
static std::string measures(entity const * e, std::vector<vec3> const & probes) {
  std::string o = "{\"type\":" + jq(e->type()) + ",\"level\":" + ji(e->level()) + ",\"deg\":" + jb(e->isDegenerated());
  auto k = [&](char const * n, std::string const & v) { o += ",\""; o += n; o += "\":" + v; };
  auto probe = [&](std::function<std::string(vec3 const &)> f) { return jlist<vec3>(probes, f); };
  k("is", "[" + jb(e->isNone()) + "," + jb(e->isPoint()) + "," + jb(e->isLine()) + "," + jb(e->isRay()) + "," + jb(e->isPlane()) + "," + jb(e->isSegment()) + ","
    + jb(e->isTriangle()) + "," + jb(e->isDisk()) + "," + jb(e->isBall()) + "," + jb(e->isClampable()) + "," + jb(e->isNonClampable()) + "]");
  vec3 lo(7, 7, 7), hi(7, 7, 7); double b[6] = { 7, 7, 7, 7, 7, 7 };
  bool c1 = e->clamp(lo, hi), c2 = e->clamp(b[0], b[1], b[2], b[3], b[4], b[5]);
  k("box", "[" + jb(c1) + "," + js(lo) + "," + js(hi) + "," + jb(c2) + "," + js(vec3(b[0], b[1], b[2])) + "," + js(vec3(b[3], b[4], b[5])) + "]");
  if (e->isLine()) {
    auto x = as<line>(e); k("v", js(x.toVector())); k("u", js(x.toUnitVector()));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); }));
    line y = x; y.reverse(); k("rev", jent(&y)); y.reverse(); k("rev2", jent(&y)); y.normalize(); k("nrm", jent(&y)); k("same", jb(x.isApprox(as<line>(e))));
  } else if (e->isRay()) {
    auto x = as<ray>(e); k("v", js(x.toVector())); k("u", js(x.toUnitVector()));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); }));
    ray y = x; y.reverse(); k("rev", jent(&y)); y.reverse(); k("rev2", jent(&y)); y.normalize(); k("nrm", jent(&y)); k("same", jb(x.isApprox(as<ray>(e))));
  } else if (e->isPlane()) {
    auto x = as<plane>(e); k("u", js(x.unitNormal())); k("d", js(x.d()));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); }));
    k("dist", probe([&](vec3 const & p) { return js(x.distance(point(p))); })); k("sdist", probe([&](vec3 const & p) { return js(x.signedDistance(point(p))); }));
    k("dist2", probe([&](vec3 const & p) { return js(x.squaredDistance(point(p))); }));
    plane y = x; y.reverse(); k("rev", jent(&y)); y.reverse(); k("rev2", jent(&y)); y.normalize(); k("nrm", jent(&y)); k("same", jb(x.isApprox(as<plane>(e))));
  } else if (e->isSegment()) {
    auto x = as<segment>(e); k("v", js(x.toVector())); k("u", js(x.toUnitVector())); k("len", js(x.length())); k("cen", js(vec3(x.centroid())));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); }));
    segment y = x; y.swap(); k("rev", jent(&y)); y.swap(); k("rev2", jent(&y)); k("same", jb(x.isApprox(as<segment>(e))));
    k("idx", "[" + js(vec3(x[0])) + "," + js(vec3(x[1])) + "]");
  } else if (e->isTriangle()) {
    auto x = as<triangle>(e); k("u", js(x.normal())); k("per", js(x.perimeter())); k("area", js(x.area())); k("cen", js(vec3(x.centroid())));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); }));
    k("bar", probe([&](vec3 const & p) { double u, v, w; x.barycentric(point(p), u, v, w); return js(vec3(u, v, w)); }));
    plane l = x.layingPlane(); k("lay", jent(&l));
    std::string s = "["; for (int i = 0; i < 3; ++i) { segment g = x.edge(i); if (i) s += ","; s += jent(&g); } k("edges", s + "]");
    s = "["; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { triangle y = x; y.swap(i, j); if (s.size() > 1) s += ","; s += jent(&y); } k("swaps", s + "]");
    bool t = false; try { x.vertex(3); } catch (std::exception const &) { t = true; } k("oob", jb(t)); k("same", jb(x.isApprox(as<triangle>(e))));
    k("idx", "[" + js(vec3(x[0])) + "," + js(vec3(x[1])) + "," + js(vec3(x[2])) + "]");
  } else if (e->isDisk()) {
    auto x = as<disk>(e); k("per", js(x.perimeter())); k("area", js(x.area()));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); }));
    plane l = x.layingPlane(); k("lay", jent(&l));
    disk y = x; y.reverse(); k("rev", jent(&y)); y.reverse(); k("rev2", jent(&y)); y.normalize(); k("nrm", jent(&y)); k("same", jb(x.isApprox(as<disk>(e))));
  } else if (e->isBall()) {
    auto x = as<ball>(e); k("area", js(x.area())); k("vol", js(x.volume()));
    k("in", probe([&](vec3 const & p) { return jb(x.isInside(point(p))); })); k("same", jb(x.isApprox(as<ball>(e))));
  }
  return o + "}";
}

// ---------------------------------------------------------------- collections
static std::map<long, collection> g_coll;
static std::map<entity const *, long> g_tag;                  // entity -> tag, by address (kept alive by g_keep)
static std::vector<E> g_keep;
static std::string jtags(collection & c) {
  std::string o = "[";
  for (int i = 0; i < int(c.size()); ++i) { if (i) o += ","; entity const * e = c[i].get(); o += ji(e && g_tag.count(e) ? g_tag[e] : -1); }
  return o + "]";
}
static void collQuestions(Ev & ev, collection & c) {
  ev.k("tags", jtags(c)).k("size", ji(c.size()));
  #define Q(K) "[" + jb(c.contain##K()) + "," + jb(c.are##K()) + "," + ji(c.count##K()) + "]"
  ev.k("q", std::string("[") + Q(None) + "," + Q(Point) + "," + Q(Line) + "," + Q(Ray) + "," + Q(Plane) + "," + Q(Segment) + "," + Q(Triangle) + "," + Q(Disk) + "," + Q(Ball)
       + "," + Q(Clampable) + "," + Q(NonClampable) + "," + Q(Degenerated) + "]");
  #undef Q
  std::string s = "[";
  for (int i = 0; i < int(c.size()); ++i) {
    if (i) s += ",";
    bool b[12] = { c.isNone(i), c.isPoint(i), c.isLine(i), c.isRay(i), c.isPlane(i), c.isSegment(i), c.isTriangle(i), c.isDisk(i), c.isBall(i), c.isClampable(i), c.isNonClampable(i), c.isDegenerated(i) };
    s += "["; for (int k = 0; k < 12; ++k) { if (k) s += ","; s += jb(b[k]); } s += "]";
  }
  ev.k("each", s + "]");
  static char const * names[12] = { "none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball", "clampable", "non-clampable", "degenerated" };
  auto m = c.count(); s = "["; for (int k = 0; k < 12; ++k) { if (k) s += ","; s += ji(m.count(names[k]) ? m[names[k]] : -1); }
  ev.k("count", s + "]");
}
static void removeKind(collection & c, std::string const & k) {
  if (k == "none") c.removeNone(); else if (k == "pt") c.removePoint(); else if (k == "line") c.removeLine(); else if (k == "ray") c.removeRay();
  else if (k == "plane") c.removePlane(); else if (k == "seg") c.removeSegment(); else if (k == "tri") c.removeTriangle(); else if (k == "disk") c.removeDisk();
  else if (k == "ball") c.removeBall(); else if (k == "clampable") c.removeClampable(); else if (k == "nonclampable") c.removeNonClampable(); else c.removeDegenerated();
}

bool is_acme_command(std::string const & op) { return op.rfind("p_", 0) == 0; }
void acme_reset() { g_coll.clear(); g_tag.clear(); g_keep.clear(); }

void acme_command(std::string const & op, Cmd & c) {
  std::string ja, jb_; affine q; bool on;
  if (op == "p_pair") {
    E a = prim(c, ja), b = prim(c, jb_); std::string jq_ = optq(c, q, on);
    if (on) { a->transform(q); b->transform(q); }
    entity const * lo = a.get(), * hi = b.get(); bool flip = a->level() > b->level(); if (flip) std::swap(lo, hi);
    std::string rg = "[" + jb(IsParallel(a.get(), b.get())) + "," + jb(IsOrthogonal(a.get(), b.get())) + "," + jb(IsCoplanar(a.get(), b.get())) + "," + jb(IsCollinear(a.get(), b.get())) + ","
                         + jb(IsParallel(b.get(), a.get())) + "," + jb(IsOrthogonal(b.get(), a.get())) + "," + jb(IsCoplanar(b.get(), a.get())) + "," + jb(IsCollinear(b.get(), a.get())) + "]";
    vec3 v = a->isLine() ? as<line>(a.get()).direction() : a->isRay() ? as<ray>(a.get()).direction() : a->isSegment() ? as<segment>(a.get()).toVector() : vec3(0, 0, 0);
    Ev ev("p_pair");
    ev.k("a", ja).k("b", jb_).k("q", jq_).k("flip", jb(flip)).k("gen", "[" + generic(a.get(), b.get()) + "," + generic(b.get(), a.get()) + "]").k("typed", typedAll(lo, hi))
      .k("relg", rg).k("relt", relations(lo, hi)).k("relv", v.isZero() ? std::string("[]") : relV(v, b.get()));
    emit(ev);
  } else if (op == "p_planes") {
    E a = prim(c, ja), b = prim(c, jb_); std::string jc; E d = prim(c, jc); std::string jq_ = optq(c, q, on);
    if (on) { a->transform(q); b->transform(q); d->transform(q); }
    point o; bool r = Intersection(as<plane>(a.get()), as<plane>(b.get()), as<plane>(d.get()), o);
    Ev ev("p_planes"); ev.k("a", ja).k("b", jb_).k("c", jc).k("q", jq_).k("r", jb(r)).k("o", r ? js(vec3(o)) : "[]"); emit(ev);
  } else if (op == "p_one") {                                  // primitive, probes, optional motion
    E a = prim(c, ja); long n = c.i(); std::string jp = "["; std::vector<vec3> P;
    for (long k = 0; k < n; ++k) { if (k) jp += ","; P.push_back(iv(c, jp)); } jp += "]";
    std::string jq_ = optq(c, q, on);
    if (on) { a->transform(q); for (auto & p : P) p = q * p; }
    Ev ev("p_one"); ev.k("a", ja).k("pr", jp).k("q", jq_).k("ent", jent(a.get())).k("m", measures(a.get(), P)); emit(ev);
  } else if (op == "p_move") {                                 // translate by integers, rotate, then report
    E a = prim(c, ja); std::string jt; vec3 t = iv(c, jt); double ang = c.r(); vec3 ax = c.v();
    a->translate(t); std::string j1 = jent(a.get());
    mat3 m = Eigen::AngleAxisd(ang, ax).toRotationMatrix();
    a->rotate(ang, ax);
    Ev ev("p_move"); ev.k("a", ja).k("t", jt).k("rot", jmat(m)).k("moved", j1).k("turned", jent(a.get())); emit(ev);
  } else if (op == "p_box") {                                  // two boxes (any corner order), probes
    std::string j0, j1, j2, j3; vec3 a0 = iv(c, j0), a1 = iv(c, j1), b0 = iv(c, j2), b1 = iv(c, j3); vec3 t; std::string jt; t = iv(c, jt);
    long n = c.i(); std::string jp = "["; std::vector<vec3> P; for (long k = 0; k < n; ++k) { if (k) jp += ","; P.push_back(iv(c, jp)); } jp += "]";
    aabb a(a0.x(), a0.y(), a0.z(), a1.x(), a1.y(), a1.z(), 1, 2), b(point(b0), point(b1), 3, 4), o, m;
    bool r = Intersection(a, b, o);
    aabb::vecptr v; v.push_back(std::make_shared<aabb>(a)); v.push_back(std::make_shared<aabb>(b)); aabb mg(v, 5, 6); m.merged(v);
    aabb cl; cl.clamp(point(a0), point(a1), point(b0)); point pp[3] = { point(a0), point(a1), point(b0) }; aabb c2; c2.clamp(pp);
    aabb tr(a); tr.translate(point(t));
    auto bx = [](aabb const & x) { return "[" + js(vec3(x.min())) + "," + js(vec3(x.max())) + "]"; };
    Ev ev("p_box");
    ev.k("a0", j0).k("a1", j1).k("b0", j2).k("b1", j3).k("t", jt).k("pr", jp).k("A", bx(a)).k("B", bx(b)).k("i", "[" + jb(a.intersects(b)) + "," + jb(b.intersects(a)) + "]")
      .k("x", r ? bx(o) : "[]").k("M", bx(mg)).k("M2", bx(m)).k("C", bx(cl)).k("C2", bx(c2)).k("T", bx(tr)).k("ok", jb(a.checkMaxMin() && b.checkMaxMin()))
      .k("in", jlist<vec3>(P, [&](vec3 const & p) { return jb(a.isInside(point(p))); }))
      .k("near", jlist<vec3>(P, [&](vec3 const & p) { return js(a.centerDistance(point(p))); }))
      .k("far", jlist<vec3>(P, [&](vec3 const & p) { return js(a.exteriorDistance(point(p))); }))
      .k("ids", "[" + ji(a.id()) + "," + ji(a.pos()) + "," + ji(b.id()) + "," + ji(b.pos()) + "," + ji(mg.id()) + "," + ji(mg.pos()) + "," + ji(tr.id()) + "]");
    emit(ev);
  } else if (op == "p_new") {                                  // collection, from a vector or by push_back: K how n (tag prim)*
    long k = c.i(), how = c.i(), n = c.i(); entity::vecptr v; std::string jm = "[";
    for (long j = 0; j < n; ++j) {
      long tag = c.i(); std::string jp; E e;
      { std::istringstream peek; std::streampos at = c.in.tellg(); std::string w = c.w(); if (w == "none") { e = std::make_shared<none>(); jp = "{\"k\":\"none\"}"; } else { c.in.seekg(at); e = prim(c, jp); } }
      if (j) jm += ","; jm += "{\"tag\":" + ji(tag) + ",\"p\":" + jp + "}";
      g_keep.push_back(e); g_tag[e.get()] = tag; v.push_back(e);
    }
    if (how == 0) { g_coll.erase(k); g_coll.emplace(k, collection(v)); }
    else { if (how == 2) { g_coll.erase(k); } collection & x = g_coll[k]; for (auto & e : v) x.push_back(e); }
    Ev ev("p_new"); ev.k("c", ji(k)).k("how", ji(how)).k("m", jm + "]"); collQuestions(ev, g_coll[k]); emit(ev);
  } else if (op == "p_remove") {
    long k = c.i(); std::string w = c.w(); removeKind(g_coll[k], w);
    Ev ev("p_remove"); ev.k("c", ji(k)).k("kind", jq(w)); collQuestions(ev, g_coll[k]); emit(ev);
  } else if (op == "p_clear") {
    long k = c.i(); g_coll[k].clear(); Ev ev("p_clear"); ev.k("c", ji(k)); collQuestions(ev, g_coll[k]); emit(ev);
  } else if (op == "p_resize") {
    long k = c.i(), n = c.i(); g_coll[k].resize(n); Ev ev("p_resize"); ev.k("c", ji(k)).k("n", ji(n)); collQuestions(ev, g_coll[k]); emit(ev);
  } else if (op == "p_shift") {                                // translate a collection by integers, report the members
    long k = c.i(); std::string jt; vec3 t = iv(c, jt); collection & x = g_coll[k]; x.translate(t);
    std::string s = "["; for (int i = 0; i < int(x.size()); ++i) { if (i) s += ","; s += jent(x[i].get()); }
    Ev ev("p_shift"); ev.k("c", ji(k)).k("t", jt).k("ents", s + "]"); collQuestions(ev, x); emit(ev);
  } else if (op == "p_boxes") {                                // clamp: the boxes of the members
    long k = c.i(); aabb::vecptr v; bool t = false; try { g_coll[k].clamp(v); } catch (std::exception const &) { t = true; }
    std::string s = "["; if (!t) for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += "[" + js(vec3(v[i]->min())) + "," + js(vec3(v[i]->max())) + "," + ji(v[i]->id()) + "]"; }
    Ev ev("p_boxes"); ev.k("c", ji(k)).k("thr", jb(t)).k("b", s + "]"); emit(ev);
  } else if (op == "p_build") {
    long k = c.i(); bool t = false; try { g_coll[k].buildAABBtree(); } catch (std::exception const &) { t = true; }
    Ev ev("p_build"); ev.k("c", ji(k)).k("thr", jb(t)); emit(ev);
  } else if (op == "p_search") {                               // candidates: against another collection, a box, boxes, a tree
    long k = c.i(); std::string how = c.w(); collection & x = g_coll[k]; collection out; bool r, t = false; std::string js_;
    std::string jo;
    if (how == "coll") { long o = c.i(); jo = ji(o); collection & y = g_coll[o]; try { r = x.intersection(y, out); } catch (std::exception const &) { t = true; } }
    else {
      std::string j0, j1; vec3 a0 = iv(c, j0), a1 = iv(c, j1); jo = "[" + j0 + "," + j1 + "]"; auto bx = std::make_shared<aabb>(point(a0), point(a1), 0, 0);
      aabb::vecptr v; v.push_back(bx);
      try {
        if (how == "box") r = x.intersection(bx, out);
        else if (how == "boxes") r = x.intersection(v, out);
        else { AABBtree::ptr tp(std::make_shared<AABBtree>()); tp->build(v); r = x.intersection(tp, out); }
      } catch (std::exception const &) { t = true; }
    }
    Ev ev("p_search"); ev.k("c", ji(k)).k("how", jq(how)).k("o", jo).k("thr", jb(t)).k("r", jb(!t && r)).k("tags", t ? "[]" : jtags(out)); emit(ev);
  } else if (op == "p_all") {                                  // every pair of members
    long k = c.i(); collection out; bool t = false; try { g_coll[k].intersection(out); } catch (std::exception const &) { t = true; }
    std::string s = "["; for (int i = 0; !t && i < int(out.size()); ++i) { if (i) s += ","; s += jent(out[i].get()); }
    Ev ev("p_all"); ev.k("c", ji(k)).k("thr", jb(t)).k("o", s + "]"); emit(ev);
  } else { fprintf(stderr, "unknown command %s\n", op.c_str()); exit(98); }
}
