// Shared helpers of the conformance harness: number encoding and JSON output.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "enve.hh"

using acme::point; using acme::vec3; using acme::mat3; using acme::affine;

// ---------------------------------------------------------------- JSON text
struct J {                               // a tiny JSON builder
  std::string s;
  static J raw(std::string t) { J j; j.s = std::move(t); return j; }
};

// A real as the specification writes it: <<sign, limb1, limb2, ...>>, 15-bit
// limbs, least significant first, in units of 2^-60; <<>> when not finite.
inline std::string fx(double x) {
  if (!std::isfinite(x)) return "[]";
  if (x == 0) return "[0]";
  std::string o = x < 0 ? "[-1" : "[1";
  double a = std::fabs(x);
  int e; double m = std::frexp(a, &e);            // a = m * 2^e, m in [1/2,1)
  // integer value a * 2^60 = M * 2^sh with M = m*2^53
  uint64_t M = (uint64_t) std::ldexp(m, 53);
  int sh = e - 53 + 60;
  std::vector<unsigned> limb;
  if (sh <= 0) {
    if (sh < -63) M = 0;
    else if (sh < 0) { uint64_t r = (M >> (-sh - 1)) & 1; M = (-sh > 63 ? 0 : (M >> -sh)) + r; }
    while (M) { limb.push_back(M & 0x7fff); M >>= 15; }
  } else {
    for (int i = 0; i < sh / 15; ++i) limb.push_back(0);
    unsigned __int128 W = ((unsigned __int128) M) << (sh % 15);
    while (W) { limb.push_back((unsigned) (W & 0x7fff)); W >>= 15; }
  }
  if (limb.empty()) return "[0]";
  for (unsigned l : limb) { o += ','; o += std::to_string(l); }
  return o + "]";
}
inline std::string js(double x) { return fx(x); }
inline std::string js(vec3 const & v) { return "[" + fx(v.x()) + "," + fx(v.y()) + "," + fx(v.z()) + "]"; }
inline std::string ji(long x) { return std::to_string(x); }
inline std::string jb(bool b) { return b ? "true" : "false"; }
inline std::string jq(std::string const & t) {
  std::string o = "\"";
  for (char c : t) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char) c < 32 || (unsigned char) c > 126) o += '?';
    else o += c;
  }
  return o + "\"";
}
inline std::string jmat(mat3 const & m) {
  return "[" + js(vec3(m.row(0).transpose())) + "," + js(vec3(m.row(1).transpose())) + "," + js(vec3(m.row(2).transpose())) + "]";
}
// a full 4x4 matrix, row by row
template <class MM> inline std::string jmat4(MM const & m) {
  std::string o = "[";
  for (int r = 0; r < 4; ++r) {
    o += r ? ",[" : "[";
    for (int c = 0; c < 4; ++c) { if (c) o += ','; o += fx(m(r, c)); }
    o += ']';
  }
  return o + "]";
}
inline std::string jpose(affine const & a) { return "{\"r\":" + jmat(a.linear()) + ",\"t\":" + js(vec3(a.translation())) + "}"; }
template <class T> inline std::string jlist(std::vector<T> const & v, std::function<std::string(T const &)> f) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += f(v[i]); }
  return o + "]";
}

struct Ev {                              // one trace event
  std::string s;
  explicit Ev(std::string const & e) { s = "{\"e\":" + jq(e); }
  Ev & k(char const * key, std::string const & v) { s += ",\""; s += key; s += "\":"; s += v; return *this; }
};
extern FILE * g_out;
inline void emit(Ev const & e) { fputs(e.s.c_str(), g_out); fputs("}\n", g_out); fflush(g_out); }

// ---------------------------------------------------------------- command text
struct Cmd {
  std::istringstream in;
  explicit Cmd(std::string const & l) : in(l) {}
  std::string w() { std::string t; in >> t; return t; }
  long i() { return std::strtol(w().c_str(), nullptr, 10); }
  double r() { return std::strtod(w().c_str(), nullptr); }   // decimal, hex float, nan, inf
  vec3 v() { double a = r(), b = r(), c = r(); return vec3(a, b, c); }
  affine pose() {                        // nine numbers by rows, then the translation
    mat3 m; for (int k = 0; k < 3; ++k) for (int c = 0; c < 3; ++c) m(k, c) = r();
    affine a; a.matrix().setIdentity(); a.linear() = m; a.translation() = v(); return a;
  }
  std::string rest() { std::string t; std::getline(in, t); size_t p = t.find_first_not_of(' '); return p == std::string::npos ? "" : t.substr(p); }
  bool more() { in >> std::ws; return in.good() && in.peek() != EOF; }
};
void acme_command(std::string const & op, Cmd & c);
bool is_acme_command(std::string const & op);
void acme_reset();
