// Forces the compiler to emit the inline functions of river's public headers that
// no translation unit of the library uses, so that they can be put under contract.
#include "rmath.h"
#include "river.h"
#include "segment.h"
#include "vatti.h"

namespace rvc_anchor {
  rmath::rect inflated(const rmath::rect& r, const double& n) { return r.inflated(n); }
  double width(const rmath::rect& r) { return r.width(); }
  double height(const rmath::rect& r) { return r.height(); }
  rmath::vec2 center(const rmath::rect& r) { return r.center(); }
  rmath::rect from1(const rmath::vec2& p) { return rmath::rect(p); }
  rmath::rect from2(const rmath::vec2& p, double o) { return rmath::rect(p, o); }
  typedef rmath::vec2 V;
  V add(const V& a, const V& b) { return a + b; }
  V addn(const V& a, const double& n) { return a + n; }
  V neg(const V& a) { return -a; }
  V sub(const V& a, const V& b) { return a - b; }
  V subn(const V& a, const double& n) { return a - n; }
  V mul(const V& a, double n) { return a * n; }
  V div(const V& a, double n) { return a / n; }
  bool eq(const V& a, const V& b) { return a == b; }
  bool ne(const V& a, const V& b) { return a != b; }
  double dot(const V& a, const V& b) { return a.dot(b); }
  double cross(const V& a, const V& b) { return a.cross(b); }
  double dist2(const V& a) { return a.dist2(); }
  double dist(const V& a) { return a.dist(); }
  V rotated(const V& a, double r) { return a.rotated(r); }
  V& rotate(V& a, double r) { return a.rotate(r); }
  V normalization(const V& a) { return a.normalization(); }
  V& normalizate(V& a) { return a.normalizate(); }
}
