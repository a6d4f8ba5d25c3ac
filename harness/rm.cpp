// native oracle for the rmath-level contracts; PROP selects the property
#include "common.h"
#include "rmath.h"
using namespace H;
using namespace rmath;

static ld bern(ld a, ld b, ld c, ld d, ld t) { ld k = 1 - t; return a*k*k*k + 3*b*k*k*t + 3*c*k*t*t + d*t*t*t; }
static ld BX(const bezier_cubic& b, ld t) { return bern(b.p0.x, b.p1.x, b.p2.x, b.p3.x, t); }
static ld BY(const bezier_cubic& b, ld t) { return bern(b.p0.y, b.p1.y, b.p2.y, b.p3.y, t); }
static ld absl(ld x) { return x < 0 ? -x : x; }
static ld size_of(const bezier_cubic& b) {
  ld m = 1;
  for (const vec2* p : { &b.p0, &b.p1, &b.p2, &b.p3 }) { m = std::max(m, absl(p->x)); m = std::max(m, absl(p->y)); }
  return m;
}
static std::string show(const bezier_cubic& b) {
  std::string s = "bezier{";
  for (const vec2* p : { &b.p0, &b.p1, &b.p2, &b.p3 }) s += " (" + str(p->x) + "," + str(p->y) + ")";
  return s + " }";
}
static bezier_cubic rnd(Rng& r) {
  Gen g(r);
  bezier_cubic b{ vec2(g.c(), g.c()), vec2(g.c(), g.c()), vec2(g.c(), g.c()), vec2(g.c(), g.c()) };
  switch (r.i(12)) {                       // degenerate shapes
  case 0: b.p1 = b.p0; break;
  case 1: b.p2 = b.p3; break;
  case 2: b.p1.y = b.p0.y; b.p2.y = b.p3.y; break;
  case 3: b.p3 = b.p0; break;
  case 4: b.p1 = b.p0 * (2. / 3) + b.p3 * (1. / 3); b.p2 = b.p0 * (1. / 3) + b.p3 * (2. / 3); break;
  case 5: { vec2 q(g.c(), g.c()); b.p1 = b.p0 + (q - b.p0) * (2. / 3); b.p2 = b.p3 + (q - b.p3) * (2. / 3); break; }
  case 6: { double v = b.p0.y; b.p1.y = v; b.p2.y = v; b.p3.y = v; break; }
  case 7: { double v = b.p0.x; b.p1.x = v; b.p2.x = v; b.p3.x = v; break; }
  case 8: b.p2 = b.p1; break;
  }
  return b;
}
static bezier_cubic mcubic(const Model& m, const char* nm) {
  double v[8];
  for (int i = 0; i < 8; ++i) v[i] = get(m, std::string(nm) + "." + std::to_string(8 * i));
  return bezier_cubic{ vec2(v[0], v[1]), vec2(v[2], v[3]), vec2(v[4], v[5]), vec2(v[6], v[7]) };
}
static bool sane(const bezier_cubic& b) { ld s = size_of(b); return s < 1e6; }
#define near(GOT, WANT, TOL, WHAT) do { ld g_ = (GOT), w_ = (WANT); \
  if (!(absl(g_ - w_) <= (TOL))) fail(std::string() + WHAT + ": got " + str((double)g_) + " expected " + str((double)w_)); } while (0)

#if PROP == 1
static void part(const bezier_cubic& whole, const bezier_cubic& p, ld a, ld b, std::function<std::string()> what) {
  ld tol = 1e-9L * size_of(whole) * 8;
  for (int i = 0; i <= 8; ++i) {
    ld s = i / 8.0L, t = a + s * (b - a);
    near(BX(p, s), BX(whole, t), tol, what() + ".x at s=" + str((double)s));
    near(BY(p, s), BY(whole, t), tol, what() + ".y at s=" + str((double)s));
  }
}
static void check(const bezier_cubic& b, double t, const std::vector<double>& ts) {
  if (!sane(b) || !(std::fabs(t) < 100)) return;
  ld tol = 1e-9L * size_of(b) * (1 + std::pow(std::fabs(t), 3));
  vec2 p = b.point_at(t);
  #define in (show(b) + " t=" + str(t))
  near(p.x, BX(b, t), tol, "point_at.x " + in);
  near(p.y, BY(b, t), tol, "point_at.y " + in);
  if (t >= 0 && t <= 1) {
    bezier_cubic o1, o2;
    b.split(t, &o1, &o2);
    part(b, o1, 0, t, [&] { return "split first " + in; });
    part(b, o2, t, 1, [&] { return "split second " + in; });
    bezier_cubic self = b, a1;
    self.split(t, &a1, &self);
    part(b, a1, 0, t, [&] { return "in-place split first " + in; });
    part(b, self, t, 1, [&] { return "in-place split second " + in; });
  }
  std::vector<bezier_cubic> out(ts.size() + 1);
  std::vector<double> tt = ts; tt.push_back(0);
  b.split(tt.data(), out.data(), ts.size());
  if (ts.empty()) return;
  ld prev = 0;
  for (size_t i = 0; i <= ts.size(); ++i) {
    ld nx = i < ts.size() ? (ld)ts[i] : 1;
    part(b, out[i], prev, nx, [&] {
      std::string lst = show(b) + " ts=[";
      for (double x : ts) lst += str(x) + " ";
      return "split(t[],n) part " + std::to_string(i) + " of " + lst + "]"; });
    prev = nx;
  }
}
static void onmodel(const Model& m) {
  double t = get(m, "t");
  check(mcubic(m, "this"), t, {});
  check(mcubic(m, "this"), 0.3, {0.25, 0.5, 0.75});
}
static void one(Rng& r) {
  auto b = rnd(r);
  double t = r.i(5) == 0 ? (r.i(3)) * 0.5 : r.i(8) == 0 ? r.f(-2, 3) : r.f();
  std::vector<double> ts;
  int n = r.i(5);
  for (int i = 0; i < n; ++i) ts.push_back(r.i(4) ? r.f(0, 0.97) : 0.25 * (r.i(3) + 1));
  std::sort(ts.begin(), ts.end());
  check(b, t, ts);
}
#endif

#if PROP == 3
#include "segment.h"
// exact extent of one coordinate, from the turning points of the derivative
static void extent(ld a, ld b, ld c, ld d, ld& lo, ld& hi) {
  lo = std::min(a, d); hi = std::max(a, d);
  auto add = [&](ld t) { if (t > 0 && t < 1) { ld v = bern(a, b, c, d, t); lo = std::min(lo, v); hi = std::max(hi, v); } };
  ld A = 3*(d - 3*c + 3*b - a), B = 6*(a - 2*b + c), C = 3*(b - a);
  if (A == 0) { if (B != 0) add(-C / B); }
  else { ld k = B*B - 4*A*C; if (k >= 0) { ld s = std::sqrt(k); ld q = -(B + (B >= 0 ? s : -s)) / 2; add(q / A); if (q != 0) add(C / q); } }
}
static void box(const rect& r, const bezier_cubic& b, const std::string& what) {
  ld lo, hi, tol = 1e-6L * size_of(b);
  extent(b.p0.x, b.p1.x, b.p2.x, b.p3.x, lo, hi);
  near(r.min.x, lo, tol, what + " min.x"); near(r.max.x, hi, tol, what + " max.x");
  extent(b.p0.y, b.p1.y, b.p2.y, b.p3.y, lo, hi);
  near(r.min.y, lo, tol, what + " min.y"); near(r.max.y, hi, tol, what + " max.y");
}
static void check(const bezier_cubic& b) {
  if (!sane(b)) return;
  ld lead = 0;                      // nearly-quadratic coefficients are inside the documented tolerance
  ld Ax = absl(3*((ld)b.p3.x - 3*(ld)b.p2.x + 3*(ld)b.p1.x - b.p0.x)), Ay = absl(3*((ld)b.p3.y - 3*(ld)b.p2.y + 3*(ld)b.p1.y - b.p0.y));
  ld Bx = absl(6*((ld)b.p0.x - 2*(ld)b.p1.x + b.p2.x)), By = absl(6*((ld)b.p0.y - 2*(ld)b.p1.y + b.p2.y));
  (void)lead;
  auto grey = [](ld v) { return v > 1e-13L && v < 1e-4L; };
  if (grey(Ax) || grey(Ay) || grey(Bx) || grey(By)) return;
  box(b.get_boundary(), b, "get_boundary " + show(b));
  river::seg_cubicto sc(b.p1, b.p2, b.p3);
  const river::segment* sg = &sc;
  box(sg->get_boundary(b.p0), b, "cubic segment box " + show(b));
  river::seg_lineto sl(b.p3);
  rect r = sl.get_boundary(b.p0);
  if (r.min.x != std::min(b.p0.x, b.p3.x) || r.max.x != std::max(b.p0.x, b.p3.x) || r.min.y != std::min(b.p0.y, b.p3.y) || r.max.y != std::max(b.p0.y, b.p3.y))
    fail("line segment box " + show(b));
}
static void boxes(const rect& p, const rect& q, double n) {
  bool want = std::max(p.min.x, q.min.x) <= std::min(p.max.x, q.max.x) && std::max(p.min.y, q.min.y) <= std::min(p.max.y, q.max.y);
  std::string w = "rect (" + str(p.min.x) + "," + str(p.min.y) + ")-(" + str(p.max.x) + "," + str(p.max.y) + ") (" + str(q.min.x) + "," + str(q.min.y) + ")-(" + str(q.max.x) + "," + str(q.max.y) + ")";
  if (p.intersect(q) != want) fail("overlap of " + w);
  rect g = p.inflated(n);
  near(g.min.x, (ld)p.min.x - n, 1e-6, "inflated min.x " + w); near(g.min.y, (ld)p.min.y - n, 1e-6, "inflated min.y " + w);
  near(g.max.x, (ld)p.max.x + n, 1e-6, "inflated max.x " + w); near(g.max.y, (ld)p.max.y + n, 1e-6, "inflated max.y " + w);
  near(p.width(), (ld)p.max.x - p.min.x, 1e-6, "width " + w); near(p.height(), (ld)p.max.y - p.min.y, 1e-6, "height " + w);
  vec2 c = p.center();
  near(c.x, ((ld)p.max.x + p.min.x) / 2, 1e-6, "center.x " + w); near(c.y, ((ld)p.max.y + p.min.y) / 2, 1e-6, "center.y " + w);
}
static rect mk(double a, double b, double c, double d) { return rect(vec2(std::min(a, c), std::min(b, d)), vec2(std::max(a, c), std::max(b, d))); }
static void onmodel(const Model& m) {
  double X[4], Y[4];
  auto ctl = [&](const char* ax, double* v) {
    std::string s(ax);
    double a = get(m, "qa" + s), b = get(m, "qb" + s), c = get(m, "qc" + s), z = get(m, "s0" + s);
    v[0] = z; v[1] = z + c / 3; v[2] = b / 6 - z + 2 * v[1]; v[3] = a / 3 + 3 * v[2] - 3 * v[1] + v[0];
  };
  ctl("x", X); ctl("y", Y);
  check(bezier_cubic{ vec2(X[0], Y[0]), vec2(X[1], Y[1]), vec2(X[2], Y[2]), vec2(X[3], Y[3]) });
  boxes(mk(get(m, "a.0"), get(m, "a.8"), get(m, "a.16"), get(m, "a.24")), mk(get(m, "b.0"), get(m, "b.8"), get(m, "b.16"), get(m, "b.24")), get(m, "n.0"));
}
static void one(Rng& r) {
  check(rnd(r));
  Gen g(r);
  rect a = mk(g.c(), g.c(), g.c(), g.c()), b = mk(g.c(), g.c(), g.c(), g.c());
  if (r.i(3) == 0) b.min.x = a.max.x, b.max.x = std::max(b.max.x, b.min.x);
  if (r.i(3) == 0) b.max.y = a.min.y, b.min.y = std::min(b.max.y, b.min.y);
  boxes(a, b, r.f(0, 3));
}
#endif
#if PROP == 5
// segment p0p1 against p2p3, with p2/p3 given by their coordinates
static std::string pts(const vec2* p) { std::string s; for (int i = 0; i < 4; ++i) s += " (" + str(p[i].x) + "," + str(p[i].y) + ")"; return s; }
static void check(const vec2* p) {
  for (int i = 0; i < 4; ++i) if (!(std::fabs(p[i].x) < 1e6 && std::fabs(p[i].y) < 1e6)) return;
  if (p[0] == p[1] || p[2] == p[3]) return;
  ld ax = (ld)p[1].x - p[0].x, ay = (ld)p[1].y - p[0].y, l2 = ax * ax + ay * ay;
  ld s[2], h[2];
  for (int i = 0; i < 2; ++i) {
    ld dx = (ld)p[2 + i].x - p[0].x, dy = (ld)p[2 + i].y - p[0].y;
    s[i] = (dx * ax + dy * ay) / l2; h[i] = (dy * ax - dx * ay) / l2;
  }
  auto res = intersect(p[0], p[1], p[2], p[3]);
  std::string w = "intersect" + pts(p) + " count=" + std::to_string(res.count);
  if (res.count < 0 || res.count > 2) fail("count out of range: " + w);
  const ld eps = 1e-9L, tol = 1e-7L;
  if (absl(h[0] - h[1]) > 1e-6L) {
    ld u = h[0] / (h[0] - h[1]), q = s[0] + u * (s[1] - s[0]);
    ld m = std::min(std::min(u, 1 - u), std::min(q, 1 - q));
    if (m > eps && res.count != 1) fail("crossing segments not reported once: " + w);
    if (m < -eps && res.count != 0) fail("segments that do not meet are reported: " + w);
    if (res.count == 1) {
      auto& d = res.data[0];
      near(d.t0, q, tol, "t0 " + w); near(d.t1, u, tol, "t1 " + w);
      near(d.p.x, p[0].x + q * ax, tol * (1 + absl(p[0].x) + absl(ax)), "p.x " + w); near(d.p.y, p[0].y + q * ay, tol * (1 + absl(p[0].y) + absl(ay)), "p.y " + w);
    }
  } else if (h[0] == h[1]) {
    if (h[0] != 0) { if (absl(h[0]) > 1e-6L && res.count) fail("parallel segments reported: " + w); return; }
    struct E { ld s, u; bool in; } e[4];
    ld d = s[1] - s[0];
    e[0] = { 0, -s[0] / d }; e[1] = { 1, (1 - s[0]) / d }; e[2] = { s[0], 0 }; e[3] = { s[1], 1 };
    int n = 0;
    for (int i = 0; i < 4; ++i) {
      ld v = i < 2 ? e[i].u : e[i].s;
      if (absl(v) < eps || absl(v - 1) < eps) { if (!(p[i] == p[i < 2 ? 2 : 0] || p[i] == p[i < 2 ? 3 : 1])) return; e[i].in = false; }
      else e[i].in = v > 0 && v < 1;
      n += e[i].in;
    }
    if (res.count != n) fail("collinear overlap: expected " + std::to_string(n) + " ends: " + w);
    for (auto& q : e) if (q.in) {
      bool ok = false;
      for (int i = 0; i < n; ++i) ok = ok || (absl(res.data[i].t0 - q.s) < tol && absl(res.data[i].t1 - q.u) < tol
        && absl(res.data[i].p.x - (p[0].x + q.s * ax)) < tol * (1 + absl(ax)) && absl(res.data[i].p.y - (p[0].y + q.s * ay)) < tol * (1 + absl(ay)));
      if (!ok) fail("an end of the overlap is missing or has wrong parameters: " + w);
    }
  }
}
static void onmodel(const Model& m) {
  double x0 = get(m, "x0"), y0 = get(m, "y0"), ax = get(m, "ax"), ay = get(m, "ay"), s2 = get(m, "s2"), h2 = get(m, "h2"), s3 = get(m, "s3"), h3 = get(m, "h3");
  vec2 p[4] = { vec2(x0, y0), vec2(x0 + ax, y0 + ay), vec2(x0 + s2 * ax - h2 * ay, y0 + s2 * ay + h2 * ax), vec2(x0 + s3 * ax - h3 * ay, y0 + s3 * ay + h3 * ax) };
  check(p);
}
static void one(Rng& r) {
  Gen g(r);
  vec2 p[4] = { vec2(g.c(), g.c()), vec2(g.c(), g.c()), vec2(g.c(), g.c()), vec2(g.c(), g.c()) };
  if (r.i(2)) {                        // on one line, exactly representable
    vec2 o(r.i(9) - 4, r.i(9) - 4), d(r.i(7) - 3, r.i(7) - 3);
    if (r.i(3) == 0) d.x = 0;
    if (r.i(3) == 0) d.y = 0;
    for (auto& q : p) q = o + d * (r.i(9) - 4);
    if (r.i(6) == 0) { vec2 t(r.i(3) - 1, r.i(3) - 1); p[2] = p[2] + t; p[3] = p[3] + t; }
  }
  else switch (r.i(8)) {
  case 0: p[2] = p[0]; break;
  case 1: p[3] = p[1]; break;
  case 2: p[2] = p[0] + (p[1] - p[0]) * 0.5; break;
  case 3: p[1].x = p[0].x; p[3].y = p[2].y; break;
  case 4: p[1].y = p[0].y; break;
  case 5: p[3].x = p[2].x; break;
  }
  check(p);
}
#endif
#if PROP == 8
static std::string P3(const vec2& a, const vec2& b, const vec2& c) { std::string s; for (auto p : { &a, &b, &c }) s += " (" + str(p->x) + "," + str(p->y) + ")"; return s; }
static void check(const vec2& a, const vec2& b, const vec2& q, double rad) {
  for (auto p : { &a, &b, &q }) if (!(std::fabs(p->x) < 1e4 && std::fabs(p->y) < 1e4)) return;
  std::string w = P3(a, b, q);
  ld dx = (ld)b.x - a.x, dy = (ld)b.y - a.y, ux = (ld)q.x - a.x, uy = (ld)q.y - a.y, l2 = dx * dx + dy * dy;
  ld sc = 1 + absl(a.x) + absl(a.y) + absl(b.x) + absl(b.y) + absl(q.x) + absl(q.y), tol = 1e-9L * sc * sc;
  double A, B, C;
  line{ a, b }.general_from(&A, &B, &C);
  if (!(A != 0 || B != 0)) fail("line form has no normal" + w);
  near((ld)A * a.x + (ld)B * a.y + C, 0, tol, "line form at the first end" + w);
  near((ld)A * b.x + (ld)B * b.y + C, 0, tol, "line form at the second end" + w);
  ld cr = dx * uy - dy * ux;
  if (l2 > 1e-6L) near(dist2_point_line(q, a, b), cr * cr / l2, 1e-8L * sc * sc * sc * sc, "squared distance to the line" + w);
  if (l2 == 0) near(dist2_point_line(q, a, b), ux * ux + uy * uy, tol, "squared distance to a point" + w);
  if (l2 > 1e-6L) {
    ld s = (dx * ux + dy * uy) / l2;
    if (absl(s) > 1e-9L && absl(s - 1) > 1e-9L && point_project_in_segment(q, a, b) != (s > 0 && s < 1)) fail("projection inside the segment" + w);
  } else if (l2 == 0 && point_project_in_segment(q, a, b) != (q == a)) fail("projection on a point" + w);
  near(a.dot(b), (ld)a.x * b.x + (ld)a.y * b.y, tol, "dot" + w);
  near(a.cross(b), (ld)a.x * b.y - (ld)a.y * b.x, tol, "cross" + w);
  near(a.dist2(), (ld)a.x * a.x + (ld)a.y * a.y, tol, "dist2" + w);
  near(a.dist(), sqrtl((ld)a.x * a.x + (ld)a.y * a.y), tol, "dist" + w);
  vec2 rt = a.rotated(rad), r2 = a;
  r2.rotate(rad);
  near(rt.x, cosl(rad) * a.x - sinl(rad) * a.y, tol, "rotated.x" + w); near(rt.y, sinl(rad) * a.x + cosl(rad) * a.y, tol, "rotated.y" + w);
  if (!(r2 == rt)) fail("rotate differs from rotated" + w);
  if (a.dist2() > 1e-6) {
    vec2 n = a.normalization(), n2 = a; n2.normalizate();
    near(n.dist(), 1, 1e-9L, "normalised length" + w); near(n.cross(a), 0, tol, "normalised direction" + w);
    if (!(n.dot(a) > 0)) fail("normalised direction" + w);
    if (!(n2 == n)) fail("normalizate differs" + w);
  }
  vec2 z = a + b, y = a - b, x = a * rad, v = rad * a, m = -a;
  if (z.x != a.x + b.x || z.y != a.y + b.y || y.x != a.x - b.x || y.y != a.y - b.y || x.x != a.x * rad || x.y != a.y * rad || !(v == x) || m.x != -a.x || m.y != -a.y) fail("vector arithmetic" + w);
  vec2 p1 = a + rad, p2 = a - rad;
  if (p1.x != a.x + rad || p1.y != a.y + rad || p2.x != a.x - rad || p2.y != a.y - rad) fail("scalar arithmetic" + w);
  if (rad != 0) { vec2 d = a / rad; near(d.x, (ld)a.x / rad, tol / absl(rad), "division" + w); near(d.y, (ld)a.y / rad, tol / absl(rad), "division" + w); }
  if ((a == b) != (a.x == b.x && a.y == b.y) || (a != b) == (a == b)) fail("equality" + w);
}
static void onmodel(const Model& m) {
  auto v = [&](const char* n) { return vec2(get(m, std::string(n) + ".0"), get(m, std::string(n) + ".8")); };
  check(v("l0"), v("l1"), v("p"), get(m, "rad", 0.5));
  check(v("a"), v("b"), v("p"), get(m, "rad", 0.5));
}
static void one(Rng& r) {
  Gen g(r);
  vec2 a(g.c(), g.c()), b(g.c(), g.c()), q(g.c(), g.c());
  switch (r.i(7)) {
  case 0: b = a; break;
  case 1: b.x = a.x; break;
  case 2: b.y = a.y; break;
  case 3: q = a + (b - a) * r.f(-1, 2); break;
  case 4: q = a; break;
  }
  if (r.i(20) == 0) b = q = a;
  check(a, b, q, r.f(-7, 7));
}
#endif
#if PROP == 9
static void check(const vec2& c, double rad) {
  if (!(rad > 1e-6 && rad < 1e6 && std::fabs(c.x) < 1e6 && std::fabs(c.y) < 1e6)) return;
  bezier_cubic b[4];
  bezier_cubic::circle(c, rad, b);
  std::string w = "circle centre (" + str(c.x) + "," + str(c.y) + ") r " + str(rad);
  ld tol = 1e-9L * (rad + absl(c.x) + absl(c.y) + 1);
  const int X[5] = { 1, 0, -1, 0, 1 }, Y[5] = { 0, 1, 0, -1, 0 };
  ld area = 0;
  for (int i = 0; i < 4; ++i) {
    near(b[i].p0.x, c.x + X[i] * (ld)rad, tol, w + " quarter start x"); near(b[i].p0.y, c.y + Y[i] * (ld)rad, tol, w + " quarter start y");
    near(b[i].p3.x, c.x + X[i + 1] * (ld)rad, tol, w + " quarter end x"); near(b[i].p3.y, c.y + Y[i + 1] * (ld)rad, tol, w + " quarter end y");
    for (int k = 0; k <= 32; ++k) {
      ld t = k / 32.0L, dx = BX(b[i], t) - c.x, dy = BY(b[i], t) - c.y, d = sqrtl(dx * dx + dy * dy);
      if (absl(d - rad) > 0.0005L * rad + tol) fail(w + ": point at distance " + str((double)d));
      if (dx * X[i] + dy * Y[i] < -tol || dx * X[i + 1] + dy * Y[i + 1] < -tol) fail(w + ": curve leaves its quarter");
    }
  }
}
static void onmodel(const Model& m) { check(vec2(get(m, "c.0"), get(m, "c.8")), get(m, "r")); check(vec2(0, 0), 1); }
static void one(Rng& r) { Gen g(r); check(vec2(g.c(), g.c()), r.i(3) ? r.f(0.1, 100) : 1 + r.i(10)); }
#endif
#if PROP == 4
// a (x - r1)(x - r2)... with known real roots; coefficients in long double, rounded once
static std::string co(const std::vector<double>& c) { std::string s = "coefficients"; for (double v : c) s += " " + str(v); return s; }
static void expect(const std::vector<double>& c, int n, const double* d, std::vector<ld> want, ld tol) {
  std::string w = co(c) + ": " + std::to_string(n) + " results";
  for (int i = 0; i < n && i < 3; ++i) w += " " + str(d[i]);
  if (n != (int)want.size()) fail(w + ", expected " + std::to_string(want.size()));
  std::vector<ld> got(d, d + n);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  for (int i = 0; i < n; ++i) if (!(absl(got[i] - want[i]) <= tol)) fail(w + ", expected root " + str((double)want[i]));
}
static ld disc3(ld a3, ld a2, ld a1, ld a0) { ld a = a2 / a3, b = a1 / a3, c = a0 / a3, p = b - a * a / 3, q = 2 * a * a * a / 27 - a * b / 3 + c; return q * q / 4 + p * p * p / 27; }
static void quad(ld A, ld B, ld C, const std::vector<ld>& want, ld tol) {
  double a = A, b = B, c = C;
  auto q = resolv_quad_equa(a, b, c);
  expect({ a, b, c }, q.count, q.data, want, tol);
  for (double z : { 0.0, 1e-9, -1e-9 }) { auto r = resolv_cubic_equa(z, a, b, c); expect({ z, a, b, c }, r.count, r.data, want, tol); }
}
static void cub(ld a3, ld a2, ld a1, ld a0, const std::vector<ld>& want, ld tol) {
  double c3 = a3, c2 = a2, c1 = a1, c0 = a0;
  auto r = resolv_cubic_equa(c3, c2, c1, c0);
  expect({ c3, c2, c1, c0 }, r.count, r.data, want, tol);
}
// roots r, s, u (three real) or r and the pair m +- iw
static void three(ld A, ld r, ld s, ld u) {
  ld sep = std::min({ absl(r - s), absl(s - u), absl(r - u) }), mx = 1 + std::max({ absl(r), absl(s), absl(u) });
  ld a2 = -A * (r + s + u), a1 = A * (r * s + s * u + u * r), a0 = -A * r * s * u;
  if (sep < 0.05L * mx || absl(A) < 1e-3L || mx > 1e4L || disc3(A, a2, a1, a0) > -1e-4L) return;
  cub(A, a2, a1, a0, { r, s, u }, 1e-6L * mx);
}
static void onlyone(ld A, ld r, ld m, ld w) {
  ld mx = 1 + std::max({ absl(r), absl(m), absl(w) });
  ld b = m * m + w * w, a2 = A * (-2 * m - r), a1 = A * (b + 2 * m * r), a0 = -A * b * r;
  if (absl(w) < 0.05L * mx || absl(A) < 1e-3L || mx > 1e4L || disc3(A, a2, a1, a0) < 1e-4L) return;
  cub(A, a2, a1, a0, { r }, 1e-5L * mx);
}
static void onmodel(const Model& m) {
  ld A = get(m, "a3", get(m, "a", 1)), a = has(m, "a3") ? get(m, "a") : 0;
  if (has(m, "R")) { ld R = get(m, "R"), C = get(m, "C", 0.8), S = sqrtl(1 - std::min<ld>(C * C, 1)), h = sqrtl(3); three(A, 2 * R * C - a / 3, R * (-C - h * S) - a / 3, R * (-C + h * S) - a / 3); }
  if (has(m, "v") && has(m, "w")) { ld v = get(m, "v"), w = get(m, "w"), y = v + w; onlyone(A, y - a / 3, -y / 2 - a / 3, sqrtl(3) / 2 * (v - w)); }
  if (has(m, "r") && has(m, "s")) { ld x = get(m, "a"), r = get(m, "r"), s = get(m, "s"); if (absl(x) > 1e-3L && absl(r - s) > 1e-3L && absl(r) + absl(s) < 1e4L) quad(x, -x * (r + s), x * r * s, { r, s }, 1e-6L * (1 + absl(r) + absl(s))); }
}
static void one(Rng& r) {
  Gen g(r);
  ld A = r.i(3) ? (r.i(2) ? 1 : -1) * r.f(0.01, 5) : (r.i(2) ? 1 : -1) * (1 + r.i(4));
  ld x = g.c(), y = g.c(), z = g.c();
  switch (r.i(10)) {
  case 0: z = -x - y; break;              // no quadratic term
  case 1: y = -x; z = 0; break;           // x^3 - px
  case 2: { ld m = (x + y) / 2; z = m; break; }   // symmetric: q == 0
  case 3: x *= 30; y *= 30; z *= 30; break;
  }
  switch (r.i(7)) {
  case 0: case 1: three(A, x, y, z); break;
  case 2: onlyone(A, x, y, z); break;
  case 3: onlyone(A, x, -x / 2, z); break;
  case 4: if (absl(x - y) > 0.01L * (1 + absl(x) + absl(y)) && A * A * (x - y) * (x - y) > 1e-6L) quad(A, -A * (x + y), A * x * y, { x, y }, 1e-6L * (1 + absl(x) + absl(y))); break;
  case 5: if (absl(A) * absl(z) > 1e-3L) quad(A, -2 * A * x, A * (x * x + z * z), {}, 0); if (absl(z) > 1e-3L) quad(0, z, -z * x, { x }, 1e-6L * (1 + absl(x))); if (absl(x) > 1e-7) quad(0, 0, x, {}, 0); break;
  case 6: {                               // exact double and triple roots; pure cubes
    ld u = r.i(13) - 6, v = r.i(13) - 6, a = (r.i(2) ? 1 : -1) * (1 << r.i(3));
    quad(a, -2 * a * u, a * u * u, { u }, 1e-7L);
    if (u == v) cub(a, -3 * a * u, 3 * a * u * u, -a * u * u * u, { u }, 1e-2L);
    else if ((2 * u + v) == 3 * (ld)(int)((2 * u + v) / 3)) cub(a, -a * (2 * u + v), a * (u * u + 2 * u * v), -a * u * u * v, { u, v }, 1e-5L);
    if (u != 0) { ld c = u * u * u; cub(a, 0, 0, -a * c, { u }, 1e-6L); }
    break; }
  }
  double c3 = g.c(), c2 = g.c(), c1 = g.c(), c0 = g.c();
  auto q = resolv_quad_equa(c2, c1, c0); auto k = resolv_cubic_equa(c3, c2, c1, c0);
  if (q.count < 0 || q.count > 2 || k.count < 0 || k.count > 3) fail("number of results " + co({ c3, c2, c1, c0 }));
}
#endif
#if PROP == 6
// oracle: sign changes of the signed distance on a fine grid, refined by bisection
struct Eq { ld c3, c2, c1, c0; ld operator()(ld t) const { return ((c3 * t + c2) * t + c1) * t + c0; } ld d(ld t) const { return (3 * c3 * t + 2 * c2) * t + c1; } };
static bool tame(const Eq& e) {            // outside the solver's tolerance cases
  ld m = std::max({ absl(e.c3), absl(e.c2), absl(e.c1), absl(e.c0) });
  if (!(m > 1e-2L && m < 1e6L)) return false;
  if (absl(e.c3) > 1e-13L) {
    if (absl(e.c3) < 1e-3L * m) return false;
    ld a = e.c2 / e.c3, b = e.c1 / e.c3, c = e.c0 / e.c3, p = b - a * a / 3, q = 2 * a * a * a / 27 - a * b / 3 + c, k = q * q / 4 + p * p * p / 27;
    return absl(k) > 1e-5L * (1 + q * q + absl(p * p * p));
  }
  if (absl(e.c2) > 1e-13L) { if (absl(e.c2) < 1e-3L * m) return false; ld k = e.c1 * e.c1 - 4 * e.c2 * e.c0; return absl(k) > 1e-4L * m * m; }
  return absl(e.c1) > 1e-3L * m;
}
static std::vector<ld> solve(const Eq& e) {
  std::vector<ld> r;
  const int N = 400;
  for (int i = 0; i < N; ++i) {
    ld a = -0.1L + 1.2L * i / N, b = -0.1L + 1.2L * (i + 1) / N;
    if ((e(a) < 0) == (e(b) < 0)) continue;
    bool neg = e(a) < 0;
    for (int k = 0; k < 80; ++k) { ld m = (a + b) / 2; ((e(m) < 0) == neg ? a : b) = m; }
    r.push_back((a + b) / 2);
  }
  return r;
}
static Eq eq(const bezier_cubic& b, ld A, ld B, ld C) {
  auto f = [&](ld x, ld y) { return A * x + B * y; };
  ld q0 = f(b.p0.x, b.p0.y), q1 = f(b.p1.x, b.p1.y), q2 = f(b.p2.x, b.p2.y), q3 = f(b.p3.x, b.p3.y);
  return Eq{ q3 - 3 * q2 + 3 * q1 - q0, 3 * q2 - 6 * q1 + 3 * q0, 3 * q1 - 3 * q0, q0 + C };
}
static void check(const bezier_cubic& b, const vec2& a, const vec2& c) {
  ld sz = size_of(b) + absl(a.x) + absl(a.y) + absl(c.x) + absl(c.y);
  if (!(sz < 1e3L)) return;
  const ld e = 1e-4L;
  {
    Eq q = eq(b, 0, 1, -(ld)a.y);
    if (tame(q)) {
      auto w = solve(q); auto r = b.point_at_y(a.y);
      std::string nm = show(b) + " at y=" + str(a.y);
      if (r.count < 0 || r.count > 3) fail(nm + ": count");
      for (int i = 0; i < r.count; ++i) { if (!(0 <= r.t[i] && r.t[i] <= 1)) fail(nm + ": parameter " + str(r.t[i])); near(BY(b, r.t[i]), a.y, 1e-5L * sz, nm + ": height at t=" + str(r.t[i])); for (int j = 0; j < i; ++j) if (r.t[i] == r.t[j]) fail(nm + ": same parameter twice"); }
      for (ld t : w) if (t > e && t < 1 - e) { bool hit = false; for (int i = 0; i < r.count; ++i) hit |= absl(r.t[i] - t) < e; if (!hit) fail(nm + ": missed t=" + str((double)t)); }
    }
  }
  ld dx = (ld)c.x - a.x, dy = (ld)c.y - a.y, l = sqrtl(dx * dx + dy * dy);
  if (l < 1e-2L) return;
  ld A = dy, B = -dx, C = (ld)c.x * a.y - (ld)a.x * c.y;
  if (a.x == c.x) { A = 1; B = 0; C = -a.x; } else if (a.y == c.y) { A = 0; B = 1; C = -a.y; }
  Eq q = eq(b, A, B, C);
  if (!tame(q)) return;
  auto w = solve(q);
  auto r = intersect(line{ a, c }, b);
  std::string nm = show(b) + " with segment (" + str(a.x) + "," + str(a.y) + ") (" + str(c.x) + "," + str(c.y) + ")";
  if (r.count < 0 || r.count > 3) fail(nm + ": count");
  for (int i = 0; i < r.count; ++i) {
    auto& d = r.data[i];
    if (!(0 <= d.t1 && d.t1 <= 1) || !(-1e-8L * sz / l <= d.t0 && d.t0 <= 1 + 1e-8L * sz / l)) fail(nm + ": parameters " + str(d.t0) + " " + str(d.t1));
    near(d.p.x, BX(b, d.t1), 1e-7L * sz, nm + ": x on the curve"); near(d.p.y, BY(b, d.t1), 1e-7L * sz, nm + ": y on the curve");
    near(d.p.x, a.x + d.t0 * dx, 1e-4L * sz, nm + ": x on the segment"); near(d.p.y, a.y + d.t0 * dy, 1e-4L * sz, nm + ": y on the segment");
    for (int j = 0; j < i; ++j) if (r.data[j].t1 == d.t1) fail(nm + ": same parameter twice");
  }
  for (ld t : w) {
    ld u = ((BX(b, t) - a.x) * dx + (BY(b, t) - a.y) * dy) / (l * l);
    if (!(t > e && t < 1 - e && u > e && u < 1 - e)) continue;
    bool hit = false;
    for (int i = 0; i < r.count; ++i) hit |= absl(r.data[i].t1 - t) < e;
    if (!hit) fail(nm + ": missed the crossing at curve parameter " + str((double)t));
  }
}
static void onmodel(const Model& m) {
  bezier_cubic b = mcubic(m, "b");
  vec2 a(get(m, "l.0"), get(m, "l.8"));
  if (has(m, "y")) a.y = get(m, "y");
  check(b, a, vec2(a.x + get(m, "dx"), a.y + get(m, "dy")));
}
// touching at an end: cases in which every intermediate value is a small integer, hence exact
static void ends(Rng& r) {
  int k = (1 + r.i(4)) * (r.i(2) ? 1 : -1), y0 = r.i(5) - 2;
  double h[2][4], *u = h[0], *v = h[1];
  for (int i = 0; i < 4; ++i) { u[i] = r.i(9) - 4; v[i] = y0 + i * k; }
  bool flip = r.i(2), end = r.i(2);
  auto P = [&](double x, double y) { return flip ? vec2(y, x) : vec2(x, y); };
  bezier_cubic b{ P(u[0], v[0]), P(u[1], v[1]), P(u[2], v[2]), P(u[3], v[3]) };
  int i = end ? 3 : 0;
  if (!flip) {
    auto res = b.point_at_y(v[i]);
    bool hit = false;
    for (int j = 0; j < res.count && j < 3; ++j) hit |= res.t[j] == (end ? 1 : 0);
    if (!hit) fail(show(b) + " at the height " + str(v[i]) + " of its own " + (end ? "end" : "start") + ": not reported");
  }
  int m = r.i(3), w = r.i(3);
  if (m + w == 0) return;
  vec2 a = P(u[i] - m, v[i]), c = P(u[i] + w, v[i]);
  auto res = intersect(line{ a, c }, b);
  bool hit = false;
  for (int j = 0; j < res.count && j < 3; ++j) hit |= res.data[j].t1 == (end ? 1 : 0);
  if (!hit) fail(show(b) + " touched at its " + (end ? "end" : "start") + " by segment (" + str(a.x) + "," + str(a.y) + ") (" + str(c.x) + "," + str(c.y) + "): not reported");
}
static void one(Rng& r) {
  if (r.i(4) == 0) ends(r);
  bezier_cubic b = rnd(r);
  Gen g(r);
  vec2 a(g.c(), g.c()), c(g.c(), g.c());
  if (r.i(3)) { vec2 p = b.point_at(r.f()); a = p + vec2(g.c(), g.c()) * r.f(); c = r.i(2) ? p + (p - a) * r.f(0, 2) : p; }
  switch (r.i(6)) { case 0: c.x = a.x; break; case 1: c.y = a.y; break; }
  check(b, a, c);
}
#endif
#if PROP == 10
#include "segment.h"
static void check(const bezier_cubic& b, double y) {
  using namespace river;
  if (!sane(b)) return;
  std::string w = show(b);
  seg_cubicto c(b.p1, b.p2, b.p3); seg_lineto l(b.p3); seg_moveto m(b.p3);
  segment* all[] = { &c, &l, &m };
  const seg_type kinds[] = { seg_type::cubicto, seg_type::lineto, seg_type::moveto };
  for (int i = 0; i < 3; ++i) {
    segment* s = all[i];
    if (s->get_type() != kinds[i] || !(s->get_target() == b.p3)) fail("kind or end of a segment " + w);
    alignas(16) char mem[sizeof(seg_cubicto) + sizeof(seg_lineto)];
    s->copy(mem);
    segment* d = s->deep_copy(); segment* k = (segment*)mem;
    for (segment* q : { d, k }) {
      if (q->get_type() != kinds[i] || !(q->get_target() == b.p3)) fail("copy of a segment " + w);
      if (i == 0 && (!(((seg_cubicto*)q)->ctrl1 == b.p1) || !(((seg_cubicto*)q)->ctrl2 == b.p2))) fail("copy of a curve " + w);
    }
    d->reverse(b.p0);
    if (!(s->get_target() == b.p3) || !(d->get_target() == b.p0)) fail("reversed segment " + w);
    if (i == 0) {
      bezier_cubic r = ((seg_cubicto*)d)->get_cubic(b.p3);
      for (int n = 0; n <= 8; ++n) { ld t = n / 8.0L; near(BX(r, 1 - t), BX(b, t), 1e-9L * size_of(b), "reversed curve x " + w); near(BY(r, 1 - t), BY(b, t), 1e-9L * size_of(b), "reversed curve y " + w); }
    }
    delete d;
  }
  ld dy = (ld)b.p3.y - b.p0.y;
  if (absl(dy) > 1e-3L) {
    near(l.curr_x(b.p0, y), b.p0.x + ((ld)b.p3.x - b.p0.x) * (y - (ld)b.p0.y) / dy, 1e-6L * size_of(b) * (1 + absl(y)) / absl(dy), "line abscissa " + w + " y=" + str(y));
    // curves whose height strictly grows or falls, away from flat spots
    bool mono = true;
    for (int n = 0; n < 64; ++n) mono &= (BY(b, (n + 1) / 64.0L) - BY(b, n / 64.0L)) * (dy > 0 ? 1 : -1) > 1e-3L * absl(dy);
    if (mono) {
      ld A = b.p3.y - 3 * (ld)b.p2.y + 3 * (ld)b.p1.y - b.p0.y;
      for (int n = 1; n < 8; ++n) {
        ld t = n / 8.0L;
        double yy = (double)BY(b, t);
        if (absl(A) > 1e-13L && absl(A) < 1e-2L * absl(dy)) continue;
        auto r = b.point_at_y(yy);
        if (r.count != 1) continue;          // solver tolerance, decided by C04/C06
        near(c.curr_x(b.p0, yy), BX(b, t), 1e-3L * size_of(b), "curve abscissa " + w + " y=" + str(yy));
      }
      near(c.curr_x(b.p0, b.p0.y), b.p0.x, 1e-3L * size_of(b), "abscissa at the start " + w);
      near(c.curr_x(b.p0, b.p3.y), b.p3.x, 1e-3L * size_of(b), "abscissa at the end " + w);
    }
  }
}
static void onmodel(const Model& m) {
  for (const char* nm : { "this" }) {
    vec2 f(get(m, "from.0"), get(m, "from.8"));
    auto v = [&](int o) { return vec2(get(m, std::string(nm) + "." + std::to_string(o)), get(m, std::string(nm) + "." + std::to_string(o + 8))); };
    check(bezier_cubic{ f, v(8), v(24), v(40) }, get(m, "y"));
    check(bezier_cubic{ f, v(8), v(24), v(8) }, get(m, "y"));
  }
}
static void one(Rng& r) {
  bezier_cubic b = rnd(r);
  if (r.i(2)) { double y[4] = { b.p0.y, b.p1.y, b.p2.y, b.p3.y }; std::sort(y, y + 4); if (r.i(2)) std::reverse(y, y + 4); b.p0.y = y[0]; b.p1.y = y[1]; b.p2.y = y[2]; b.p3.y = y[3]; }
  check(b, b.p0.y + (b.p3.y - b.p0.y) * r.f(-0.5, 1.5));
}
#endif
#undef in
int main(int argc, char** argv) { return drive(argc, argv, onmodel, one); }
