// end-to-end oracle through the public interface only: the result region of a boolean
// operation is compared with a point-membership oracle.  Used when a change has removed
// the internals a unit-level harness names.
#include "common.h"
#include "river.h"
using namespace H;
using namespace river;
typedef std::vector<std::vector<point>> Poly;
static Poly P;
static void mv(path_moveto_func_para) { P.push_back({ to }); }
static void ln(path_lineto_func_para) { P.back().push_back(to); }
static void cb(path_cubicto_func_para) {
  rmath::bezier_cubic b{ from, ctrl1, ctrl2, to };
  for (int i = 1; i <= 64; i++) P.back().push_back(b.point_at(i / 64.0));
}
static Poly conv(const paths& ps) {
  P.clear();
  path_traverse_funcs f; f.move_to = mv; f.line_to = ln; f.cubic_to = cb;
  for (auto& p : ps) p.traverse(f, nullptr);
  return P;
}
static int wind(const Poly& p, double x, double y) {
  int w = 0;
  for (auto& r : p) for (size_t i = 0, n = r.size(); i < n; i++) {
    auto a = r[i], b = r[(i + 1) % n];
    if ((a.y <= y) != (b.y <= y)) { double xx = a.x + (b.x - a.x) * (y - a.y) / (b.y - a.y); if (xx > x) w += b.y > a.y ? 1 : -1; }
  }
  return w;
}
static double away(const Poly& p, double x, double y) {
  double d = 1e9;
  for (auto& r : p) for (size_t i = 0, n = r.size(); i < n; i++) {
    auto a = r[i], v = r[(i + 1) % n] - a;
    double l = v.dist2(), s = l > 0 ? std::min(1., std::max(0., v.dot(point(x, y) - a) / l)) : 0;
    d = std::min(d, (point(x, y) - (a + v * s)).dist());
  }
  return d;
}
static bool fil(int w, fill_rule f) { switch (f) { case fill_rule::even_odd: return w & 1; case fill_rule::non_zero: return w != 0; case fill_rule::positive: return w > 0; default: return w < 0; } }
static bool op(bool s, bool c, clip_type t) { switch (t) { case clip_type::intersection: return s && c; case clip_type::union_: return s || c; case clip_type::difference: return s && !c; case clip_type::xor_: return s != c; default: return false; } }
static std::string show(const Poly& p) { std::string s; for (auto& r : p) { s += "["; for (auto& v : r) s += "(" + str(v.x) + "," + str(v.y) + ")"; s += "]"; } return s; }
static void one(Rng& g) {
  const int mode = 1;                       // rectangles on a grid: every intersection is exact, shared edges and corners are common
  auto R = [&] { return mode == 1 ? (double)g.i(9) : g.f(0, 10); };
  auto mk = [&](int k, int shape) {
    paths ps;
    for (int j = 0; j < k; j++) {
      path p;
      if (shape == 0) {
        double a = R(), b = R(), c = a + 1 + (mode == 1 ? g.i(4) : g.f(0, 5)), d = b + 1 + (mode == 1 ? g.i(4) : g.f(0, 5));
        if (g.b()) { p.moveto(a, b); p.lineto(c, b); p.lineto(c, d); p.lineto(a, d); }
        else { p.moveto(a, b); p.lineto(a, d); p.lineto(c, d); p.lineto(c, b); }
      } else if (shape == 1) { p.moveto(R(), R()); p.lineto(R(), R()); p.lineto(R(), R()); }
      else {
        rmath::bezier_cubic q[4];
        rmath::bezier_cubic::circle(point(R(), R()), g.f(1, 4), q);
        p.moveto(q[0].p0);
        for (auto& c : q) p.cubicto(c.p1, c.p2, c.p3);
      }
      ps.push_back(std::move(p));
    }
    return ps;
  };
  paths s = mk(mode < 2 ? 1 + g.i(2) : 1, mode < 2 ? 0 : mode - 1), c = mk(mode < 2 ? 1 + g.i(2) : 1, 0);
  Poly S = conv(s), C = conv(c);
  clip_type t = (clip_type)(1 + g.i(4));
  fill_rule f = (fill_rule)g.i(4);
  processor pr;
  pr.add_path(s, path_type::subject);
  pr.add_path(c, path_type::clip);
  paths o;
  pr.process(t, f, o);
  Poly O = conv(o);
  int mism = 0;
  for (int q = 0; q < 120; q++) {
    double x = g.f(-1, 14), y = g.f(-1, 14);
    double tol = mode == 3 ? 0.05 : 1e-3;
    if (away(S, x, y) < tol || away(C, x, y) < tol) continue;
    if (op(fil(wind(S, x, y), f), fil(wind(C, x, y), f), t) != (wind(O, x, y) != 0)) mism++;
  }
  if (mism) fail("result region of op " + std::to_string((int)t) + " fill " + std::to_string((int)f) + " is wrong at " + std::to_string(mism) +
                 " of 120 points; subject " + show(S).substr(0, 1500) + " clip " + show(C).substr(0, 1500) + " result " + show(O).substr(0, 2500));
}
int main(int argc, char** argv) { return drive(argc, argv, nullptr, one); }
