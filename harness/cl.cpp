// native oracle for the clipper-level contracts; PROP selects the property
#include "common.h"
#include <set>
#include <queue>
#include <list>
#include <map>
#include <memory>
#include <type_traits>
#include "boost/pool/pool.hpp"
#include "boost/pool/object_pool.hpp"
#include "vatti.cpp"
using namespace H;
using rmath::bezier_cubic;
using rmath::vec2;
typedef vatti::vertex V;

static ld absl(ld x) { return x < 0 ? -x : x; }
static ld bern(ld a, ld b, ld c, ld d, ld t) { ld k = 1 - t; return a*k*k*k + 3*b*k*k*t + 3*c*k*t*t + d*t*t*t; }
static ld BX(const bezier_cubic& b, ld t) { return bern(b.p0.x, b.p1.x, b.p2.x, b.p3.x, t); }
static ld BY(const bezier_cubic& b, ld t) { return bern(b.p0.y, b.p1.y, b.p2.y, b.p3.y, t); }
static ld size_of(const bezier_cubic& b) {
  ld m = 1;
  for (const vec2* p : { &b.p0, &b.p1, &b.p2, &b.p3 }) { m = std::max(m, absl(p->x)); m = std::max(m, absl(p->y)); }
  return m;
}
static std::string show(const bezier_cubic& b) {
  std::string s = "bezier{";
  for (const vec2* p : { &b.p0, &b.p1, &b.p2, &b.p3 }) s += " (" + str(p->x) + "," + str(p->y) + ")";
  return s + " }";
}
static bezier_cubic rnd(Rng& r) {
  Gen g(r);
  bezier_cubic b{ vec2(g.c(), g.c()), vec2(g.c(), g.c()), vec2(g.c(), g.c()), vec2(g.c(), g.c()) };
  switch (r.i(12)) {
  case 0: b.p1 = b.p0; break;
  case 1: b.p2 = b.p3; break;
  case 2: b.p1.y = b.p0.y; b.p2.y = b.p3.y; break;
  case 3: b.p3 = b.p0; break;
  case 4: b.p1 = b.p0 * (2. / 3) + b.p3 * (1. / 3); b.p2 = b.p0 * (1. / 3) + b.p3 * (2. / 3); break;
  case 5: { vec2 q(g.c(), g.c()); b.p1 = b.p0 + (q - b.p0) * (2. / 3); b.p2 = b.p3 + (q - b.p3) * (2. / 3); break; }
  case 6: { double v = b.p0.y; b.p1.y = v; b.p2.y = v; b.p3.y = v; break; }
  case 7: b.p2 = b.p1; break;
  }
  return b;
}

#if PROP == 2
static void check(const bezier_cubic& b) {
  ld sz = size_of(b);
  if (sz > 1e6) return;
  ld a = 3 * (ld)b.p3.y - 9 * (ld)b.p2.y + 9 * (ld)b.p1.y - 3 * (ld)b.p0.y;
  ld q = 6 * (ld)b.p0.y - 12 * (ld)b.p1.y + 6 * (ld)b.p2.y;
  ld c = 3 * ((ld)b.p1.y - b.p0.y);
  double t[2] = { -7, -9 };
  int n = b.split_y(t, t + 1);
  auto dy = [&](ld s) { return a * s * s + q * s + c; };
  auto bad = [&](const char* w) { fail(std::string(w) + " " + show(b) + " count=" + std::to_string(n) + " t=" + str(t[0]) + "," + str(t[1])); };
  if (n < 0 || n > 2) bad("split_y count");
  for (int i = 0; i < n; ++i) {
    if (!(t[i] > 0 && t[i] < 1)) bad("split_y parameter outside (0,1)");
    ld disc = q * q - 4 * a * c;
    ld tol = 2e-8L + 1e-6L * sz;
    if (absl(disc) > 1e-3L && absl(dy(t[i])) > tol) bad("split_y parameter is no turning point");
  }
  if (n == 2 && !(t[0] < t[1])) { if (t[0] > t[1]) bad("split_y parameters do not ascend"); }
  if (n < 1 && t[0] != -7) bad("split_y wrote an unused output");
  if (n < 2 && t[1] != -9) bad("split_y wrote an unused output");
  // the pieces have no hidden turning point: exact roots by the quadratic formula
  std::vector<ld> roots;
  bool clear = true;
  if (absl(a) > 1e-6L) {
    ld disc = q * q - 4 * a * c;
    if (disc > 1e-6L * (q * q + absl(4 * a * c))) {
      ld k = sqrtl(disc), w = q < 0 ? -q + k : -q - k;
      ld r1 = w / (2 * a), r2 = w != 0 ? 2 * c / w : -r1;
      roots = { r1, r2 };
    } else if (disc > 0 || absl(disc) < 1e-6L * (q * q + absl(4 * a * c))) clear = false;
  } else if (a == 0) {
    if (absl(q) > 1e-6L) roots = { -c / q }; else clear = q == 0;
  } else clear = false;
  if (!clear) return;
  std::sort(roots.begin(), roots.end());
  std::vector<ld> in;
  for (ld r : roots) {
    if (absl(r) < 1e-5L || absl(r - 1) < 1e-5L) return;    // too close to an end to call
    if (r > 0 && r < 1) in.push_back(r);
  }
  if ((int)in.size() != n) bad("split_y missed or invented a turning point");
  for (int i = 0; i < n; ++i) if (absl(in[i] - t[i]) > 1e-5L) bad("split_y turning point misplaced");
  // through the public interface: the ring retraces the curve
  vatti::clipper cl;
  river::paths ps(1);
  ps[0].moveto(b.p0);
  ps[0].cubicto(b.p1, b.p2, b.p3);
  double ex = b.p0.x + 3 * (double)sz, ey = b.p0.y + 5 * (double)sz;
  ps[0].lineto(ex, ey);
  cl.add_path(ps, river::path_type::subject, false);
  if (cl.paths_start.size() != 1) bad("ring dropped");
  V* v = cl.paths_start[0];
  bool horiz = b.p0.y == b.p1.y && b.p1.y == b.p2.y && b.p2.y == b.p3.y;
  if (v->pt != b.p0) bad("ring start");
  if (horiz) {
    if (b.p0 != b.p3 && (v->next->pt != b.p3)) bad("horizontal curve: end lost");
    return;
  }
  ld lo = 0;
  for (size_t i = 0; i <= in.size(); ++i) {
    ld hi = i < in.size() ? in[i] : 1;
    if (v->next_seg->get_type() != river::seg_type::cubicto) bad("piece is no cubic");
    auto s = (river::seg_cubicto*)v->next_seg;
    bezier_cubic p = s->get_cubic(v->pt);
    for (int k = 0; k <= 6; ++k) {
      ld u = k / 6.0L, w = lo + u * (hi - lo);
      if (absl(BX(p, u) - BX(b, w)) > 1e-4L * sz || absl(BY(p, u) - BY(b, w)) > 1e-4L * sz) bad("pieces do not retrace the curve");
    }
    if (v->next->pt != s->target) bad("vertex is not at the end of its piece");
    if (v->next->prev != v) bad("back link");
    v = v->next;
    lo = hi;
  }
  if (absl(v->pt.x - b.p3.x) > 1e-9L * sz || absl(v->pt.y - b.p3.y) > 1e-9L * sz) bad("end of the curve lost");
}
static void onmodel(const Model& m) {
  double a = get(m, "qa"), q = get(m, "qb"), c = get(m, "qc"), y0 = get(m, "y0");
  double y1 = y0 + c / 3, y2 = q / 6 - y0 + 2 * y1, y3 = a / 3 + 3 * y2 - 3 * y1 + y0;
  check(bezier_cubic{ vec2(0, y0), vec2(1, y1), vec2(2, y2), vec2(3, y3) });
  check(bezier_cubic{ vec2(get(m, "from.0"), get(m, "from.8")), vec2(get(m, "c1.0"), get(m, "c1.8")), vec2(get(m, "c2.0"), get(m, "c2.8")), vec2(get(m, "to.0"), get(m, "to.8")) });
}
static void one(Rng& r) { check(rnd(r)); }
#endif
#if PROP == 16
// random active edge lists: winding counts against prefix sums, contribution against the boolean of both sides
static bool inside(int f, int w) { return f == 0 ? (w & 1) : f == 1 ? w != 0 : f == 2 ? w > 0 : w < 0; }
static bool boolean(int op, bool s, bool c) { return op == 1 ? s && c : op == 2 ? s || c : op == 3 ? s && !c : op == 4 ? s != c : false; }
static void one(Rng& r) {
  vatti::clipper cl;
  int n = 1 + r.i(r.i(3) ? 6 : 14);
  int f = r.i(4), op = r.i(5);
  cl.fillrule_ = (river::fill_rule)f;
  cl.cliptype_ = (river::clip_type)op;
  std::vector<vatti::edge> es(n);
  vatti::local_minima lm[2] = { { nullptr, river::path_type::subject, false }, { nullptr, river::path_type::clip, false } };
  std::vector<int> q(n), d(n);
  std::vector<vatti::out_bound> bs(n);
  double x = 0;
  int bias = r.i(3);
  for (int i = 0; i < n; ++i) {
    q[i] = r.i(2); d[i] = bias == 0 ? (r.b() ? 1 : -1) : bias == 1 ? (r.i(4) ? 1 : -1) : (r.i(4) ? -1 : 1);
    es[i].local_min = &lm[q[i]]; es[i].wind_dx = d[i]; es[i].wind_cnt = r.i(9) - 4; es[i].wind_cnt2 = r.i(9) - 4;
    es[i].prev_in_ael = i ? &es[i - 1] : nullptr; es[i].next_in_ael = i + 1 < n ? &es[i + 1] : nullptr;
    if (r.i(2)) x += 1 + r.i(2);
    es[i].curr_x = x;
    if (r.i(2)) { es[i].bound = &bs[i]; bs[i].curr_edge = &es[i]; bs[i].stop_x = x; }
  }
  cl.ael_first = &es[0];
  auto check = [&](const char* how) {
    int w[2] = { 0, 0 };
    for (int i = 0; i < n; ++i) {
      int l = w[q[i]], rr = l + d[i], o = w[1 - q[i]];
      std::string at = std::string(how) + " fill " + std::to_string(f) + " op " + std::to_string(op) + " edges (polytype,direction):";
      for (int k = 0; k < n; ++k) at += " (" + std::to_string(q[k]) + "," + std::to_string(d[k]) + ")";
      at += "; edge " + std::to_string(i) + " has counts " + std::to_string(es[i].wind_cnt) + "," + std::to_string(es[i].wind_cnt2);
      if (f == 0) { if (std::abs(es[i].wind_cnt) != 1 || es[i].wind_cnt2 != (o & 1)) fail("winding counts wrong: " + at); }
      else if (es[i].wind_cnt != (std::abs(l) > std::abs(rr) ? l : rr) || es[i].wind_cnt2 != o) fail("winding counts wrong: " + at);
      bool a = inside(f, l), b = inside(f, rr), c = inside(f, o);
      bool want = (q[i] ? boolean(op, c, a) : boolean(op, a, c)) != (q[i] ? boolean(op, c, b) : boolean(op, b, c));
      if (cl.is_contributing(&es[i]) != want) fail("contribution wrong: " + at);
      w[q[i]] = rr;
    }
  };
  for (auto& e : es) cl.calc_windcnt(&e);
  check("calc_windcnt");
  // recalc: only the listed abscissas are stale
  std::vector<double> list;
  for (int i = 0; i < n; ++i) if (r.i(2)) { list.push_back(es[i].curr_x); if (r.i(3) == 0) list.push_back(es[i].curr_x); }
  if (r.b()) list.push_back(r.i(20) - 2 + 0.5);
  for (size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[r.i((int)i)]);
  for (auto& e : es) if (std::find(list.begin(), list.end(), e.curr_x) != list.end()) { e.wind_cnt = r.i(9) - 4; e.wind_cnt2 = r.i(9) - 4; }
  auto old = es;
  auto lst = list;
  for (double v : list) cl.insert_windcnt_change(v);
  cl.recalc_windcnt();
  check("recalc_windcnt");
  for (int i = 0; i < n; ++i) {
    bool in = std::find(lst.begin(), lst.end(), es[i].curr_x) != lst.end();
    if (es[i].curr_x != old[i].curr_x || es[i].wind_dx != old[i].wind_dx || es[i].next_in_ael != old[i].next_in_ael || es[i].prev_in_ael != old[i].prev_in_ael) fail("recalc_windcnt changed an edge");
    if (in ? es[i].bound != nullptr : es[i].bound != old[i].bound) fail("recalc_windcnt: bound of edge at a changed abscissa must be dropped, others kept");
    if (old[i].bound && bs[i].curr_edge != (in ? nullptr : &es[i])) fail("recalc_windcnt: bound still names its former edge");
  }
}
static void onmodel(const Model& m) { Rng r(99); for (int i = 0; i < 2000; ++i) one(r); }
#endif
#if PROP == 17
// random edge lists at one sweep height: order, insertion, removal, rearrangement
struct Ed { vatti::edge e; V top, other; std::unique_ptr<river::segment> seg; vatti::out_bound b; double cx; int kind; };
static vatti::local_minima lms[2] = { { nullptr, river::path_type::subject, false }, { nullptr, river::path_type::clip, false } };
static bezier_cubic edge_curve(const Ed& d) {     // bottom to top, whichever way the ring runs
  vec2 from = d.e.is_up() ? d.other.pt : d.top.pt;
  bezier_cubic c;
  if (d.kind) c = ((river::seg_cubicto*)d.seg.get())->get_cubic(from);
  else { vec2 t = d.seg->get_target(); c = bezier_cubic{ from, from * (2. / 3) + t * (1. / 3), from * (1. / 3) + t * (2. / 3), t }; }
  if (!d.e.is_up()) { std::swap(c.p0, c.p3); std::swap(c.p1, c.p2); }
  return c;
}
static ld x_at(const Ed& d, ld h) {
  bezier_cubic c = edge_curve(d);
  ld lo = 0, hi = 1;
  for (int i = 0; i < 40; ++i) { ld m = (lo + hi) / 2; (BY(c, m) < h ? lo : hi) = m; }
  return BX(c, (lo + hi) / 2);
}
// -1: a left of b just above the line and up to the lower top; 1: right; 0: same; 9: not clear
static int side_of(const Ed& a, const Ed& b) {
  ld lim = std::min(a.e.top.y, b.e.top.y);
  int s = 7;
  for (int i = 1; i < 8; ++i) {
    ld h = lim * i / 8, p = x_at(a, h), q = x_at(b, h);
    int k = absl(p - q) < 1e-3L ? 0 : p < q ? -1 : 1;
    if (s == 7) s = k; else if (s != k) return 9;
  }
  return s;
}
static std::map<std::pair<const Ed*, const Ed*>, int> sides;
static int side(const Ed& a, const Ed& b) {
  auto k = std::make_pair(&a, &b);
  auto f = sides.find(k);
  return f != sides.end() ? f->second : sides[k] = side_of(a, b);
}
static std::string show(const Ed& d) {
  return std::string(d.e.is_up() ? "up" : "down") + " polytype " + std::to_string((int)d.e.local_min->polytype) + " at " + str(d.cx) + " " + show(edge_curve(d));
}
static void make(Rng& r, Ed& d, double cx, const Ed* like) {
  d.cx = cx;
  d.e = vatti::edge();
  d.b = vatti::out_bound();
  d.e.wind_dx = r.b() ? 1 : -1;
  d.e.local_min = &lms[r.i(2)];
  d.kind = r.i(2);
  vec2 bot(cx, 0), top(cx + r.i(21) - 10, 4 * (1 + r.i(4))), c1(cx + r.i(21) - 10, r.i(2)), c2(top.x + r.i(21) - 10, top.y - r.i(2));
  if (like && like->cx == cx && r.i(3) == 0) { auto c = edge_curve(*like); d.kind = like->kind; c1 = c.p1; c2 = c.p2; top = c.p3; }
  bool up = d.e.is_up();
  d.top = V(); d.other = V();
  d.top.pt = top; d.other.pt = bot;
  vec2 t = up ? top : bot;
  if (!up) std::swap(c1, c2);
  if (d.kind) d.seg.reset(new river::seg_cubicto(c1, c2, t)); else d.seg.reset(new river::seg_lineto(t));
  V* a = up ? &d.other : &d.top, *b = up ? &d.top : &d.other;
  a->next = b; b->prev = a; a->prev = b; b->next = a; a->next_seg = d.seg.get(); b->next_seg = d.seg.get();
  d.e.vertex_top = &d.top; d.e.bot = bot; d.e.top = top; d.e.curr_x = cx;
}
static void one(Rng& r) {
  vatti::clipper cl;
  int n = 1 + r.i(8);
  std::vector<Ed> es(n);
  sides.clear();
  double x = r.i(5) - 2;
  for (int i = 0; i < n; ++i) { if (r.i(2)) x += r.i(3); make(r, es[i], x, i ? &es[r.i(i)] : nullptr); }
  std::string all; for (auto& d : es) all += "\n  " + show(d);
  auto goes = [&](const Ed& a, const Ed& b) {   // 1 yes, 0 no, -1 unclear
    if (a.cx != b.cx) return b.cx > a.cx ? 1 : 0;
    int s = side(a, b);
    return s == 9 ? -1 : s == -1 ? 1 : s == 1 ? 0 : a.e.local_min->polytype < b.e.local_min->polytype ? 1 : 0;
  };
  bool clear = true;
  for (auto& a : es) for (auto& b : es) if (&a != &b) {
    int w = goes(a, b);
    if (w < 0) { clear = false; continue; }
    if (a.cx == b.cx && side(a, b) == 0 && (a.kind || b.kind)) {    // coinciding curves: equal only if stored alike
      if (a.e.wind_dx != b.e.wind_dx || a.kind != b.kind) { clear = false; continue; }
    }
    if (cl.is_valid_ael_order(&a.e, &b.e) != (w == 1)) fail(std::string("order: resident ") + show(a) + " newcomer " + show(b) + " should " + (w ? "" : "not ") + "go left of it");
  }
  if (!clear) return;
  std::vector<int> perm(n), in;
  for (int i = 0; i < n; ++i) perm[i] = i;
  for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.i(i)]);
  auto idx = [&](vatti::edge* e) { for (int i = 0; i < n; ++i) if (&es[i].e == e) return i; return -1; };
  auto list = [&](const char* how, size_t want) {
    std::vector<int> v; vatti::edge* p = nullptr;
    for (auto e = cl.ael_first; e; p = e, e = e->next_in_ael) {
      if (e->prev_in_ael != p) fail(std::string(how) + ": back link broken" + all);
      v.push_back(idx(e));
      if (v.size() > want) fail(std::string(how) + ": too many edges in the list" + all);
    }
    if (v.size() != want) fail(std::string(how) + ": edges lost from the list" + all);
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) {
      const Ed &a = es[v[i]], &b = es[v[j]];
      if (a.cx > b.cx || (a.cx == b.cx && side(a, b) == 1)) fail(std::string(how) + ": edges out of order" + all);
      if (a.cx == b.cx && side(a, b) == 0 && a.e.local_min->polytype > b.e.local_min->polytype) fail(std::string(how) + ": clip before subject on coinciding edges" + all);
    }
    return v;
  };
  for (int i : perm) {
    // sometimes right of a given edge, as the right edge of a minimum is
    int l = -1;
    if (!in.empty() && r.i(2)) { l = in[r.i((int)in.size())]; if (goes(es[l], es[i]) != 1) l = -1; }
    if (l >= 0) cl.insert_into_ael(&es[l].e, &es[i].e); else cl.insert_into_ael(&es[i].e);
    in.push_back(i);
    auto v = list("insert_into_ael", in.size());
    if (l >= 0 && std::find(v.begin(), v.end(), l) > std::find(v.begin(), v.end(), i)) fail("insert_into_ael: not right of the given edge" + all);
  }
  auto before = list("insert_into_ael", n);
  // rearrangement of the edges at listed abscissas
  std::vector<double> lst;
  for (auto& d : es) { if (r.i(2)) lst.push_back(d.cx); if (r.i(2)) { d.e.bound = &d.b; d.b.curr_edge = &d.e; } }
  if (r.b()) lst.push_back(r.i(12) - 2.5);
  for (size_t i = lst.size(); i > 1; --i) std::swap(lst[i - 1], lst[r.i((int)i)]);
  auto isl = [&](double v) { return std::find(lst.begin(), lst.end(), v) != lst.end(); };
  if (r.i(2)) {     // stale order at a listed abscissa
    for (size_t k = 0; k + 1 < before.size(); ++k) {
      auto a = &es[before[k]].e, b = &es[before[k + 1]].e;
      if (es[before[k]].cx == es[before[k + 1]].cx && isl(es[before[k]].cx)) {
        auto p = a->prev_in_ael, q = b->next_in_ael;
        b->prev_in_ael = p; b->next_in_ael = a; a->prev_in_ael = b; a->next_in_ael = q;
        if (p) p->next_in_ael = b; else cl.ael_first = b;
        if (q) q->prev_in_ael = a;
        break;
      }
    }
  }
  std::vector<vatti::out_bound*> ob;
  for (auto& d : es) ob.push_back(d.e.bound);
  for (double v : lst) cl.insert_windcnt_change(v);
  auto ll = lst;
  cl.resort_ael(0);
  auto after = list("resort_ael", n);
  for (int i = 0; i < n; ++i) {
    if (es[i].e.bound != (isl(es[i].cx) ? nullptr : ob[i])) fail("resort_ael: bound of edge " + show(es[i]) + all);
    if (ob[i] && ob[i]->curr_edge != (isl(es[i].cx) ? nullptr : &es[i].e)) fail("resort_ael: bound names the wrong edge" + all);
    es[i].e.bound = ob[i]; if (ob[i]) ob[i]->curr_edge = &es[i].e;
  }
  std::vector<int> kb, ka;
  for (int i : before) if (!isl(es[i].cx)) kb.push_back(i);
  for (int i : after) if (!isl(es[i].cx)) ka.push_back(i);
  if (ka != kb) fail("resort_ael: edges away from the listed abscissas were moved" + all);
  // removal
  size_t left = n;
  for (int i : perm) {
    auto cur = list("before removal", left);
    auto at = std::find(cur.begin(), cur.end(), i);
    vatti::edge* nx = at + 1 == cur.end() ? nullptr : &es[at[1]].e;
    auto b = es[i].e.bound;
    switch (r.i(3)) {
    case 0: cl.take_from_ael(&es[i].e); if (es[i].e.prev_in_ael || es[i].e.next_in_ael) fail("take_from_ael: the edge taken still names neighbours" + all); break;
    case 1: if (cl.delete_active_edge(&es[i].e) != nx) fail("delete_active_edge: wrong edge returned" + all); break;
    default:
      if (cl.do_maxima(&es[i].e) != nx) fail("do_maxima: wrong edge returned" + all);
      if (es[i].e.bound || (b && b->curr_edge)) fail("do_maxima: bound kept" + all);
    }
    --left;
    auto now = list("after removal", left);
    cur.erase(at);
    if (now != cur) fail("removal changed the order of the rest" + all);
  }
}
static void onmodel(const Model& m) { Rng r(99); for (int i = 0; i < 2000; ++i) one(r); }
#endif
#if PROP == 18
// the schedule of heights and the minima started at each
static std::string show(const std::vector<double>& v) { std::string s; for (double d : v) s += " " + str(d); return s; }
static void heights(Rng& r) {
  vatti::clipper cl;
  double old = r.i(3) - 1;
  std::vector<double> v; int n = r.i(7);
  for (int i = 0; i < n; ++i) v.push_back(old + r.i(4));
  for (double d : v) cl.insert_scanline(d);
  std::sort(v.begin(), v.end());
  std::string in = "pop_scanline after" + str(old) + " with heights" + show(v);
  double cur = old; size_t more = r.i(3);
  for (int step = 0; step < 20; ++step) {
    double want = 0; bool any = false;
    for (double d : v) if (d != cur && !any) { want = d; any = true; }
    double got = r.b() ? cur : -77; bool same = got == cur;
    bool ok = same ? cl.pop_scanline(cur, cur) : cl.pop_scanline(cur, got);
    if (same) got = cur;
    if (ok != any) fail(in + (any ? ": ends early" : ": reports a height when none is left"));
    if (!any) { if (!cl.scanline_list.empty()) fail(in + ": ended with heights left"); return; }
    if (got != want) fail(in + ": next height " + str(got) + " expected " + str(want));
    cur = got;
    std::vector<double> rest; for (double d : v) if (d > cur) rest.push_back(d);
    v = rest;
    if (more) { --more; double d = cur + r.i(3); cl.insert_scanline(d); v.push_back(d); std::sort(v.begin(), v.end()); in += " +" + str(d); }
  }
}
// rings with level runs; every ring strictly closed, minima found by hand
struct Ring { std::vector<V> v; std::vector<river::seg_lineto> segs; };
static void minima(Rng& r) {
  vatti::clipper cl;
  int nr = 1 + r.i(3);
  std::vector<Ring> rings(nr);
  std::vector<vatti::local_minima*> all;
  std::string in;
  for (auto& g : rings) {
    int n = 3 + r.i(5);
    g.v.resize(n); g.segs.reserve(n);
    in += "\n  ring";
    bool flat = true;
    do {
      flat = true;
      for (int i = 0; i < n; ++i) { g.v[i].pt = vec2(r.i(7), r.i(3)); if (g.v[i].pt.y != g.v[0].pt.y) flat = false; }
    } while (flat);
    for (int i = 0; i < n; ++i) {
      in += " " + str(g.v[i].pt.x) + "," + str(g.v[i].pt.y);
      g.v[i].next = &g.v[(i + 1) % n]; g.v[i].prev = &g.v[(i + n - 1) % n];
      g.segs.emplace_back(g.v[(i + 1) % n].pt); g.v[i].next_seg = &g.segs.back();
    }
    for (int i = 0; i < n; ++i) {      // one vertex of every lowest run
      V* a = &g.v[i]; if (a->prev->pt.y <= a->pt.y) continue;
      V* b = a; while (b->next->pt.y == a->pt.y) b = b->next;
      if (b->next->pt.y < a->pt.y) continue;
      int k = r.i(3); V* m = a; while (k-- && m != b) m = m->next;
      cl.add_local_min(m, r.b() ? river::path_type::subject : river::path_type::clip, false);
    }
  }
  all = cl.local_minima_list;
  for (size_t i = all.size(); i > 1; --i) std::swap(cl.local_minima_list[i - 1], cl.local_minima_list[r.i((int)i)]);
  cl.ael_first = (vatti::edge*)8; cl.obl_first = (vatti::out_bound*)8; cl.output_list.push_back(nullptr);
  cl.reset();
  auto l = cl.local_minima_list;
  std::vector<double> hs;
  if (l.size() != all.size()) fail("reset changed the number of minima" + in);
  for (size_t i = 0; i < l.size(); ++i) {
    if (std::count(l.begin(), l.end(), all[i]) != 1) fail("reset lost a minimum" + in);
    if (i && l[i - 1]->vert->pt.y > l[i]->vert->pt.y) fail("minima out of order" + in);
    hs.push_back(all[i]->vert->pt.y);
  }
  if (cl.ael_first || cl.obl_first || !cl.output_list.empty() || (!l.empty() && cl.cur_locmin_it != cl.local_minima_list.begin())) fail("reset leaves something of an earlier run" + in);
  auto q = cl.scanline_list; std::vector<double> got;
  while (!q.empty()) { if (got.empty() || got.back() != q.top()) got.push_back(q.top()); q.pop(); }
  std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
  if (got != hs) fail("reset schedules" + show(got) + " expected" + show(hs) + in);
  // the first height with a minimum
  double y = -1; if (!cl.pop_scanline(y, y)) fail("no height" + in);
  size_t due = 0; while (due < l.size() && l[due]->vert->pt.y == y) ++due;
  vatti::local_minima* o = nullptr;
  if (cl.pop_local_minima(y + 0.5, &o) || cl.pop_local_minima(y - 0.5, &o) || cl.cur_locmin_it != cl.local_minima_list.begin()) fail("a minimum handed out at the wrong height" + in);
  auto q0 = cl.scanline_list; size_t w0 = r.i(3); for (size_t i = 0; i < w0; ++i) cl.insert_windcnt_change(77 + i);
  cl.insert_local_minima_to_ael(y);
  if (cl.cur_locmin_it != cl.local_minima_list.begin() + due) fail("minima left behind or started early" + in);
  auto q1 = cl.scanline_list; std::vector<double> sched; while (!q1.empty()) { sched.push_back(q1.top()); q1.pop(); }
  while (!q0.empty()) { if (!std::count(sched.begin(), sched.end(), q0.top())) fail("a scheduled height was lost" + in); q0.pop(); }
  for (size_t i = 0; i < w0; ++i) if (cl.windcnt_change_list.size() < w0 || cl.windcnt_change_list[i] != 77 + i) fail("a listed abscissa was lost" + in);
  std::map<vatti::local_minima*, std::vector<vatti::edge*>> by;
  vatti::edge* pe = nullptr; size_t cnt = 0;
  for (auto e = cl.ael_first; e; pe = e, e = e->next_in_ael) {
    by[e->local_min].push_back(e);
    if (++cnt > 2 * due || e->prev_in_ael != pe || (pe && pe->curr_x > e->curr_x)) fail("broken edge list" + in);
  }
  if (cnt != 2 * due) fail("not two edges for every minimum" + in);
  for (size_t i = 0; i < due; ++i) {
    auto& es = by[l[i]];
    if (es.size() != 2 || es[0]->wind_dx * es[1]->wind_dx != -1) fail("not two opposite edges for a minimum" + in);
    for (auto e : es) {
      V* v = l[i]->vert; bool back = e->wind_dx == 1;
      V* t = back ? v->prev : v->next;
      auto step = [&](V* x) { return e->is_up() ? x->next : x->prev; };
      V* t2 = step(v);
      (void)t;
      std::vector<double> xs{ v->pt.x };
      while (t2->pt.y == y) { v = t2; t2 = step(v); xs.push_back(v->pt.x); }
      if (e->vertex_top != t2 || e->bot != v->pt || e->top != t2->pt || e->curr_x != v->pt.x || e->bound) fail("edge of a minimum wrongly set up" + in);
      if (!std::count(sched.begin(), sched.end(), e->top.y)) fail("top of an edge not scheduled" + in);
      if (!std::count(cl.windcnt_change_list.begin(), cl.windcnt_change_list.end(), e->curr_x)) fail("edge not listed for counting" + in);
    }
  }
}
static void one(Rng& r) { if (r.b()) heights(r); else minima(r); }
static void onmodel(const Model& m) { Rng r(99); for (int i = 0; i < 2000; ++i) one(r); }
#endif
#if PROP == 13
// rings read in: closed, same points and segments, minima and maxima found by brute force
static void one(Rng& r) {
  vatti::clipper cl;
  river::path p;
  struct Pt { vec2 pt; int kind; vec2 c1, c2; };      // kind of the piece leading here
  std::vector<std::vector<Pt>> rings;
  std::string in = "path";
  int nr = 1 + r.i(3); auto pt_ = r.b() ? river::path_type::subject : river::path_type::clip;
  int wide = 1 + r.i(4);
  vec2 last(0, 0);
  for (int k = 0; k < nr; ++k) {
    std::vector<Pt> v; vec2 a(r.i(5), r.i(wide));
    p.moveto(a); v.push_back({ a, 0 }); in += " m " + str(a.x) + " " + str(a.y); last = a;
    for (int n = r.i(8); n-- > 0; ) {
      vec2 b = r.i(4) == 0 ? v[r.i((int)v.size())].pt : vec2(r.i(5), r.i(wide));
      if (r.i(3)) { p.lineto(b); in += " l " + str(b.x) + " " + str(b.y); if (b != last) v.push_back({ b, 1 }); }
      else {
        vec2 c1(r.i(5), last.y), c2(r.i(5), b.y);
        p.cubicto(c1, c2, b); in += " c " + str(c1.x) + " " + str(c1.y) + " " + str(c2.x) + " " + str(c2.y) + " " + str(b.x) + " " + str(b.y);
        if (last.y == b.y) { if (b != last) v.push_back({ b, 1 }); }
        else v.push_back({ b, 3, c1, c2 });
      }
      last = b;
    }
    // leave one segment of several rings to be curved back
    if (r.i(3) == 0 && v.size() > 1 && v[0].pt != last) { p.lineto(v[0].pt); in += " back"; v.push_back({ v[0].pt, 1 }); last = v[0].pt; }
    rings.push_back(v);
  }
  if (r.b()) { river::paths ps; ps.push_back(std::move(p)); cl.add_path(ps, pt_, false); if (ps[0].data.size() < 2) return; }
  else cl.add_path(vatti::read_path, &p, pt_, false);
  size_t ri = 0, mi = 0;
  for (auto& v : rings) {
    if (v.size() < 2) continue;
    Pt closing{ v[0].pt, 1 };
    if (v.back().pt == v[0].pt) { closing = v.back(); v.pop_back(); }
    size_t n = v.size(); if (n < 2) continue;
    bool flat = true; for (auto& q : v) if (q.pt.y != v[0].pt.y) flat = false;
    if (flat) continue;
    if (ri >= cl.paths_start.size()) fail("a ring was lost: " + in);
    V* w = cl.paths_start[ri++];
    for (size_t i = 0; i < n; ++i, w = w->next) {
      const Pt& to = i + 1 < n ? v[i + 1] : closing;
      std::string at = " at vertex " + std::to_string(i) + " of ring " + std::to_string(ri) + ": " + in;
      if (w->pt != v[i].pt) fail("wrong vertex" + at);
      if (!w->next || w->next->prev != w || !w->next_seg) fail("ring not linked" + at);
      if (w->next_seg->get_target() != to.pt) fail("segment leads elsewhere" + at);
      if (to.kind == 3) {
        if (w->next_seg->get_type() != river::seg_type::cubicto) fail("curve lost" + at);
        auto c = (river::seg_cubicto*)w->next_seg; if (c->ctrl1 != to.c1 || c->ctrl2 != to.c2) fail("curve changed" + at);
      }
      else if (w->next_seg->get_type() != river::seg_type::lineto) fail("line lost" + at);
      // brute force: direction of arrival past level pieces
      size_t j = i; while (v[(j + n - 1) % n].pt.y == v[i].pt.y) j = (j + n - 1) % n;
      bool down = v[(j + n - 1) % n].pt.y > v[i].pt.y;
      double d = v[(i + 1) % n].pt.y - v[i].pt.y;
      bool mx = !down && d < 0, mn = down && d > 0;
      if (((w->flags & vatti::vertex_flags::local_max) != vatti::vertex_flags::none) != mx) fail("local maximum wrong" + at);
      if (((w->flags & vatti::vertex_flags::local_min) != vatti::vertex_flags::none) != mn) fail("local minimum mark wrong" + at);
      size_t cnt = 0;
      for (auto l : cl.local_minima_list) if (l->vert == w) { ++cnt; if (l->polytype != pt_) fail("minimum of the wrong kind" + at); }
      if (cnt != (mn ? 1u : 0u)) fail("local minimum entered wrongly" + at);
      if (mn) ++mi;
    }
    if (w != cl.paths_start[ri - 1]) fail("ring not closed: " + in);
  }
  if (ri != cl.paths_start.size()) fail("too many rings: " + in);
  if (mi != cl.local_minima_list.size()) fail("too many minima: " + in);
}
static void onmodel(const Model& m) { Rng r(99); for (int i = 0; i < 2000; ++i) one(r); }
#endif
#if PROP == 11
struct El { int k; double v[6]; };
struct Got { const void* self; std::vector<El> els; std::vector<vec2> from; };
static void cbm(path_moveto_func_para) { auto g = (Got*)user; g->els.push_back({ 0, { to.x, to.y } }); g->from.push_back(from); }
static void cbl(path_lineto_func_para) { auto g = (Got*)user; g->els.push_back({ 1, { to.x, to.y } }); g->from.push_back(from); }
static void cbc(path_cubicto_func_para) { auto g = (Got*)user; g->els.push_back({ 3, { ctrl1.x, ctrl1.y, ctrl2.x, ctrl2.y, to.x, to.y } }); g->from.push_back(from); }
static std::string show(const std::vector<El>& v) {
  std::string s;
  for (auto& e : v) { s += e.k == 0 ? " m" : e.k == 1 ? " l" : " c"; for (int i = 0; i < (e.k == 3 ? 6 : 2); ++i) s += " " + str(e.v[i]); }
  return s;
}
static bool eq(const El& a, const El& b) { if (a.k != b.k) return false; for (int i = 0; i < (a.k == 3 ? 6 : 2); ++i) if (a.v[i] != b.v[i]) return false; return true; }
static void traversed(const river::path& p, const std::vector<El>& want, int mask) {
  Got g; g.self = &g;
  river::path_traverse_funcs f;
  if (mask & 1) f.move_to = cbm;
  if (mask & 2) f.line_to = cbl;
  if (mask & 4) f.cubic_to = cbc;
  p.traverse(f, &g);
  std::string nm = "path" + show(want) + " with callbacks " + std::to_string(mask);
  size_t j = 0; vec2 last(0, 0);
  for (auto& e : want) {
    if (mask & (e.k == 0 ? 1 : e.k == 1 ? 2 : 4)) {
      if (j >= g.els.size()) fail(nm + ": element not reported");
      if (!eq(g.els[j], e)) fail(nm + ": reported" + show({ g.els[j] }) + " expected" + show({ e }));
      if (g.from[j].x != last.x || g.from[j].y != last.y) fail(nm + ": element" + show({ e }) + " from " + str(g.from[j].x) + "," + str(g.from[j].y) + " expected " + str(last.x) + "," + str(last.y));
      ++j;
    }
    int o = e.k == 3 ? 4 : 0; last = vec2(e.v[o], e.v[o + 1]);
  }
  if (j != g.els.size()) fail(nm + ": too many elements reported");
}
static void onmodel(const Model&) {}
static void one(Rng& r) {
  Gen g(r);
  int n = r.i(8), mask = r.i(8);
  river::path p; std::vector<El> want;
  river::paths out; std::vector<std::vector<El>> wout;
  for (int i = 0; i < n; ++i) {
    El e{ r.i(4) == 0 ? 0 : r.i(2) ? 1 : 3, { g.c(), g.c(), g.c(), g.c(), g.c(), g.c() } };
    if (r.i(6) == 0 && !want.empty()) { auto& w = want.back(); int o = w.k == 3 ? 4 : 0, q = e.k == 3 ? 4 : 0; e.v[q] = w.v[o]; e.v[q + 1] = w.v[o + 1]; }
    bool byp = r.i(2);
    if (e.k == 0) { if (byp) p.moveto(vec2(e.v[0], e.v[1])); else p.moveto(e.v[0], e.v[1]); }
    else if (e.k == 1) { if (byp) p.lineto(vec2(e.v[0], e.v[1])); else p.lineto(e.v[0], e.v[1]); }
    else p.cubicto(vec2(e.v[0], e.v[1]), vec2(e.v[2], e.v[3]), vec2(e.v[4], e.v[5]));
    want.push_back(e);
    if (e.k == 0) { vatti::write_moveto(vec2(9, 9), vec2(e.v[0], e.v[1]), &out); wout.push_back({ e }); }
    else if (!out.empty()) {
      if (e.k == 1) vatti::write_lineto(vec2(9, 9), vec2(e.v[0], e.v[1]), &out);
      else vatti::write_cubicto(vec2(9, 9), vec2(e.v[0], e.v[1]), vec2(e.v[2], e.v[3]), vec2(e.v[4], e.v[5]), &out);
      wout.back().push_back(e);
    }
  }
  traversed(p, want, mask);
  traversed(p, want, 7);
  river::path q(std::move(p));
  traversed(q, want, 7);
  traversed(p, {}, 7);
  if (out.size() != wout.size()) fail("output has " + std::to_string(out.size()) + " paths, expected " + std::to_string(wout.size()) + " for" + show(want));
  for (size_t i = 0; i < out.size(); ++i) traversed(out[i], wout[i], 7);
  Got g1; river::path_traverse_funcs f; f.move_to = cbm; f.line_to = cbl; f.cubic_to = cbc;
  vatti::read_path(&q, f, &g1);
  if (g1.els.size() != want.size()) fail("read_path reports " + std::to_string(g1.els.size()) + " elements of" + show(want));
}
#endif
#if PROP == 19
// output chains: opening, going on, copying pieces, joining, closing pairs, emission
struct Pc { int k; vec2 c1, c2, t; };
struct Ct { vec2 origin; std::vector<Pc> up, down; bool complete = false, gone = false; vatti::out_polygon* o = nullptr; };
static bool same(const Pc& a, const Pc& b) { return a.k == b.k && a.t == b.t && (!a.k || (a.c1 == b.c1 && a.c2 == b.c2)); }
static Pc read(river::segment* s) {
  Pc p{ 0, vec2(0, 0), vec2(0, 0), s->get_target() };
  if (s->get_type() == river::seg_type::cubicto) { auto c = (river::seg_cubicto*)s; p.k = 1; p.c1 = c->ctrl1; p.c2 = c->ctrl2; p.t = c->target; }
  return p;
}
static std::string show(const Pc& p) {
  auto v = [](const vec2& q) { return "(" + str(q.x) + "," + str(q.y) + ")"; };
  return p.k ? "C" + v(p.c1) + v(p.c2) + v(p.t) : "L" + v(p.t);
}
struct Em { int k; vec2 from; Pc p; };
static void em(vec2 from, Pc p, int k, void* u) { ((std::vector<Em>*)u)->push_back(Em{ k, from, p }); }
static void onmodel(const Model&) {}
static void one(Rng& r) {
  vatti::clipper cl;
  Gen g(r);
  std::string log;
  cl.fillrule_ = (river::fill_rule)r.i(4);
  cl.obl_first = nullptr;
  int m = 1 + r.i(4);
  std::list<vatti::edge> es;
  std::vector<Ct> cs;
  auto edge_at = [&](double x, double y) { es.emplace_back(); auto* e = &es.back(); e->bot = vec2(x, y); e->curr_x = x; e->wind_dx = r.b() ? 1 : -1; return e; };
  std::vector<vatti::out_bound*> bs;
  double y = 0;
  for (int i = 0; i < m; ++i) {
    double x = g.c(), x2 = r.b() ? x : g.c();
    auto a = edge_at(x, y), b = edge_at(x2, r.i(4) ? y : y - 1);
    bool left = r.b();
    log += "\n  open (" + str(a->bot.x) + "," + str(a->bot.y) + ") (" + str(b->bot.x) + "," + str(b->bot.y) + ") left " + std::to_string(left) + " fill " + std::to_string((int)cl.fillrule_);
    cl.new_output(a, b, left);
    auto bad = [&](const char* w) { fail(std::string("new_output: ") + w + log); };
    if ((int)cl.output_list.size() != i + 1) bad("not one more contour");
    auto o = cl.output_list.back();
    if (!a->bound || !b->bound || a->bound == b->bound) bad("ends missing");
    bool up = (cl.fillrule_ == river::fill_rule::negative) == left;
    if (a->bound->is_up() != up || b->bound->is_up() == up) bad("direction of the ends");
    auto ub = up ? a : b, db = up ? b : a;
    if (o->up_bound != ub->bound || o->down_bound != db->bound) bad("the contour does not name its ends");
    for (auto e : { a, b }) if (e->bound->owner != o || e->bound->curr_edge != e || e->bound->stop_x != e->curr_x) bad("an end does not follow its edge");
    if (o->idx != (size_t)i || o->is_complete) bad("number or state of the contour");
    Ct c; c.o = o; c.origin = db->bot;
    if (ub->bot != db->bot) c.up.push_back(Pc{ 0, vec2(0, 0), vec2(0, 0), ub->bot });
    cs.push_back(c);
    bs.push_back(a->bound); bs.push_back(b->bound);
  }
  auto ct = [&](vatti::out_polygon* o) -> Ct& { for (auto& c : cs) if (c.o == o) return c; fail("an end belongs to no contour" + log); return cs[0]; };
  auto agree = [&](const char* w) {
    for (auto& c : cs) {
      for (int k = 0; k < 2; ++k) {
        auto& v = k ? c.o->down_path : c.o->up_path; auto& q = k ? c.down : c.up;
        bool ok = v.size() == q.size();
        for (size_t i = 0; ok && i < v.size(); ++i) ok = same(read(v[i]), q[i]);
        if (!ok) {
          std::string t; for (auto s : v) t += " " + show(read(s)); t += "\n expected "; for (auto& s : q) t += " " + show(s);
          fail(std::string(w) + ": contour " + std::to_string(c.o->idx) + (k ? " coming down has" : " going up has") + t + log);
        }
      }
      if (c.o->is_complete != (c.complete || c.gone)) fail(std::string(w) + ": contour " + std::to_string(c.o->idx) + " complete: " + std::to_string(c.o->is_complete) + log);
      if (!c.gone && c.o->origin != c.origin) fail(std::string(w) + ": origin moved" + log);
    }
  };
  agree("new_output");
  auto list = [&](bool pairs) {     // the list of open ends
    std::vector<vatti::out_bound*> v = bs;
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.i((int)i)]);
    if (pairs) for (size_t i = 0; i + 1 < v.size(); i += 2) if (v[i]->is_up() == v[i + 1]->is_up())
      for (size_t j = i + 2; j < v.size(); ++j) if (v[j]->is_up() != v[i]->is_up()) { std::swap(v[i + 1], v[j]); break; }
    cl.obl_first = v.empty() ? nullptr : v[0];
    for (size_t i = 0; i < v.size(); ++i) { v[i]->prev_in_obl = i ? v[i - 1] : nullptr; v[i]->next_in_obl = i + 1 < v.size() ? v[i + 1] : nullptr; }
    return v;
  };
  auto join = [&](vatti::out_bound* a, vatti::out_bound* b) {   // in the model
    auto f = a->is_up() ? a : b, s = a->is_up() ? b : a;
    Ct &F = ct(f->owner), &S = ct(s->owner);
    bool gap = f->stop_x != s->stop_x; Pc ln{ 0, vec2(0, 0), vec2(0, 0), vec2(s->stop_x, y) };
    bs.erase(std::remove_if(bs.begin(), bs.end(), [&](vatti::out_bound* q) { return q == a || q == b; }), bs.end());
    if (&F == &S) { F.complete = true; if (gap) { if (a == f) F.up.push_back(ln); else F.down.push_back(ln); } return; }
    std::vector<Pc> mid; if (gap) mid.push_back(ln);
    if (F.o->idx < S.o->idx) {
      F.up.insert(F.up.end(), mid.begin(), mid.end());
      F.up.insert(F.up.end(), S.down.rbegin(), S.down.rend());
      F.up.insert(F.up.end(), S.up.begin(), S.up.end());
      S.up.clear(); S.down.clear(); S.gone = true;
    } else {
      S.down.insert(S.down.end(), mid.begin(), mid.end());
      S.down.insert(S.down.end(), F.up.rbegin(), F.up.rend());
      S.down.insert(S.down.end(), F.down.begin(), F.down.end());
      F.up.clear(); F.down.clear(); F.gone = true;
    }
  };
  auto ends = [&](const char* w) {
    for (auto b : bs) {
      Ct& c = ct(b->owner);
      if (c.gone || c.complete) fail(std::string(w) + ": an open end belongs to a closed contour" + log);
      if ((b->is_up() ? b->owner->up_bound : b->owner->down_bound) != b) fail(std::string(w) + ": the contour does not name its open end" + log);
    }
  };
  auto listed = [&](const char* w, const std::vector<vatti::out_bound*>& was) {
    vatti::out_bound* p = nullptr; size_t k = 0;
    for (auto b = cl.obl_first; b; p = b, b = b->next_in_obl) {
      if (b->prev_in_obl != p) fail(std::string(w) + ": list of ends broken" + log);
      while (k < was.size() && was[k] != b) { if (std::find(bs.begin(), bs.end(), was[k]) != bs.end()) fail(std::string(w) + ": an open end left the list" + log); ++k; }
      if (k == was.size() || std::find(bs.begin(), bs.end(), b) == bs.end()) fail(std::string(w) + ": a closed end stays in the list" + log);
      ++k;
    }
    for (; k < was.size(); ++k) if (std::find(bs.begin(), bs.end(), was[k]) != bs.end()) fail(std::string(w) + ": an open end left the list" + log);
  };
  for (int step = 0; step < 12 && !bs.empty(); ++step) {
    y += 1;
    auto b = bs[r.i((int)bs.size())];
    switch (r.i(4)) {
    case 0: {           // a piece along the edge, copied as the sweep does
      bool eup = r.b(), rev = r.b(), curve = r.b();
      V top = V(), oth = V(); top.pt = vec2(g.c(), y); oth.pt = vec2(g.c(), y - 1);
      vec2 c1(g.c(), y - .6), c2(g.c(), y - .3), t = eup ? top.pt : oth.pt;
      river::seg_lineto sl(t); river::seg_cubicto sc(c1, c2, t);
      river::segment* sg = curve ? (river::segment*)&sc : (river::segment*)&sl; river::seg_lineto other(vec2(77, 77));
      V *p = eup ? &oth : &top, *q = eup ? &top : &oth;
      p->next = p->prev = q; q->next = q->prev = p; p->next_seg = sg; q->next_seg = &other;
      vatti::edge e; e.vertex_top = &top; e.top = top.pt; e.bot = oth.pt; e.wind_dx = eup ? -1 : 1; e.curr_x = top.pt.x;
      auto n = cl.copy_seg(&e, rev);
      Pc want = rev ? Pc{ curve, c2, c1, p->pt } : Pc{ curve, c1, c2, t };
      if (n == sg || !same(read(n), want)) fail("copy_seg " + std::string(eup ? "up" : "down") + (rev ? " backwards" : "") + ": got " + show(read(n)) + ", expected " + show(want));
      if (!same(read(sg), Pc{ curve, c1, c2, t })) fail("copy_seg changes the edge's own segment");
      Ct& c = ct(b->owner);
      (b->is_up() ? b->owner->up_path : b->owner->down_path).push_back(n); (b->is_up() ? c.up : c.down).push_back(read(n));
      b->stop_x = g.c();
      break;
    }
    case 1: {           // go on along another edge
      auto e = edge_at(r.b() ? b->stop_x : g.c(), y);
      log += "\n  go on at " + str(e->curr_x) + " from " + str(b->stop_x);
      Ct& c = ct(b->owner);
      if (e->curr_x != b->stop_x) (b->is_up() ? c.up : c.down).push_back(Pc{ 0, vec2(0, 0), vec2(0, 0), vec2(b->is_up() ? e->curr_x : b->stop_x, y) });
      cl.update_bound(b, e);
      if (b->curr_edge != e || e->bound != b) fail("update_bound: the end does not follow the edge" + log);
      agree("update_bound");
      break;
    }
    case 2: {           // two ends meet
      auto was = list(false);
      auto a = bs[r.i((int)bs.size())];
      for (auto q : bs) if (a->is_up() == b->is_up() || r.i(3) == 0) a = q;
      if (a->is_up() == b->is_up()) break;
      if (r.b()) a->stop_x = b->stop_x;
      for (auto q : bs) if (r.i(4) == 0 && q->curr_edge) { q->curr_edge->bound = nullptr; q->curr_edge = nullptr; }   // edges changed places
      log += "\n  join " + std::string(a->is_up() ? "up " : "down ") + str(a->stop_x) + " of " + std::to_string(a->owner->idx) + " with " + str(b->stop_x) + " of " + std::to_string(b->owner->idx);
      auto ea = a->curr_edge, eb = b->curr_edge;
      join(a, b);
      cl.join_output(a, b, y);
      if (a->curr_edge || b->curr_edge || (ea && ea->bound) || (eb && eb->bound)) fail("join_output: an edge keeps a closed end" + log);
      agree("join_output"); ends("join_output"); listed("join_output", was);
      break;
    }
    default: {          // neighbouring ends that stop at one abscissa are closed
      for (auto q : bs) if (r.i(2)) q->stop_x = r.i(2);
      auto was = list(true);
      bool ok = true;
      for (size_t i = 0; i + 1 < was.size(); i += 2) if (was[i]->is_up() == was[i + 1]->is_up()) ok = false;
      if (!ok) break;
      log += "\n  close:";
      for (auto q : was) log += " " + std::string(q->is_up() ? "up " : "down ") + str(q->stop_x) + " of " + std::to_string(q->owner->idx);
      cl.close_output(y);
      // the model follows in the same order; owners moved with the joins, so use the names kept by the model
      for (size_t i = 0; i + 1 < was.size(); i += 2) if (was[i]->stop_x == was[i + 1]->stop_x)
        bs.erase(std::remove_if(bs.begin(), bs.end(), [&](vatti::out_bound* q) { return q == was[i] || q == was[i + 1]; }), bs.end());
      listed("close_output", was); ends("close_output");
      for (auto& c : cs) {  // take over what the joins (checked on their own) made of the contours
        c.up.clear(); c.down.clear(); for (auto s : c.o->up_path) c.up.push_back(read(s)); for (auto s : c.o->down_path) c.down.push_back(read(s));
        bool open = c.o->up_bound && std::find(bs.begin(), bs.end(), c.o->up_bound) != bs.end();
        if (open == c.o->is_complete) fail("close_output: contour " + std::to_string(c.o->idx) + (open ? " is complete with an open end" : " is not complete without open ends") + log);
        c.complete = c.o->is_complete; c.gone = c.complete && c.up.empty() && c.down.empty();
      }
    }
    }
  }
  agree("output");
  std::vector<Em> got;
  river::path_traverse_funcs f;
  f.move_to = [](auto from, auto to, void* u) { em(from, Pc{ 0, vec2(0, 0), vec2(0, 0), to }, 0, u); };
  f.line_to = [](auto from, auto to, void* u) { em(from, Pc{ 0, vec2(0, 0), vec2(0, 0), to }, 1, u); };
  f.cubic_to = [](auto from, auto c1, auto c2, auto to, void* u) { em(from, Pc{ 1, c1, c2, to }, 3, u); };
  cl.build_output(f, &got);
  size_t k = 0;
  for (auto& c : cs) {
    if (!(c.complete || c.gone) || c.up.size() + c.down.size() == 0) continue;
    auto all = c.up; all.insert(all.end(), c.down.rbegin(), c.down.rend());
    if (k >= got.size() || got[k].k != 0 || got[k].p.t != c.origin) fail("build_output: contour " + std::to_string(c.o->idx) + " does not start at its origin" + log);
    ++k;
    vec2 last = c.origin;
    for (auto& q : all) {
      if (k >= got.size() || got[k].k != (q.k ? 3 : 1) || !same(got[k].p, q) || got[k].from != last) fail("build_output: expected " + show(q) + " as element " + std::to_string(k) + log);
      last = q.t; ++k;
    }
  }
  if (k != got.size()) fail("build_output: " + std::to_string(got.size()) + " elements, expected " + std::to_string(k) + log);
}
#endif
int main(int argc, char** argv) { return drive(argc, argv, onmodel, one); }
