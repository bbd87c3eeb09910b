// Outlines cut into convex facets; monotone chains cut into triangles and
// convex pieces.
#include <list>

#include "geo.h"

#include "walnut/convex_polygon_factory.h"
#include "walnut/monotone_triangulator.h"
#include "walnut/orienting_monotone_decomposer.h"
#include "walnut/point3.h"

using namespace vt;
using namespace walnut;

struct P2 { int x, y; };
static bool operator==(const P2& a, const P2& b) { return a.x == b.x && a.y == b.y; }
static long Turn2(const P2& a, const P2& b, const P2& c) {
  return long(b.x - a.x) * (c.y - a.y) - long(b.y - a.y) * (c.x - a.x);
}
static bool OnSeg(const P2& a, const P2& b, const P2& q) {
  return Turn2(a, b, q) == 0 && std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y);
}
static int Sg(long v) { return v < 0 ? -1 : v > 0; }
static bool Meet(const P2& a, const P2& b, const P2& c, const P2& d) {
  if (OnSeg(a, b, c) || OnSeg(a, b, d) || OnSeg(c, d, a) || OnSeg(c, d, b)) return true;
  return Sg(Turn2(a, b, c)) * Sg(Turn2(a, b, d)) < 0 && Sg(Turn2(c, d, a)) * Sg(Turn2(c, d, b)) < 0;
}
static bool Simple(const std::vector<P2>& v) {
  size_t n = v.size();
  if (n < 3) return false;
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) {
    const P2 &a = v[i], &b = v[(i + 1) % n], &c = v[j], &d = v[(j + 1) % n];
    if (a == b || c == d) return false;
    if (j == i + 1) { if (OnSeg(a, b, d) || OnSeg(c, d, a)) return false; if (n == 3) continue; }
    else if ((j + 1) % n == i) { if (OnSeg(a, b, c) || OnSeg(c, d, b)) return false; }
    else if (Meet(a, b, c, d)) return false;
  }
  return true;
}
static std::vector<P2> RandomPts(Rng& r, int n, int w) {
  std::vector<P2> v;
  for (int i = 0; i < n; ++i) v.push_back({r.range(0, w), r.range(0, w)});
  return v;
}
// untangles random points
static bool SimpleOutline(Rng& r, int n, int w, std::vector<P2>* out) {
  std::vector<P2> v = RandomPts(r, n, w);
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) if (v[i] == v[j]) return false;
  size_t m = v.size();
  for (int it = 0; it < 200; ++it) {
    bool any = false;
    for (size_t i = 0; i + 1 < m; ++i) for (size_t j = i + 2; j < m; ++j) {
      if (i == 0 && j == m - 1) continue;
      if (Meet(v[i], v[i + 1], v[j], v[(j + 1) % m])) { std::reverse(v.begin() + long(i) + 1, v.begin() + long(j) + 1); any = true; }
    }
    if (!any) break;
  }
  *out = v;
  return Simple(v);
}
// outer boundary of a set of cells; may touch itself in corners
static std::vector<P2> CellOutline(Rng& r) {
  int n = r.range(2, 4);
  std::set<std::pair<int, int>> cells;
  std::vector<std::pair<int, int>> todo{{0, 0}};
  cells.insert({0, 0});
  for (int k = r.range(1, n * n); k > 0; --k) {
    auto c = todo[size_t(r.range(0, int(todo.size()) - 1))];
    static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    int d = r.range(0, 3);
    std::pair<int, int> x{c.first + D[d][0], c.second + D[d][1]};
    if (cells.insert(x).second) todo.push_back(x);
  }
  // walk along the boundary keeping the inside left
  auto in = [&](int x, int y) { return cells.count({x, y}) != 0; };
  auto lo = *cells.begin();
  P2 s{lo.first, lo.second};
  // start at the lower left cell's lower side, going +x
  int x = s.x, y = s.y, dx = 1, dy = 0;
  std::vector<P2> v;
  bool right_first = r.chance(1, 2);
  do {
    v.push_back({x, y});
    x += dx; y += dy;
    // cells ahead left and ahead right
    auto cell = [&](int ax, int ay) { return in(ax, ay); };
    int lx, ly, rx, ry;
    if (dx == 1) { lx = x; ly = y; rx = x; ry = y - 1; }
    else if (dx == -1) { lx = x - 1; ly = y - 1; rx = x - 1; ry = y; }
    else if (dy == 1) { lx = x - 1; ly = y; rx = x; ry = y; }
    else { lx = x; ly = y - 1; rx = x - 1; ry = y - 1; }
    bool L = cell(lx, ly), R = cell(rx, ry);
    int ndx = dx, ndy = dy;
    if (R && (L || right_first)) { ndx = dy; ndy = -dx; }     // turn right
    else if (!L) { ndx = -dy; ndy = dx; }                     // turn left
    else if (R) { ndx = dy; ndy = -dx; }
    dx = ndx; dy = ndy;
  } while (!(x == s.x && y == s.y && dx == 1 && dy == 0) && v.size() < 200);
  return v;
}
static std::vector<P2> Outline(Rng& r) {
  std::vector<P2> v;
  switch (r.range(0, 5)) {
    case 0: v = RandomPts(r, r.range(3, 8), r.range(2, 6)); break;
    case 1: case 2: for (;;) if (SimpleOutline(r, r.range(3, 11), r.range(3, 12), &v)) break; break;
    case 3: v = CellOutline(r); break;
    case 4: {   // star
      static const P2 D[12] = {{6, 0}, {5, 3}, {3, 5}, {0, 6}, {-3, 5}, {-5, 3}, {-6, 0}, {-5, -3}, {-3, -5}, {0, -6}, {3, -5}, {5, -3}};
      for (auto& d : D) if (r.chance(2, 3)) { int k = r.range(1, 4); v.push_back({d.x * k, d.y * k}); }
      while (v.size() < 3) v.push_back({r.range(-9, 9), r.range(-9, 9)});
      break;
    }
    default: {  // zigzag chains over one another
      int n = r.range(1, 6);
      for (int i = 0; i <= n; ++i) v.push_back({2 * i + r.range(-1, 1), r.range(-1, 4)});
      for (int i = n; i >= 0; --i) v.push_back({2 * i + r.range(-1, 1), r.range(3, 9)});
    }
  }
  // vertices in the middle of sides, repeats, spikes
  for (int k = r.chance(1, 2) ? r.range(1, 3) : 0; k > 0; --k) {
    size_t i = size_t(r.range(0, int(v.size()) - 1));
    P2 a = v[i], b = v[(i + 1) % v.size()];
    switch (r.range(0, 3)) {
      case 0: if ((a.x + b.x) % 2 == 0 && (a.y + b.y) % 2 == 0) v.insert(v.begin() + long(i) + 1, P2{(a.x + b.x) / 2, (a.y + b.y) / 2}); break;
      case 1: v.insert(v.begin() + long(i) + 1, a); break;
      case 2: v.insert(v.begin() + long(i) + 1, {P2{r.range(0, 6), r.range(0, 6)}, a}); break;
      default: v.push_back(v.front()); break;
    }
  }
  if (r.chance(1, 3)) std::reverse(v.begin(), v.end());
  if (r.chance(1, 2)) std::rotate(v.begin(), v.begin() + r.range(0, int(v.size()) - 1), v.end());
  return v;
}

// maps the plane into space
struct Frame {
  Z o[3], u[3], w[3], den;
  Frame(Rng& r, bool integer) {
    for (;;) {
      int big = r.chance(1, 10) ? r.range(20, 70) : 0;
      for (int i = 0; i < 3; ++i) {
        o[i] = r.range(-5, 5); u[i] = r.chance(1, 3) ? 0 : r.range(-3, 3); w[i] = r.chance(1, 3) ? 0 : r.range(-3, 3);
        if (big) {
          o[i] = (o[i] << big) + r.range(-2, 2);
          u[i] = (u[i] << big) + (u[i] != 0 ? r.range(-2, 2) : 0);
          w[i] = (w[i] << big) + (w[i] != 0 ? r.range(-2, 2) : 0);
        }
      }
      V3 n = Cross({u[0], u[1], u[2]}, {w[0], w[1], w[2]});
      if (n.x != 0 || n.y != 0 || n.z != 0) break;
    }
    den = integer ? 1 : r.range(1, 5);
  }
  Pt At(const P2& p) const {
    Z x[3];
    for (int i = 0; i < 3; ++i) x[i] = o[i] + u[i] * p.x + w[i] * p.y;
    return Pt(x[0], x[1], x[2], den);
  }
};

template <typename P>
struct Factory : ConvexPolygonFactory<P> {
  PtTab* t = nullptr;
  A f;
  void Emit(typename ConvexPolygonFactory<P>::ConvexPolygonRep&& p) override {
    bool ok = true;
    A v;
    size_t n = p.vertex_count();
    for (size_t i = 0; i < n; ++i) {
      v(t->Add(p.vertex(i)));
      ok = ok && p.const_edge(i).line().IsCoincident(p.vertex(i)) && p.const_edge(i).line().IsCoincident(p.vertex((i + 1) % n)) &&
           p.const_edge(i).line().IsValid();
    }
    ok = ok && p.drop_dimension() >= 0 && p.plane().normal().components()[size_t(p.drop_dimension())] != 0;
    f.raw(O().raw("n", PlaneJ(p.plane())).raw("v", v.str())("ok", ok).str());
  }
};

static std::string Idx(PtTab& t, const std::vector<Pt>& v) { return Arr(v, [&](const Pt& p) { return std::to_string(t.Add(p)); }); }
static HomoPoint3 Conv(Rng& r, const Pt& p, HomoPoint3*, bool vary) { return ToPoint(r, p, vary); }
static Point3 Conv(Rng&, const Pt& p, Point3*, bool) { return Point3(FromZ(p.x), FromZ(p.y), FromZ(p.z)); }

template <typename P>
static void Cut(Case& c, Factory<P>& fac, bool integer) {
  Rng& r = c.rng;
  std::vector<Pt> v;
  bool planar = r.chance(5, 6);
  Frame fr(r, integer);
  if (planar) for (auto& p : Outline(r)) v.push_back(fr.At(p));
  else if (r.chance(1, 2)) {
    for (int n = r.range(3, 9); n > 0; --n) v.push_back(Pt(r.range(0, 4), r.range(0, 4), r.range(0, 4)));
  } else {
    // a planar outline with a few vertices moved away
    for (auto& p : Outline(r)) v.push_back(fr.At(p));
    for (int k = r.range(1, 3); k > 0; --k) {
      Pt& p = v[size_t(r.range(0, int(v.size()) - 1))];
      p = Pt(p.x + r.range(-2, 2) * p.w, p.y + r.range(-2, 2) * p.w, p.z + r.range(-2, 2) * p.w, p.w);
    }
  }
  bool vary = r.chance(1, 2);
  std::vector<P> in;
  for (auto& p : v) in.push_back(Conv(r, p, (P*)nullptr, vary));
  PtTab t;
  std::string ring = Idx(t, v);
  O o; o("op", "cut").raw("ring", ring)("planar", planar);
  { O call = o; call.raw("pts", t.J()); c.call(call); }
  fac.t = &t;
  fac.f = A();
  if (r.chance(1, 4)) {
    std::list<P> l(in.begin(), in.end());
    fac.Build(l.begin(), l.end());
  } else fac.Build(in.begin(), in.end());
  o.raw("f", fac.f.str()).raw("pts", t.J());
  c.ev(o);
}

// ------------------------------------------------------------- chains
template <typename P>
struct Tri : MonotoneTriangulator<P> {
  std::vector<std::vector<Pt>> out;
  void EmitTriangle(bool, const P& a, const P& b, const P& d) override {
    out.push_back({Pt(HomoPoint3(a)), Pt(HomoPoint3(b)), Pt(HomoPoint3(d))});
  }
};
template <typename P>
struct Mono : MonotoneDecomposer<P> {
  std::vector<std::vector<Pt>> out;
  std::vector<int> dir;
  using B = MonotoneDecomposer<P>;
  void EmitRange(int o, typename B::const_reverse_iterator a, typename B::const_reverse_iterator b, typename B::const_iterator d,
                 typename B::const_iterator e) override {
    out.emplace_back();
    for (; a != b; ++a) out.back().push_back(Pt(HomoPoint3(*a)));
    for (; d != e; ++d) out.back().push_back(Pt(HomoPoint3(*d)));
    dir.push_back(o < 0 ? -1 : o > 0);
  }
};
template <typename P>
struct Orient : OrientingMonotoneDecomposer<P> {
  std::vector<std::vector<Pt>> out;
  std::vector<int> dir;
  using B = OrientingMonotoneDecomposer<P>;
  void EmitOriented(int o, typename B::const_reverse_iterator a, typename B::const_reverse_iterator b, typename B::const_iterator d,
                    typename B::const_iterator e) override {
    out.emplace_back();
    for (; a != b; ++a) out.back().push_back(Pt(HomoPoint3(*a)));
    for (; d != e; ++d) out.back().push_back(Pt(HomoPoint3(*d)));
    dir.push_back(o < 0 ? -1 : o > 0);
  }
};

template <typename P>
static void Chains(Case& c, bool integer) {
  Rng& r = c.rng;
  int drop = r.range(0, 2), mono = r.chance(1, 2) ? (drop + 1) % 3 : (drop + 2) % 3, cmp = 3 - drop - mono;
  // two chains from the minimum to the maximum; the first one is above when ordered
  bool ordered = r.chance(2, 3);
  // left of a chain that runs along the first kept axis is up
  const int upward = mono == (drop + 1) % 3 ? 1 : -1;
  int n = r.range(2, 8);
  int first = 0, last = n;
  std::vector<std::array<int, 2>> up, down;   // (mono, cmp)
  int y0 = r.range(-2, 2), y1 = r.range(-2, 2);
  // keep the chains apart by a straight line when ordered
  bool strict = r.chance(1, 2);
  auto line = [&](int x) { return y0 * n + (y1 - y0) * x; };   // times n
  up.push_back({first, y0 * n});
  down.push_back({first, y0 * n});
  for (int x = first; x <= last; ++x) {
    bool end = x == first || x == last;
    auto add = [&](std::vector<std::array<int, 2>>& ch, int dir) {
      int k = r.chance(1, 6) ? 2 : r.chance(2, 3) ? 1 : 0;
      if (end) return;
      while (k--) {
        int y = ordered ? line(x) + dir * n * (r.range(0, 4) + (strict ? 1 : 0)) : line(x) + n * r.range(-4, 4);
        ch.push_back({x, y});
      }
    };
    add(up, upward);
    add(down, -upward);
  }
  up.push_back({last, y1 * n});
  down.push_back({last, y1 * n});
  int flips = r.range(0, 1);
  int big = r.chance(1, 8) ? r.range(25, 75) : 0;
  int sx = r.range(-2, 2), sy = r.range(-2, 2);
  auto lift = [&](const std::vector<std::array<int, 2>>& ch) {
    std::vector<Pt> v;
    for (auto& a : ch) {
      Z q[3];
      q[mono] = Z(a[0]) << big; q[cmp] = Z(a[1]) << big; q[drop] = Z(sx * a[0] + sy * a[1]) << big;
      v.push_back(Pt(q[0], q[1], q[2], integer ? 1 : 3));
    }
    return v;
  };
  std::vector<Pt> t = lift(up), b = lift(down);
  bool vary = r.chance(1, 2);
  auto conv = [&](const std::vector<Pt>& v) { std::vector<P> o; for (auto& p : v) o.push_back(Conv(r, p, (P*)nullptr, vary)); return o; };
  PtTab tab;
  int kind = r.range(0, 2);
  if (kind == 2 && flips) std::swap(t, b);
  std::vector<P> T = conv(t), B = conv(b);
  O o; o("op", "chains")("kind", kind)("drop", drop)("ordered", ordered).raw("top", Idx(tab, t)).raw("bottom", Idx(tab, b));
  { O call = o; call("mono", mono).raw("pts", tab.J()); c.call(call); }
  std::vector<std::vector<Pt>> out;
  std::vector<int> dir;
  if (T.size() + B.size() < 5) return;
  if (kind == 0) {
    Tri<P> x;
    x.Build(drop, mono, T.begin(), T.end() - 1, B.begin() + 1, B.end());
    out = x.out;
    dir.assign(out.size(), 0);
  } else if (kind == 1) {
    Mono<P> x;
    x.Build(drop, mono, T.begin(), T.end() - 1, B.begin() + 1, B.end());
    out = x.out; dir = x.dir;
  } else {
    Orient<P> x;
    x.Build(drop, mono, T.begin(), T.end(), B.begin(), B.end());
    out = x.out; dir = x.dir;
  }
  o.raw("out", Arr(out, [&](const std::vector<Pt>& v) { return Idx(tab, v); })).raw("dir", IntArr(dir)).raw("pts", tab.J());
  c.ev(o);
}

static void Run(Case& c, const Opts& o) {
  Rng& r = c.rng;
  bool integer = r.chance(1, 3);
  if (o.mode == "chains") {
    for (int k = r.range(1, 6); k > 0; --k) if (integer) Chains<Point3>(c, true); else Chains<HomoPoint3>(c, false);
    return;
  }
  Factory<HomoPoint3> a;
  Factory<Point3> b;
  for (int k = r.range(1, 6); k > 0; --k) if (integer) Cut(c, b, true); else Cut(c, a, false);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
