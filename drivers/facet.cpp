// Facets: splitting, editing and bounding boxes.  One case is one history over
// a few facets, kept in numbered registers.  Modes: split, edit, box (the same
// operations on facets that keep a bounding box).
#include "geo.h"

#include "walnut/aabb_convex_polygon.h"

using namespace vt;
using namespace walnut;

// Data attached to an edge, so that it can be followed.
struct TagEdge : EdgeInfoRoot {
  int tag = 0;
  bool cut = false;
  const void* home = nullptr;
  TagEdge() = default;
  TagEdge(const TagEdge& o) : EdgeInfoRoot(o), tag(o.tag), cut(o.cut), home(o.home) { }
  TagEdge(RValueKey<TagEdge> o) noexcept : tag(o.get().tag), cut(o.get().cut), home(o.get().home) { }
  explicit TagEdge(const EdgeInfoRoot&) { }
  TagEdge(const TagEdge& p, const HomoPoint3&) : EdgeInfoRoot(), tag(p.tag), cut(p.cut) { }
  TagEdge(const TagEdge& p, const PluckerLine&) : EdgeInfoRoot(), tag(p.tag), cut(true) { }
  TagEdge(const TagEdge& p, const HomoPoint3&, const PluckerLine&) : EdgeInfoRoot(), tag(p.tag), cut(true) { }
  TagEdge& operator=(const TagEdge& o) { tag = o.tag; cut = o.cut; home = o.home; return *this; }
  TagEdge& operator=(const EdgeInfoRoot&) { tag = 0; cut = false; home = nullptr; return *this; }
  TagEdge& operator=(RValueKey<TagEdge> o) noexcept { return *this = o.get(); }
  bool operator==(const TagEdge& o) const { return tag == o.tag; }
  bool operator!=(const TagEdge& o) const { return tag != o.tag; }
  bool CanMerge(const TagEdge& next) const { return ((tag ^ next.tag) & 1) == 0; }
 protected:
  void Merge(TagEdge&) { }
  template <typename EP> void EdgeMoved(ConvexPolygon<EP>& target) { home = &target; }
};

using Plain = MutableConvexPolygon<TagEdge>;
using Boxed = AABBConvexPolygon<ConvexPolygon<TagEdge>>;

static std::string LineJ(const PluckerLine& l) {
  Z g = 0, v[6] = {ToZ(l.d().x()), ToZ(l.d().y()), ToZ(l.d().z()), ToZ(l.m().x()), ToZ(l.m().y()), ToZ(l.m().z())};
  for (const Z& x : v) g = Gcd(g, x);
  if (g == 0) g = 1;
  A a;
  for (const Z& x : v) a(Z(x / g));
  return a.str();
}

static void BoxJ(O& o, const Plain&) { }
static void BoxJ(O& o, const Boxed& p) {
  if (p.vertex_count() == 0) return;
  const AABB& b = p.aabb();
  A lo, hi, li, hi_i;
  for (int i = 0; i < 3; ++i) {
    lo(b.min_point_num().components()[i]);
    hi(b.max_point_num().components()[i]);
    li(int(p.min_vertex_index(i)) + 1);
    hi_i(int(p.max_vertex_index(i)) + 1);
  }
  o.raw("box", O().raw("lo", lo.str()).raw("hi", hi.str())("den", b.denom()).raw("li", li.str()).raw("hi_i", hi_i.str()).str());
}

template <typename P>
static std::string FJ(const P& p) {
  A v, ln, tag, cut, home;
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    const auto& e = p.const_edge(i);
    v.raw(Pt(e.vertex()).J());
    ln.raw(LineJ(e.line()));
    tag(e.tag);
    cut(e.cut);
    home(e.home == static_cast<const ConvexPolygon<TagEdge>*>(&p));
  }
  O o;
  o.raw("n", PlaneJ(p.plane()))("drop", p.drop_dimension()).raw("v", v.str()).raw("ln", ln.str()).raw("tag", tag.str())
    .raw("cut", cut.str()).raw("home", home.str())("ok", p.IsValidState());
  BoxJ(o, p);
  return o.str();
}

static int g_tag = 0;
template <typename P>
static void SetTags(P& p, Rng& r) { }
static Plain Build(Rng& r, const Facet& f, bool vary) {
  std::vector<HomoPoint3> v;
  size_t n = f.v.size(), s = size_t(r.range(0, int(n) - 1));
  for (size_t i = 0; i < n; ++i) v.push_back(ToPoint(r, f.v[(s + i) % n], vary));
  int drop = PickDrop(r, f.pl);
  Plain p;
  if (r.chance(1, 2)) {
    Plain::EdgeVector ev;
    for (size_t i = 0; i < n; ++i) ev.emplace_back(v[i], v[(i + 1) % n]);
    p = Plain(ToHalfSpace(f.pl, vary ? r.range(1, 3) : 1), drop, ev);
  } else {
    p = Plain(ToHalfSpace(f.pl, vary ? r.range(1, 3) : 1), drop, v);
  }
  for (size_t i = 0; i < n; ++i) {
    TagEdge& e = p.edge(i);
    e.tag = r.range(0, 5);
  }
  return p;
}

// A convex polygon in the (u, v) plane: points as (x, y, 0, w).
static std::vector<Pt> Convex2(Rng& r) {
  for (;;) {
    std::vector<Pt> p;
    int kind = r.range(0, 3);
    if (kind == 0) {
      int k = r.range(3, 8);
      for (int i = 0; i < k; ++i) p.push_back(Pt(r.range(-4, 4), r.range(-4, 4), 0, r.chance(1, 3) ? r.range(1, 5) : 1));
    } else if (kind == 1) {
      int k = r.range(8, 16);
      for (int i = 0; i < k; ++i) p.push_back(Pt(r.range(-3, 3), r.range(-3, 3), 0));
    } else if (kind == 2) {
      // many vertices on a parabola closed by a chord
      int k = r.range(4, 24), a = r.range(-12, 0);
      for (int i = 0; i < k; ++i) p.push_back(Pt(a + i, (a + i) * (a + i), 0));
      if (r.chance(1, 2)) for (Pt& q : p) q.w = r.chance(1, 2) ? 1 : r.range(1, 4), q.Norm();
    } else {
      // points of a circle with rational coordinates
      int k = r.range(3, 14);
      for (int i = 0; i < k; ++i) {
        int t = r.range(-6, 6), s = r.range(1, 5);
        p.push_back(Pt(s * s - t * t, 2 * s * t, 0, s * s + t * t));
      }
    }
    // hull via an apex
    Mesh m;
    std::vector<Pt> q = p;
    q.push_back(Pt(0, 0, 1));
    if (!Hull(q, &m)) continue;
    for (Facet& f : m) {
      bool flat = true;
      for (Pt& x : f.v) if (x.z != 0) flat = false;
      if (flat && f.v.size() >= 3) {
        std::vector<Pt> out;
        std::vector<Pt> v = f.v;
        std::reverse(v.begin(), v.end());   // counter clockwise around +z
        for (size_t i = 0; i < v.size(); ++i) {
          out.push_back(v[i]);
          const Pt &a = v[i], &b = v[(i + 1) % v.size()];
          if (r.chance(1, 8)) {
            Pt m1 = Mid(a, b);
            if (r.chance(1, 3)) out.push_back(Mid(a, m1));
            out.push_back(m1);
          }
        }
        return out;
      }
    }
  }
}

struct Embed {   // (x, y, w) -> (o*w + a*x + b*y) / (den*w)
  Z o[3], a[3], b[3], den;
  explicit Embed(Rng& r) {
    int kind = r.range(0, 2);
    for (;;) {
      for (int i = 0; i < 3; ++i) { o[i] = 0; a[i] = 0; b[i] = 0; }
      if (kind == 0) {
        int d = r.range(0, 2);
        a[(d + 1) % 3] = r.chance(1, 2) ? 1 : -2;
        b[(d + 2) % 3] = r.chance(1, 2) ? 1 : -1;
        o[d] = r.range(-3, 3);
      } else {
        for (int i = 0; i < 3; ++i) { o[i] = r.range(-5, 5); a[i] = r.range(-3, 3); b[i] = r.range(-3, 3); }
      }
      V3 c = Cross({a[0], a[1], a[2]}, {b[0], b[1], b[2]});
      if (c.x != 0 || c.y != 0 || c.z != 0) break;
    }
    den = r.chance(1, 2) ? 1 : r.range(1, 7);
    if (r.chance(1, 12)) {
      Z k = (Z(1) << r.range(25, 75)) + r.range(-2, 2);
      for (int i = 0; i < 3; ++i) { a[i] = a[i] * k + r.range(-1, 1); b[i] = b[i] * k; o[i] *= k + 1; }
      V3 c = Cross({a[0], a[1], a[2]}, {b[0], b[1], b[2]});
      if (c.x == 0 && c.y == 0 && c.z == 0) b[0] += 1, b[1] += 3, b[2] -= 5;
    }
  }
  Pt Map(const Pt& p) const {
    return Pt(o[0] * p.w + a[0] * p.x + b[0] * p.y, o[1] * p.w + a[1] * p.x + b[1] * p.y,
              o[2] * p.w + a[2] * p.x + b[2] * p.y, den * p.w);
  }
};
static Facet RandomFacet(Rng& r) {
  for (;;) {
    std::vector<Pt> q = Convex2(r), v;
    Embed e(r);
    for (const Pt& p : q) v.push_back(e.Map(p));
    if (r.chance(1, 2)) std::reverse(v.begin(), v.end());
    Facet f;
    if (MakeFacet(v, &f)) return f;
  }
}

// Planes through, beside and along a facet.
template <typename P>
static HalfSpace3 RandomPlane(Rng& r, const P& p) {
  Plane pl;
  size_t n = p.vertex_count();
  auto V = [&](int i) { return Pt(p.vertex(size_t(i) % n)); };
  auto Any = [&] { int i = r.range(0, int(n) - 1); return r.chance(1, 2) ? V(i) : r.chance(1, 2) ? Mid(V(i), V(i + 1)) : Centroid3(V(i), V(i + 1), V(r.range(0, int(n) - 1))); };
  int kind = r.range(0, 9);
  V3 nn = {ToZ(p.plane().x()), ToZ(p.plane().y()), ToZ(p.plane().z())};
  if (kind == 0) {
    // parallel or the plane itself
    pl.n = nn; pl.d = ToZ(p.plane().d());
    if (r.chance(2, 3)) { pl.d = pl.d * 2 + r.range(-2, 2); pl.n = {nn.x * 2, nn.y * 2, nn.z * 2}; }
  } else if (kind <= 2) {
    pl.n = {r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)};
    pl.d = r.range(-6, 6);
    if (pl.n.x == 0 && pl.n.y == 0 && pl.n.z == 0) pl.n.x = 1;
  } else {
    // through two points of the facet and a third off the plane (or one edge)
    for (int t = 0; ; ++t) {
      int i = r.range(0, int(n) - 1);
      Pt a = kind <= 4 ? V(i) : Any(), b = kind <= 4 ? V(i + r.range(1, int(n) - 1)) : Any();
      Pt c(r.range(-7, 7), r.range(-7, 7), r.range(-7, 7), r.range(1, 2));
      if (kind == 9) { // axis aligned through a point
        int d = r.range(0, 2);
        pl.n = {d == 0, d == 1, d == 2};
        pl.n = {pl.n.x * a.w, pl.n.y * a.w, pl.n.z * a.w};
        pl.d = d == 0 ? a.x : d == 1 ? a.y : a.z;
        break;
      }
      if (PlaneOf(a, b, c, &pl)) break;
      if (t > 20) { pl.n = {1, 0, 0}; pl.d = 0; break; }
    }
  }
  Z k = r.chance(1, 2) ? 1 : r.range(1, 3);
  if (r.chance(1, 2)) k = -k;
  return ToHalfSpace(pl, k);
}

template <typename P> struct Ops;
template <> struct Ops<Plain> {
  static std::pair<Plain, Plain> Split(Plain& p, ConvexPolygonSplitInfo& info, int how) {
    if (how == 0) return Convert(static_cast<const Plain&>(p).CreateSplitChildren(info));
    return Convert(Plain::CreateSplitChildren(std::move(p).GetRValueKey(), std::move(info)));
  }
  static std::pair<Plain, Plain> Convert(std::pair<ConvexPolygon<TagEdge>, ConvexPolygon<TagEdge>> c) {
    return {Plain(c.first), Plain(c.second)};
  }
  static Plain Make(const Plain& p, int) { return p; }
};
template <> struct Ops<Boxed> {
  static std::pair<Boxed, Boxed> Split(Boxed& p, ConvexPolygonSplitInfo& info, int how) {
    if (how == 0) return static_cast<const Boxed&>(p).CreateSplitChildren(info);
    return std::move(p).CreateSplitChildren(std::move(info));
  }
  static Boxed Make(const Plain& p, int how) {
    return Boxed(p);
  }
};

static std::string RangesJ(const ConvexPolygonSplitRanges& g) {
  return A()(int(g.neg_range.first))(int(g.neg_range.second))(int(g.pos_range.first))(int(g.pos_range.second)).str();
}

template <typename P>
struct Machine {
  Case& c;
  Rng& r;
  std::string mode;
  std::map<int, P> reg;
  int next = 1;
  bool vary;
  Machine(Case& c, const std::string& mode) : c(c), r(c.rng), mode(mode), vary(r.chance(1, 2)) { }

  int Pick() {
    auto it = reg.begin();
    std::advance(it, r.range(0, int(reg.size()) - 1));
    return it->first;
  }
  void New(const Facet& f) {
    Plain p = Build(r, f, vary);
    int i = next++;
    reg.emplace(i, Ops<P>::Make(p, r.range(0, 1)));
    c.ev(O()("op", "new")("to", i).raw("f", FJ(reg.at(i))));
  }
  void Split() {
    int i = Pick();
    P& p = reg.at(i);
    HalfSpace3 h = RandomPlane(r, p);
    std::string hj = PlaneJ(h);
    O base;
    base("op", "split")("from", i).raw("h", hj);
    c.call(base);
    ConvexPolygonSplitInfo info = p.GetSplitInfo(h);
    bool neg = info.ShouldEmitNegativeChild(), pos = info.ShouldEmitPositiveChild();
    base("neg", neg)("pos", pos)("on", info.ShouldEmitOnPlane()).raw("ranges", RangesJ(info.ranges));
    // both searches, on the projection the library itself would use
    PluckerLine line(p.plane(), h);
    if (line.IsValid()) {
      std::vector<int> dims;
      for (int d = 0; d < 3; ++d) if (!p.normal().components()[d].IsZero()) dims.push_back(d);
      int d = r.pick(dims);
      HalfSpace2 h2 = line.Project2D(d);
      base.raw("h2", A()(h2.normal().x())(h2.normal().y())(h2.d()).str())("d2", d);
      base.raw("lin", RangesJ(p.FindSplitRangesLinear(h2, d))).raw("bis", RangesJ(p.FindSplitRangesBisect(h2, d)));
    }
    if (neg && pos) {
      int how = r.range(0, 1);
      auto ch = Ops<P>::Split(p, info, how);
      int a = next++, b = next++;
      base("how", how)("na", a)("nb", b).raw("A", FJ(ch.first)).raw("B", FJ(ch.second));
      if (how == 0) base.raw("src", FJ(p));
      reg.emplace(a, std::move(ch.first));
      reg.emplace(b, std::move(ch.second));
      if (how) reg.erase(i);
    }
    c.ev(base);
  }
  void Search() {
    int i = Pick();
    const P& p = reg.at(i);
    std::vector<int> dims;
    for (int d = 0; d < 3; ++d) if (!p.normal().components()[d].IsZero()) dims.push_back(d);
    int d = r.pick(dims);
    Vector2 v(r.range(-3, 3), r.range(-3, 3));
    if (r.chance(1, 2)) {
      v = p.const_edge(size_t(r.range(0, int(p.vertex_count()) - 1))).line().d().DropDimension(d);
      if (r.chance(2, 3)) v = v.GetPerpendicular();
      if (r.chance(1, 2)) v.Negate();
    }
    Vector3 v3(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3));
    if (r.chance(1, 6)) v3 = p.normal() * r.range(-1, 1);
    O o; o("op", "search")("from", i)("d", d).raw("v", A()(v.x())(v.y()).str()).raw("v3", A()(v3.x())(v3.y())(v3.z()).str());
    c.call(o);
    o("e2", int(int64_t(p.GetExtremeIndexBisect(v, d))) + 1);
    o("e3", int(int64_t(p.GetExtremeIndexBisect(v3))) + 1);
    if (!v.IsZero()) {
      auto opp = p.GetOppositeEdgeIndicesBisect(v, d);
      o.raw("opp", A()(int(opp.first) + 1)(int(opp.second) + 1).str());
      // a half-space with this normal near some vertex
      HomoPoint2 q = p.vertex(size_t(r.range(0, int(p.vertex_count()) - 1))).DropDimension(d);
      Vector2 hn = v * q.w().abs();
      BigInt hd = (v.Dot(q.vector_from_origin())) * q.w().GetAbsMult() + BigInt(r.chance(1, 2) ? 0 : r.range(-2, 2));
      HalfSpace2 h(hn.x(), hn.y(), hd);
      auto ps = p.GetPosSideVertex(h, d, opp.first, opp.second), ns = p.GetNegSideVertex(h, d, opp.first, opp.second);
      o.raw("h2", A()(hn.x())(hn.y())(hd).str());
      o.raw("ps", A()(ps.first)(int(ps.second) + 1).str()).raw("ns", A()(ns.first)(int(ns.second) + 1).str());
      A ln;
      if (ps.first > 0 && ns.first < 0) {
        auto a = p.GetLastNegSideVertex(h, d, ns.second, -1, ps.second);
        auto b = p.GetLastPosSideVertex(h, d, ns.second, ps.second, 1);
        ln(a.first)(int(a.second) + 1)(b.first)(int(b.second) + 1);
      }
      o.raw("last", ln.str());
    } else o.raw("opp", "[]");
    c.ev(o);
  }
  void Rotate() {
    int i = Pick();
    P& p = reg.at(i);
    int k = r.range(0, int(p.vertex_count()) - 1);
    if (r.chance(1, 3)) {
      c.call(O()("op", "sort")("from", i));
      p.SortVertices();
      c.ev(O()("op", "sort")("from", i)("to", i).raw("f", FJ(p)));
    } else {
      c.call(O()("op", "rotate")("from", i)("k", k));
      p.RotateEdges(size_t(k));
      c.ev(O()("op", "rotate")("from", i)("to", i)("k", k).raw("f", FJ(p)));
    }
  }
  // copies, moves and assignments leave an equal facet
  void Copy() {
    int i = Pick(), j = next++;
    int how = r.range(0, 4);
    O o; o("op", "copy")("from", i)("to", j)("how", how);
    c.call(o);
    bool gone = false;
    if (how == 0) reg.emplace(j, reg.at(i));
    else if (how == 1) { P q; q = reg.at(i); reg.emplace(j, q); }
    else if (how == 2) { P q(std::move(reg.at(i))); gone = true; reg.emplace(j, std::move(q)); }
    else if (how == 3) { P q = reg.at(Pick()); q = std::move(reg.at(i)); gone = true; reg.emplace(j, std::move(q)); }
    else { P q = reg.at(Pick()); q = static_cast<const P&>(reg.at(i)); reg.emplace(j, std::move(q)); }
    if (gone) reg.erase(i);
    o("gone", gone).raw("f", FJ(reg.at(j)));
    if (!gone) o.raw("src", FJ(reg.at(i)));
    c.ev(o);
  }
  // Another facet across edge `e` of facet i.
  void Neighbour() {
    int i = Pick();
    const P& p = reg.at(i);
    size_t n = p.vertex_count(), e = size_t(r.range(0, int(n) - 1));
    Pt a(p.vertex(e)), b(p.vertex((e + 1) % n));
    V3 nn = {ToZ(p.plane().x()), ToZ(p.plane().y()), ToZ(p.plane().z())};
    bool flipped = r.chance(1, 8), bent = r.chance(1, 8);
    for (int t = 0; t < 30; ++t) {
      std::vector<Pt> pts = {a, b};
      int k = r.range(1, 4);
      for (int j = 0; j < k; ++j) {
        // combinations of the facet's own points, mirrored over the edge's middle
        Pt m = Mid(a, b), q = r.chance(1, 2) ? Pt(p.vertex(size_t(r.range(0, int(n) - 1))))
                                             : Mid(Pt(p.vertex(size_t(r.range(0, int(n) - 1)))), Pt(p.vertex(size_t(r.range(0, int(n) - 1)))));
        if (r.chance(1, 4)) { // extend a neighbouring edge
          Pt u = r.chance(1, 2) ? Pt(p.vertex((e + n - 1) % n)) : Pt(p.vertex((e + 2) % n));
          Pt w = u == Pt(p.vertex((e + 2) % n)) ? b : a;
          int s = r.range(1, 2);
          q = Pt((w.x * u.w - u.x * w.w) * s + w.x * u.w, (w.y * u.w - u.y * w.w) * s + w.y * u.w, (w.z * u.w - u.z * w.w) * s + w.z * u.w, w.w * u.w);
        } else {
          q = Pt(2 * m.x * q.w - q.x * m.w, 2 * m.y * q.w - q.y * m.w, 2 * m.z * q.w - q.z * m.w, m.w * q.w);
        }
        pts.push_back(q);
      }
      V3 up = nn;
      if (flipped) up = {-nn.x, -nn.y, -nn.z};
      if (bent) {
        Pt q(r.range(-5, 5), r.range(-5, 5), r.range(-5, 5));
        pts = {a, b, q};
        up = {0, 0, 0};
      }
      if (flipped) pts = {a, b, Pt(p.vertex((e + 2) % n))};
      // hull with an apex along the normal, then the flat face
      Pt m = a;
      if (bent) {
        Facet f;
        if (!MakeFacet({b, a, pts[2]}, &f)) continue;
        Emit(i, e, f);
        return;
      }
      std::vector<Pt> q = pts;
      q.push_back(Pt(m.x + up.x * m.w, m.y + up.y * m.w, m.z + up.z * m.w, m.w));
      Mesh h;
      if (!Hull(q, &h)) continue;
      for (Facet& f : h) {
        bool has = false;
        bool flat = true;
        for (const Pt& x : f.v) if (std::find(pts.begin(), pts.end(), x) == pts.end()) flat = false;
        if (!flat) continue;
        std::reverse(f.v.begin(), f.v.end());
        Facet g;
        if (!MakeFacet(f.v, &g)) continue;
        for (size_t x = 0; x < g.v.size(); ++x) if (g.v[x] == b && g.v[(x + 1) % g.v.size()] == a) has = true;
        if (has) { Emit(i, e, g); return; }
      }
    }
  }
  void Emit(int i, size_t e, const Facet& f) {
    int j = next;
    New(f);
    if (r.chance(1, 3)) {
      P& q = reg.at(j);
      int k = r.range(0, int(q.vertex_count()) - 1);
      q.RotateEdges(size_t(k));
      c.ev(O()("op", "rotate")("from", j)("to", j)("k", k).raw("f", FJ(q)));
    }
    Merge(i, j);
  }
  // Merge over a shared edge, if there is one.
  bool Merge(int i, int j) {
    if (i == j) return false;
    P &p = reg.at(i), &q = reg.at(j);
    size_t n = p.vertex_count(), m = q.vertex_count();
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < m; ++b) {
      if (Pt(p.vertex(a)) != Pt(q.vertex((b + 1) % m)) || Pt(q.vertex(b)) != Pt(p.vertex((a + 1) % n))) continue;
      std::vector<int> dims;
      for (int d = 0; d < 3; ++d) if (!p.const_edge(a).line().d().components()[d].IsZero()) dims.push_back(d);
      int d = r.pick(dims);
      O o; o("op", "merge")("from", i)("other", j)("ea", int(a) + 1)("eb", int(b) + 1)("dim", d);
      c.call(o);
      bool ok = p.TryMergePolygon(d, a, q, b);
      o("r", ok).raw("f", FJ(p)).raw("g", FJ(q));
      c.ev(o);
      if (ok) reg.erase(j);
      return true;
    }
    return false;
  }
  void MergeAny() {
    for (int t = 0; t < 6; ++t) { if (Merge(Pick(), Pick())) return; }
    Neighbour();
  }
  // through a facet type without tags, and back
  template <typename Bare>
  void Convert() {
    int i = Pick(), j = next++;
    Bare bare(reg.at(i));
    P q(bare);
    if (r.chance(1, 2)) { q = reg.at(Pick()); q = bare; }
    reg.emplace(j, q);
    c.ev(O()("op", "convert")("from", i)("to", j).raw("f", FJ(q)));
  }
  template <typename Q> void PlainOps(Q&) { }
  template <typename Q> void BoxConvert(Q&) { }
  void BoxConvert(std::map<int, Boxed>&) { Convert<AABBConvexPolygon<ConvexPolygon<>>>(); }
  void PlainOps(std::map<int, Plain>& rg) {
    int i = Pick();
    Plain& p = rg.at(i);
    switch (r.range(0, 3)) {
      case 0:
        c.call(O()("op", "invert")("from", i));
        p.Invert();
        c.ev(O()("op", "invert")("from", i)("to", i).raw("f", FJ(p)));
        break;
      case 1: {
        size_t e = size_t(r.range(0, int(p.vertex_count()) - 1));
        Pt a(p.vertex(e)), b(p.vertex((e + 1) % p.vertex_count()));
        Pt m = Mid(a, b);
        if (r.chance(1, 2)) m = Mid(r.chance(1, 2) ? a : b, m);
        O o; o("op", "splitedge")("from", i)("to", i)("e", int(e) + 1).raw("p", m.J());
        c.call(o);
        p.SplitEdge(e, ToPoint(r, m, vary));
        c.ev(o.raw("f", FJ(p)));
        break;
      }
      case 2: {
        // equality, mostly of nearly equal facets
        Plain q = p;
        std::vector<HomoPoint3> v;
        size_t n = p.vertex_count();
        int change = r.range(0, 4);
        size_t s = size_t(r.range(0, int(n) - 1));
        Plain::EdgeVector ev;
        for (size_t k = 0; k < n; ++k) {
          HomoPoint3 x = ToPoint(r, Pt(p.vertex((s + k) % n)), true), y = ToPoint(r, Pt(p.vertex((s + k + 1) % n)), true);
          ev.emplace_back(x, y);
        }
        q = Plain(p.plane(), p.drop_dimension(), ev);
        for (size_t k = 0; k < n; ++k) static_cast<TagEdge&>(q.edge(k)).tag = p.edge((s + k) % n).tag;
        if (change == 1) static_cast<TagEdge&>(q.edge(size_t(r.range(0, int(n) - 1)))).tag += 2;
        if (change == 2) q.Invert();
        if (change == 3 && reg.size() > 1) q = rg.at(Pick());
        if (change == 4 && n > 3) q.SplitEdge(0, ToPoint(r, Mid(Pt(q.vertex(0)), Pt(q.vertex(1))), true));
        Plain e1, e2;
        O o; o("op", "eq").raw("f", FJ(p)).raw("g", FJ(q));
        c.call(o);
        o("r", p == q)("ne", p != q)("self", p == p)("empty", e1 == e2);
        c.ev(o);
        break;
      }
      default: Convert<ConvexPolygon<>>();
    }
  }
  void Step() {
    int k = r.range(0, 9);
    if (reg.empty() || (k == 0 && reg.size() < 6)) { New(RandomFacet(r)); return; }
    if (mode == "split") {
      if (k <= 5) Split();
      else if (k <= 8) Search();
      else Rotate();
      return;
    }
    if (k <= 2) Split();
    else if (k <= 4) Rotate();
    else if (k == 5) Copy();
    else if (k <= 7) MergeAny();
    else if (mode == "edit") PlainOps(reg);
    else if (k == 8) { if (r.chance(1, 2)) Split(); else BoxConvert(reg); }
    else Neighbour();
  }
};

// ------------------------------------------------------------- box predicates
static void BoxCase(Case& c) {
  Rng& r = c.rng;
  for (int t = 0; t < 6; ++t) {
    Z lo[3], hi[3], den = r.chance(1, 2) ? 1 : r.range(1, 6);
    bool flat = r.chance(1, 8);
    Z big = r.chance(1, 8) ? (Z(1) << r.range(30, 90)) : Z(1);
    for (int i = 0; i < 3; ++i) {
      lo[i] = r.range(-4, 4) * big + (big > 1 ? r.range(-2, 2) : 0);
      hi[i] = lo[i] + (flat && r.chance(1, 2) ? Z(0) : Z(r.range(1, 5)) * big);
    }
    Z k = r.chance(1, 3) ? -1 : 1;
    AABB box(Vector3(FromZ(lo[0] * k), FromZ(lo[1] * k), FromZ(lo[2] * k)),
             Vector3(FromZ(hi[0] * k), FromZ(hi[1] * k), FromZ(hi[2] * k)), FromZ(den * k));
    O base; base("op", "box");
    base.raw("lo", A()(lo[0])(lo[1])(lo[2]).str()).raw("hi", A()(hi[0])(hi[1])(hi[2]).str())("den", den);
    c.call(base);
    // points
    A pts, in, bord, in3, bord3, pts3;
    auto Coord = [&](int i) -> std::pair<Z, Z> {
      int s = r.range(0, 5);
      if (s == 0) return {lo[i], den};
      if (s == 1) return {hi[i], den};
      if (s == 2) return {lo[i] + hi[i], 2 * den};
      if (s == 3) return {lo[i] * 2 - 1, 2 * den};
      if (s == 4) return {hi[i] * 2 + r.range(-1, 1), 2 * den};
      return {r.range(-6, 6), r.range(1, 3)};
    };
    for (int j = 0; j < 10; ++j) {
      std::pair<Z, Z> x = Coord(0), y = Coord(1), z = Coord(2);
      Pt p(x.first * y.second * z.second, y.first * x.second * z.second, z.first * x.second * y.second,
           x.second * y.second * z.second);
      HomoPoint3 h = ToPoint(r, p, true);
      pts.raw(p.J());
      in(box.IsInside(h));
      bord(box.IsOnBorder(h));
      if (p.w == 1) {
        Point3 q(FromZ(p.x), FromZ(p.y), FromZ(p.z));
        pts3.raw(p.J());
        in3(box.IsInside(q));
        bord3(box.IsOnBorder(q));
      }
    }
    base.raw("pts", pts.str()).raw("in", in.str()).raw("bord", bord.str());
    base.raw("pts3", pts3.str()).raw("in3", in3.str()).raw("bord3", bord3.str());
    // planes
    A planes, sides, cuts;
    for (int j = 0; j < 6; ++j) {
      Plane pl;
      pl.n = {r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)};
      if (r.chance(1, 4)) { int d = r.range(0, 2); pl.n = {d == 0, d == 1, d == 2}; if (r.chance(1, 2)) pl.n = {-pl.n.x, -pl.n.y, -pl.n.z}; }
      if (pl.n.x == 0 && pl.n.y == 0 && pl.n.z == 0) pl.n.z = 1;
      std::pair<Z, Z> x = Coord(0), y = Coord(1), z = Coord(2);
      if (r.chance(1, 2)) {   // a corner
        x = {r.chance(1, 2) ? lo[0] : hi[0], den}; y = {r.chance(1, 2) ? lo[1] : hi[1], den}; z = {r.chance(1, 2) ? lo[2] : hi[2], den};
      }
      Z w = x.second * y.second * z.second;
      pl.d = pl.n.x * x.first * y.second * z.second + pl.n.y * y.first * x.second * z.second + pl.n.z * z.first * x.second * y.second;
      pl.n = {pl.n.x * w, pl.n.y * w, pl.n.z * w};
      pl.Reduce();
      HalfSpace3 h = ToHalfSpace(pl, r.range(1, 2));
      planes.raw(PlaneJ(h));
      sides(box.GetPlaneSide(h));
      if (!(lo[0] == hi[0] || lo[1] == hi[1] || lo[2] == hi[2])) {
        MutableConvexPolygon<> cut = box.IntersectPlane(h);
        A v;
        for (size_t i = 0; i < cut.vertex_count(); ++i) v.raw(Pt(cut.vertex(i)).J());
        cuts.raw(O().raw("n", PlaneJ(cut.plane())).raw("v", v.str())("ok", cut.IsValidState()).str());
      }
    }
    base.raw("planes", planes.str()).raw("sides", sides.str()).raw("cuts", cuts.str());
    PtTab tab;
    std::string walls = FacetsJ(tab, box.GetWalls());
    base.raw("wf", walls).raw("wpts", tab.J());
    // comparison with another box
    AABB same(Vector3(FromZ(lo[0] * 3), FromZ(lo[1] * 3), FromZ(lo[2] * 3)), Vector3(FromZ(hi[0] * 3), FromZ(hi[1] * 3), FromZ(hi[2] * 3)), FromZ(den * 3));
    Z l2[3] = {lo[0], lo[1], lo[2]}, h2[3] = {hi[0], hi[1], hi[2]}, d2 = den;
    switch (r.range(0, 3)) {
      case 0: l2[r.range(0, 2)] -= 1; break;
      case 1: h2[r.range(0, 2)] += 1; break;
      case 2: d2 += 1; break;
      default: break;
    }
    AABB other(Vector3(FromZ(l2[0]), FromZ(l2[1]), FromZ(l2[2])), Vector3(FromZ(h2[0]), FromZ(h2[1]), FromZ(h2[2])), FromZ(d2));
    base("same", box == same)("samene", box != same).raw("lo2", A()(l2[0])(l2[1])(l2[2]).str()).raw("hi2", A()(h2[0])(h2[1])(h2[2]).str())("den2", d2)("eq", box == other);
    // corners and diagonal
    base.raw("min", Pt(box.min_point()).J()).raw("max", Pt(box.max_point()).J())("diag2", box.GetSquaredDiagonalLengthNumerator())("bden", box.denom());
    double len = box.GetDiagonalLength();
    int ex = 0;
    double fr = std::frexp(len, &ex);
    base("lm", Z(int64_t(std::ldexp(fr, 53))))("le", ex - 53);
    AABB none;
    base("none", none.IsInside(HomoPoint3(0, 0, 0, 1)) || none.IsInside(Point3(1, 1, 1)) || none.IsInside(HomoPoint3(1, 1, 1, 2)));
    c.ev(base);
  }
}

static void Run(Case& c, const Opts& o) {
  int n = o.tier == "thorough" ? 16 : 10;
  if (o.mode == "boxes") { BoxCase(c); return; }
  if (o.mode == "box") { Machine<Boxed> m(c, o.mode); for (int i = 0; i < n; ++i) m.Step(); }
  else { Machine<Plain> m(c, o.mode); for (int i = 0; i < n; ++i) m.Step(); }
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
