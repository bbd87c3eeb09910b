// Measures of meshes and facets, and extrusions.
#include "scene.h"
#include "walnut/convex_polygon.h"
#include "walnut/extrude.h"
#include "walnut/mesh.h"
#include "walnut/mutable_convex_polygon.h"

using namespace vt;
using namespace walnut;

static std::string H3(const HomoPoint3& p) { A a; a.raw(ZJ(p.x())); a.raw(ZJ(p.y())); a.raw(ZJ(p.z())); a.raw(ZJ(p.w())); return a.str(); }
static std::string V3J(const V3& v) { A a; a.raw(ZJ(v.x)); a.raw(ZJ(v.y)); a.raw(ZJ(v.z)); return a.str(); }

static void Measure(Case& c) {
  Rng& r = c.rng;
  Scene s = MakeScene(r, r.chance(1, 4) ? 2 : 1, true);
  Mesh m = s.mesh[0];
  bool given = true;
  if (s.mesh.size() > 1) for (Facet f : s.mesh[1]) m.push_back(f);
  if (r.chance(1, 3)) Apply(RandomAffine(r, r.range(0, 4)), m);
  if (r.chance(1, 4)) Subdivide(r, m, 1, 3);
  if (r.chance(1, 6)) Flip(m);
  r.shuffle(m);
  std::vector<MutableConvexPolygon<>> polys;
  PtTab tab;
  for (const Facet& f : m) polys.emplace_back(ToPoly(r, f, true));
  std::string fj = FacetsJ(tab, polys);
  O o; o("op", "measure")("given", given ? 1 : 0).raw("f", fj).raw("pts", tab.J());
  o.s += "," + LcmJ(tab, 4000);
  c.call(o);
  A cent, top, far;
  cent.raw(H3(GetCentroid(polys)));
  top.raw(H3(GetTopPoint(polys)));
  std::vector<V3> dirs;
  for (int i = r.range(1, 4); i > 0; --i) {
    V3 d{r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)};
    if (r.chance(1, 3)) { const Facet& f = r.pick(m); d = f.pl.n; if (r.chance(1, 3)) d = V3{-d.x, -d.y, -d.z}; }
    if (d.x == 0 && d.y == 0 && d.z == 0) d.z = 1;
    dirs.push_back(d);
  }
  for (int round = 0; round < 2; ++round) {
    for (const V3& d : dirs) {
      HomoPoint3 p = GetFarthest(polys, Vector3(FromZ(d.x), FromZ(d.y), FromZ(d.z)));
      far.raw(O().raw("d", V3J(d)).raw("p", H3(p)).str());
    }
    if (round) break;
    // other orders of the facets, vertices starting elsewhere
    r.shuffle(polys);
    for (auto& p : polys) if (r.chance(1, 2)) { if (r.chance(1, 2)) p.SortVertices(); else p.RotateEdges(size_t(r.range(0, int(p.vertex_count()) - 1))); }
    cent.raw(H3(GetCentroid(polys)));
    top.raw(H3(GetTopPoint(polys)));
  }
  c.ev(o.raw("centroid", cent.str()).raw("top", top.str()).raw("far", far.str()));
  // measures of some facets
  for (int i = r.range(0, 3); i > 0; --i) {
    const auto& p = r.pick(polys);
    PtTab t2;
    A v;
    for (size_t j = 0; j < p.vertex_count(); ++j) v(t2.Add(p.vertex(j)));
    O e; e("op", "polygon").raw("v", v.str()).raw("pts", t2.J());
    e.s += "," + LcmJ(t2, 4000);
    c.call(e);
    A area, flat;
    for (int d = 0; d < 3; ++d) {
      auto a = p.GetProjectedArea(d);
      A x; x.raw(ZJ(a.first)); x.raw(ZJ(a.second));
      area.raw(x.str());
      A y;
      if (a.first.IsZero()) y("none");
      else {
        HomoPoint2 q = p.GetProjectedCentroid(d);
        y.raw(ZJ(q.x())); y.raw(ZJ(q.y())); y.raw(ZJ(q.w()));
      }
      flat.raw(y.str());
    }
    c.ev(e.raw("area", area.str()).raw("flat", flat.str()).raw("centroid", H3(p.GetCentroid())));
  }
}

// ------------------------------------------------------------ extrusion
static bool Nonconvex(Rng& r, std::vector<Pt>* out) {
  // a comb or a star: simple, not convex
  std::vector<Pt> v;
  if (r.chance(1, 2)) {
    int n = r.range(1, 4);
    for (int i = 0; i <= 2 * n; ++i) v.push_back(Pt(i, i % 2 ? r.range(1, 2) : 0, 0));
    for (int i = 2 * n; i >= 0; --i) v.push_back(Pt(i, i % 2 ? r.range(3, 5) : r.range(2, 4) + 1, 0));
  } else {
    static const int D[8][2] = {{4, 0}, {3, 3}, {0, 4}, {-3, 3}, {-4, 0}, {-3, -3}, {0, -4}, {3, -3}};
    for (auto& d : D) { int k = r.range(1, 3); v.push_back(Pt(d[0] * k, d[1] * k, 0)); }
  }
  *out = v;
  return true;
}

static void ExtrudeCap(Case& c) {
  Rng& r = c.rng;
  std::vector<Pt> cap;
  if (r.chance(1, 4)) {
    Nonconvex(r, &cap);
    Affine a = RandomAffine(r, r.range(0, 4));
    for (Pt& p : cap) p = a.Map(p);
    if (r.chance(1, 2)) std::reverse(cap.begin(), cap.end());
  } else {
    Scene s = MakeScene(r, 1, true);
    if (r.chance(1, 4)) Subdivide(r, s.mesh[0], 1, 3);
    if (r.chance(1, 3)) Apply(RandomAffine(r, r.range(0, 4)), s.mesh[0]);
    cap = r.pick(s.mesh[0]).v;
    if (r.chance(1, 3)) std::reverse(cap.begin(), cap.end());
  }
  if (r.chance(1, 4) && cap.size() > 2) {   // a vertex in the middle of a side
    size_t i = size_t(r.range(0, int(cap.size()) - 1));
    cap.insert(cap.begin() + long(i) + 1, Mid(cap[i], cap[(i + 1) % cap.size()]));
  }
  std::rotate(cap.begin(), cap.begin() + r.range(0, int(cap.size()) - 1), cap.end());
  // the plane, by the area
  V3 n{0, 0, 0};
  Z lcm = 1;
  for (const Pt& p : cap) lcm = lcm / Gcd(lcm, p.w) * p.w;
  for (size_t i = 0; i < cap.size(); ++i) {
    const Pt &a = cap[i], &b = cap[(i + 1) % cap.size()];
    Z ka = lcm / a.w, kb = lcm / b.w;
    V3 x = Cross(V3{a.x * ka, a.y * ka, a.z * ka}, V3{b.x * kb, b.y * kb, b.z * kb});
    n = V3{n.x + x.x, n.y + x.y, n.z + x.z};
  }
  Z g = Gcd(Gcd(n.x, n.y), n.z);
  if (g == 0) return;
  n = V3{n.x / g, n.y / g, n.z / g};
  V3 dir{r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)};
  switch (r.range(0, 7)) {
    case 0: dir = V3{-n.x, -n.y, -n.z}; break;
    case 1: dir = n; break;
    case 3: { const Pt &a = cap[0], &b = cap[1]; V3 x = Diff(a, b); if (r.chance(1, 3)) x = V3{0, 0, 0}; dir = x; break; }
    case 2: dir = V3{0, 0, 0}; (r.chance(1, 2) ? dir.x : dir.z) = r.chance(1, 2) ? 1 : -1; break;
    default: break;
  }
  Z flat = dir.x * n.x + dir.y * n.y + dir.z * n.z;
  if (flat == 0 && !r.chance(1, 2)) { dir = V3{dir.x - n.x, dir.y - n.y, dir.z - n.z}; }
  int dd = r.chance(1, 2) ? 1 : r.range(1, 6);
  if (r.chance(1, 5)) dd = -dd;
  PtTab tab;
  A cj, mj;
  std::vector<HomoPoint3> in;
  for (const Pt& p : cap) { cj(tab.Add(p)); in.push_back(ToPoint(r, p, true)); }
  std::vector<Pt> moved;
  for (const Pt& p : cap) {
    Pt q(p.x * dd + dir.x * p.w, p.y * dd + dir.y * p.w, p.z * dd + dir.z * p.w, p.w * dd);
    moved.push_back(q);
    mj(tab.Add(q));
  }
  Plane pl{n, 0};
  // n.p = d with the plane through the first vertex: scaled by its w
  Z d = n.x * cap[0].x + n.y * cap[0].y + n.z * cap[0].z;
  A nj; nj.raw(ZJ(Z(n.x * cap[0].w))); nj.raw(ZJ(Z(n.y * cap[0].w))); nj.raw(ZJ(Z(n.z * cap[0].w))); nj.raw(ZJ(d));
  O o; o("op", "extrude").raw("cap", cj.str()).raw("moved", mj.str()).raw("dir", V3J(dir))("dd", dd).raw("n", nj.str()).raw("pts", tab.J());
  c.call(o);
  std::vector<MutableConvexPolygon<>> out = Extrude(in, Vector3(FromZ(dir.x), FromZ(dir.y), FromZ(dir.z)), BigInt(dd));
  std::string fj = FacetsJ(tab, out);
  std::vector<Pt> qs;
  // inside, beside and on the corners
  for (int i = 0; i < 5; ++i) {
    Pt a = Mid(Mid(r.pick(cap), r.pick(cap)), Mid(r.pick(moved), r.pick(cap)));
    Pt b = Mid(r.pick(cap), r.pick(moved));
    qs.push_back(r.chance(1, 2) ? a : Mid(a, b));
  }
  for (int i = 0; i < 2; ++i) qs.push_back(r.pick(tab.pts));
  O e; e("op", "extrude").raw("cap", cj.str()).raw("moved", mj.str()).raw("dir", V3J(dir))("dd", dd).raw("n", nj.str()).raw("f", fj).raw("pts", tab.J());
  e.s += "," + LcmJ(tab, 4000);
  c.ev(e.raw("qs", Arr(qs, [](const Pt& p) { return p.J(); })));
}

static void Run(Case& c, const Opts& o) {
  if (o.mode == "extrude") for (int k = c.rng.range(1, 3); k > 0; --k) ExtrudeCap(c);
  else Measure(c);
}
int main(int argc, char** argv) { return Main(argc, argv, Run); }
