// Exact geometry, mesh generators and JSON output shared by the drivers.
#ifndef VT_GEO_H
#define VT_GEO_H

#include <algorithm>
#include <array>
#include <tuple>

#include "vt.h"

#include "walnut/convex_polygon.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point3.h"
#include "walnut/mutable_convex_polygon.h"

namespace vt {

using walnut::BigInt;
using walnut::HalfSpace3;
using walnut::HomoPoint3;
using walnut::Vector3;
using Poly = walnut::MutableConvexPolygon<>;

inline BigInt FromZ(const Z& v) {
  if (v > -(Z(1) << 62) && v < (Z(1) << 62)) return BigInt(int64_t(v));
  Z m = v < 0 ? Z(-v) : v;
  BigInt r(0);
  int n = int(msb(m)) / 32 + 1;
  for (int i = n - 1; i >= 0; --i)
    r = (r << 32) + BigInt(int64_t(unsigned((m >> (32 * i)) & 0xffffffffu)));
  return v < 0 ? BigInt(0) - r : r;
}

inline Z Gcd(Z a, Z b) {
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b != 0) { Z t = a % b; a = b; b = t; }
  return a;
}

// A point x/w, y/w, z/w in lowest terms with w > 0.
struct Pt {
  Z x, y, z, w;
  Pt() : x(0), y(0), z(0), w(1) { }
  Pt(Z x_, Z y_, Z z_, Z w_ = 1) : x(x_), y(y_), z(z_), w(w_) { Norm(); }
  explicit Pt(const HomoPoint3& p)
    : x(ToZ(p.x())), y(ToZ(p.y())), z(ToZ(p.z())), w(ToZ(p.w())) { Norm(); }
  void Norm() {
    if (w == 0) return;
    if (w < 0) { x = -x; y = -y; z = -z; w = -w; }
    if (w == 1) return;
    Z g = Gcd(Gcd(x, y), Gcd(z, w));
    if (g > 1) { x /= g; y /= g; z /= g; w /= g; }
  }
  bool operator<(const Pt& o) const {
    return std::tie(w, x, y, z) < std::tie(o.w, o.x, o.y, o.z);
  }
  bool operator==(const Pt& o) const {
    return w == o.w && x == o.x && y == o.y && z == o.z;
  }
  bool operator!=(const Pt& o) const { return !(*this == o); }
  std::string J() const {
    return "[" + ZJ(x) + "," + ZJ(y) + "," + ZJ(z) + "," + ZJ(w) + "]";
  }
};

struct V3 { Z x, y, z; };
inline V3 Cross(const V3& a, const V3& b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline Z Dot(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
// (b - a) scaled by a positive number
inline V3 Diff(const Pt& a, const Pt& b) {
  return {b.x * a.w - a.x * b.w, b.y * a.w - a.y * b.w, b.z * a.w - a.z * b.w};
}
inline Pt Mid(const Pt& a, const Pt& b) {
  return Pt(a.x * b.w + b.x * a.w, a.y * b.w + b.y * a.w, a.z * b.w + b.z * a.w, 2 * a.w * b.w);
}
inline Pt Centroid3(const Pt& a, const Pt& b, const Pt& c) {
  return Pt(a.x * b.w * c.w + b.x * a.w * c.w + c.x * a.w * b.w,
            a.y * b.w * c.w + b.y * a.w * c.w + c.y * a.w * b.w,
            a.z * b.w * c.w + b.z * a.w * c.w + c.z * a.w * b.w, 3 * a.w * b.w * c.w);
}

struct Plane {   // n . p = d
  V3 n; Z d;
  void Reduce() {
    Z g = Gcd(Gcd(n.x, n.y), Gcd(n.z, d));
    if (g > 1) { n.x /= g; n.y /= g; n.z /= g; d /= g; }
  }
  int Side(const Pt& p) const {
    Z s = n.x * p.x + n.y * p.y + n.z * p.z - d * p.w;
    return s < 0 ? -1 : s > 0 ? 1 : 0;
  }
};
inline bool PlaneOf(const Pt& a, const Pt& b, const Pt& c, Plane* out) {
  V3 n = Cross(Diff(a, b), Diff(a, c));
  if (n.x == 0 && n.y == 0 && n.z == 0) return false;
  // n.a = d with a = (x,y,z)/w: scale the normal by w
  out->n = {n.x * a.w, n.y * a.w, n.z * a.w};
  out->d = n.x * a.x + n.y * a.y + n.z * a.z;
  out->Reduce();
  return true;
}

// A facet: vertices counter clockwise seen from outside.
struct Facet {
  std::vector<Pt> v;
  Plane pl;
};
using Mesh = std::vector<Facet>;

inline bool MakeFacet(std::vector<Pt> v, Facet* f) {
  f->v = std::move(v);
  // the vertices are convex; find a non-collinear corner
  size_t n = f->v.size();
  for (size_t i = 0; i < n; ++i)
    if (PlaneOf(f->v[i], f->v[(i + 1) % n], f->v[(i + 2) % n], &f->pl)) return true;
  return false;
}

inline void Flip(Mesh& m) {
  for (Facet& f : m) {
    std::reverse(f.v.begin(), f.v.end());
    f.pl.n = {-f.pl.n.x, -f.pl.n.y, -f.pl.n.z};
    f.pl.d = -f.pl.d;
  }
}

// Convex hull of at most a dozen points, coplanar facets joined.
inline bool Hull(std::vector<Pt> p, Mesh* out) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  out->clear();
  std::set<std::vector<size_t>> seen;
  const size_t n = p.size();
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) for (size_t k = j + 1; k < n; ++k) {
    Plane pl;
    if (!PlaneOf(p[i], p[j], p[k], &pl)) continue;
    bool pos = false, neg = false;
    std::vector<size_t> on;
    for (size_t l = 0; l < n; ++l) {
      int s = pl.Side(p[l]);
      if (s > 0) pos = true; else if (s < 0) neg = true; else on.push_back(l);
    }
    if (pos && neg) continue;
    if (!pos && !neg) return false;   // flat
    if (!seen.insert(on).second) continue;
    if (pos) { pl.n = {-pl.n.x, -pl.n.y, -pl.n.z}; pl.d = -pl.d; }
    // 2D hull of `on` by gift wrapping, counter clockwise around pl.n
    std::vector<Pt> ring;
    size_t start = on[0];   // lexicographically least is not needed; find an extreme point
    {
      // extreme in a direction: compare by real coordinates
      auto less = [&](size_t a, size_t b) {
        Z xa = p[a].x * p[b].w, xb = p[b].x * p[a].w; if (xa != xb) return xa < xb;
        Z ya = p[a].y * p[b].w, yb = p[b].y * p[a].w; if (ya != yb) return ya < yb;
        return p[a].z * p[b].w < p[b].z * p[a].w;
      };
      for (size_t a : on) if (less(a, start)) start = a;
    }
    size_t cur = start;
    do {
      ring.push_back(p[cur]);
      size_t best = cur;
      for (size_t c : on) {
        if (c == cur) continue;
        if (best == cur) { best = c; continue; }
        Z o = Dot(Cross(Diff(p[cur], p[best]), Diff(p[cur], p[c])), pl.n);
        if (o < 0) best = c;
        else if (o == 0) {
          // farther one
          V3 db = Diff(p[cur], p[best]), dc = Diff(p[cur], p[c]);
          if (Dot(dc, dc) * p[best].w * p[best].w > Dot(db, db) * p[c].w * p[c].w) best = c;
        }
      }
      cur = best;
    } while (cur != start && ring.size() <= on.size());
    Facet f;
    f.v = ring;
    f.pl = pl;
    out->push_back(f);
  }
  return out->size() >= 4;
}

// Boundary of a set of grid cells, one unit square per exposed side.
using Cells = std::set<std::array<int, 3>>;
inline Mesh Voxels(const Cells& cells) {
  Mesh m;
  static const int D[6][3] = {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}};
  for (const auto& c : cells) for (auto& d : D) {
    if (cells.count({c[0] + d[0], c[1] + d[1], c[2] + d[2]})) continue;
    int axis = d[0] ? 0 : d[1] ? 1 : 2;
    int s = d[axis];
    int u = (axis + 1) % 3, w = (axis + 2) % 3;
    std::vector<Pt> v;
    static const int Q4[4][2] = {{0,0},{1,0},{1,1},{0,1}};
    for (int i = 0; i < 4; ++i) {
      int k = s > 0 ? i : 3 - i;
      int q[3];
      q[axis] = c[axis] + (s > 0);
      q[u] = c[u] + Q4[k][0];
      q[w] = c[w] + Q4[k][1];
      v.push_back(Pt(q[0], q[1], q[2]));
    }
    Facet f;
    MakeFacet(v, &f);
    m.push_back(f);
  }
  return m;
}

inline Mesh BoxMesh(const int lo[3], const int hi[3]) {
  std::vector<Pt> p;
  for (int i = 0; i < 8; ++i) p.push_back(Pt(i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2]));
  Mesh m;
  Hull(p, &m);
  return m;
}

// Applies an affine map x -> (A x + b) / den with det A > 0 or < 0 (the mesh
// is reversed in the second case).
struct Affine {
  Z a[3][3]; Z b[3]; Z den = 1;
  Affine() { for (int i = 0; i < 3; ++i) { b[i] = 0; for (int j = 0; j < 3; ++j) a[i][j] = i == j; } }
  Z Det() const {
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) +
           a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
  }
  Pt Map(const Pt& p) const {
    return Pt(a[0][0] * p.x + a[0][1] * p.y + a[0][2] * p.z + b[0] * p.w,
              a[1][0] * p.x + a[1][1] * p.y + a[1][2] * p.z + b[1] * p.w,
              a[2][0] * p.x + a[2][1] * p.y + a[2][2] * p.z + b[2] * p.w, den * p.w);
  }
};
inline void Apply(const Affine& t, Mesh& m) {
  bool rev = (t.Det() < 0) != (t.den < 0 && true);   // den^3 has den's sign
  Mesh r;
  for (Facet& f : m) {
    std::vector<Pt> v;
    for (Pt& p : f.v) v.push_back(t.Map(p));
    if (rev) std::reverse(v.begin(), v.end());
    Facet g;
    if (MakeFacet(v, &g)) r.push_back(g);
  }
  m = r;
}
inline Affine RandomAffine(Rng& r, int kind) {
  Affine t;
  for (;;) {
    if (kind == 0) {        // signed permutation of the axes
      int perm[3] = {0, 1, 2};
      for (int i = 2; i > 0; --i) std::swap(perm[i], perm[r.range(0, i)]);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        t.a[i][j] = perm[i] == j ? (r.chance(1, 2) ? 1 : -1) : 0;
    } else {
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.a[i][j] = r.range(-2, 2);
    }
    if (t.Det() != 0) break;
  }
  return t;
}

// Splits facets to change the subdivision without changing the surface.
inline void Subdivide(Rng& r, Mesh& m, int num, int den) {
  Mesh out;
  for (Facet& f : m) {
    if (!r.chance(num, den)) { out.push_back(f); continue; }
    size_t n = f.v.size();
    if (n > 3 && r.chance(1, 2)) {
      // fan from a random vertex
      size_t s = size_t(r.range(0, int(n) - 1));
      for (size_t i = 1; i + 1 < n; ++i) {
        Facet g;
        if (MakeFacet({f.v[s], f.v[(s + i) % n], f.v[(s + i + 1) % n]}, &g)) out.push_back(g);
      }
    } else {
      // fan from an inner point
      Pt c = Centroid3(f.v[0], f.v[n / 3 == 0 ? 1 : n / 3], f.v[n - 1]);
      Facet t;
      if (n == 3) c = Centroid3(f.v[0], f.v[1], f.v[2]);
      else c = Mid(f.v[0], f.v[n / 2]);
      bool ok = true;
      Mesh part;
      for (size_t i = 0; i < n; ++i)
        if (MakeFacet({c, f.v[i], f.v[(i + 1) % n]}, &t)) part.push_back(t); else ok = false;
      if (ok) out.insert(out.end(), part.begin(), part.end()); else out.push_back(f);
    }
  }
  m = out;
}

// The walnut polygon for a facet; the representation (scale and sign of
// denominators, scale of the plane, first vertex, drop dimension) is random.
inline HomoPoint3 ToPoint(Rng& r, const Pt& p, bool vary) {
  Z k = 1;
  if (vary) k = r.chance(1, 3) ? -r.range(1, 3) : r.range(1, 3);
  return HomoPoint3(FromZ(p.x * k), FromZ(p.y * k), FromZ(p.z * k), FromZ(p.w * k));
}
inline HalfSpace3 ToHalfSpace(const Plane& p, const Z& k = 1) {
  return HalfSpace3(FromZ(p.n.x * k), FromZ(p.n.y * k), FromZ(p.n.z * k), FromZ(p.d * k));
}
inline int PickDrop(Rng& r, const Plane& p) {
  std::vector<int> c;
  if (p.n.x != 0) c.push_back(0);
  if (p.n.y != 0) c.push_back(1);
  if (p.n.z != 0) c.push_back(2);
  return r.pick(c);
}
inline Poly ToPoly(Rng& r, const Facet& f, bool vary) {
  std::vector<HomoPoint3> v;
  size_t n = f.v.size(), s = vary ? size_t(r.range(0, int(n) - 1)) : 0;
  for (size_t i = 0; i < n; ++i) v.push_back(ToPoint(r, f.v[(s + i) % n], vary));
  return Poly(ToHalfSpace(f.pl, vary ? Z(r.range(1, 3)) : Z(1)), PickDrop(r, f.pl), v);
}

// ------------------------------------------------------------------ output
struct PtTab {
  std::map<Pt, int> idx;
  std::vector<Pt> pts;
  int Add(const Pt& p) {
    auto it = idx.find(p);
    if (it != idx.end()) return it->second;
    pts.push_back(p);
    idx[p] = int(pts.size());
    return int(pts.size());
  }
  int Add(const HomoPoint3& p) { return Add(Pt(p)); }
  std::string J() const { return Arr(pts, [](const Pt& p) { return p.J(); }); }
  // least common multiple of the denominators, and L / w per point
  Z Lcm() const {
    Z l = 1;
    for (const Pt& p : pts) l = l / Gcd(l, p.w) * p.w;
    return l;
  }
};

inline std::string PlaneJ(const HalfSpace3& h) {
  Z g = Gcd(Gcd(ToZ(h.x()), ToZ(h.y())), Gcd(ToZ(h.z()), ToZ(h.d())));
  if (g == 0) g = 1;
  return "[" + ZJ(Z(ToZ(h.x()) / g)) + "," + ZJ(Z(ToZ(h.y()) / g)) + "," + ZJ(Z(ToZ(h.z()) / g)) + "," +
         ZJ(Z(ToZ(h.d()) / g)) + "]";
}

template <typename P>
std::string FacetJ(PtTab& t, const P& p) {
  A v;
  for (size_t i = 0; i < p.vertex_count(); ++i) v(t.Add(p.vertex(i)));
  return O().raw("n", PlaneJ(p.plane())).raw("v", v.str()).str();
}

template <typename C>
std::string FacetsJ(PtTab& t, const C& polys) {
  return Arr(polys, [&](const typename C::value_type& p) { return FacetJ(t, p); });
}

// {"L": common multiple of the denominators (0 when too large), "m": L / w}
inline std::string LcmJ(const PtTab& t, unsigned max_bits) {
  Z l = t.Lcm();
  if (msb(l) > max_bits) return "\"L\":0,\"m\":[]";
  return "\"L\":" + ZJ(l) + ",\"m\":" + Arr(t.pts, [&](const Pt& p) { return ZJ(Z(l / p.w)); });
}

}  // namespace vt

#endif
