// Repair of meshes with facets that are not quite planar.  With --scripts every
// line is <<n, large, s1 .. sn>>: one facet with n corners, where s is 0 for a
// vertex that can be moved, and 1 + height for one that is on three planes.
#include <cmath>
#include <fstream>
#include "geo.h"
#include "vt.h"
#include "walnut/mesh_plane_repairer.h"

using namespace vt;
using namespace walnut;

static std::vector<std::vector<int>> g_scripts;
using Ids = std::vector<int>;

// points of a strictly convex polygon, counter clockwise
static std::vector<std::pair<long, long>> Outline(Rng& r, int n, long radius) {
  for (;;) {
    std::vector<double> a;
    for (int i = 0; i < n; ++i) a.push_back(6.283185307179586 * (i + r.range(-20, 20) / 100.0) / n);
    std::vector<std::pair<long, long>> p;
    for (double x : a) p.push_back({lround(radius * cos(x)), lround(radius * sin(x))});
    bool ok = true;
    for (int i = 0; i < n; ++i) {
      auto u = p[size_t(i)], v = p[size_t((i + 1) % n)], w = p[size_t((i + 2) % n)];
      __int128 t = __int128(v.first - u.first) * (w.second - v.second) - __int128(v.second - u.second) * (w.first - v.first);
      if (t <= 0) ok = false;
    }
    if (ok) return p;
  }
}

struct Test {
  Case& c;
  Rng& r;
  std::vector<Pt> in;
  std::vector<Ids> facets;
  double reach = 20;      // within this a vertex is told from others
  explicit Test(Case& c) : c(c), r(c.rng) { }

  int Add(Z x, Z y, Z z) { in.push_back(Pt(x, y, z)); return int(in.size()) - 1; }
  // triangles are never split: with one of its own every vertex can be told
  void Marks(long R) {
    int n0 = int(in.size());
    for (int i = 0; i < n0; ++i) {
      bool in_triangle = false;
      for (auto& f : facets) if (f.size() == 3) for (int x : f) in_triangle |= x == i;
      if (in_triangle) continue;
      Pt p = in[size_t(i)];
      int a = int(in.size());
      for (int k = 0; k < 2; ++k) in.push_back(Pt(p.x + r.range(-9, 9) * p.w * R, p.y + r.range(-9, 9) * p.w * R, p.z + r.range(1, 9) * p.w * R, p.w));
      V3 d = Cross(Diff(p, in[size_t(a)]), Diff(p, in[size_t(a) + 1]));
      if (d.x == 0 && d.y == 0 && d.z == 0) { in.pop_back(); in.pop_back(); continue; }
      facets.push_back({i, a, a + 1});
    }
  }
  void Solid() {
    int kind = r.range(0, 5), n = r.range(3, 7);
    static const long sizes[] = {12, 30, 100, 1000, 40000, 3000000, 1000000000};
    long R = sizes[r.range(0, 6)];
    auto p = Outline(r, n, R), q = Outline(r, n, R * r.range(5, 10) / 10);
    long h = R * r.range(5, 15) / 10;
    auto ring = [&](int from, bool up) { Ids f; for (int i = 0; i < n; ++i) f.push_back(from + (up ? i : n - 1 - i)); facets.push_back(f); };
    for (auto& x : p) Add(x.first, x.second, 0);
    switch (kind) {
      case 0: case 1: case 2:                 // prism or frustum
        for (auto& x : p) Add(kind ? x.first : x.first / 2, kind ? x.second : x.second / 2, h);
        ring(0, false); ring(n, true);
        for (int i = 0; i < n; ++i) facets.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
        break;
      case 3:                                 // antiprism
        for (int i = 0; i < n; ++i) {
          auto a = p[size_t(i)], b = p[size_t((i + 1) % n)];
          Add((a.first + b.first) * 6 / 10, (a.second + b.second) * 6 / 10, h);
        }
        ring(0, false); ring(n, true);
        for (int i = 0; i < n; ++i) {
          facets.push_back({i, (i + 1) % n, n + i});
          facets.push_back({(i + 1) % n, n + (i + 1) % n, n + i});
        }
        break;
      case 4:                                 // pyramid
        Add(0, 0, h);
        ring(0, false);
        for (int i = 0; i < n; ++i) facets.push_back({i, (i + 1) % n, n});
        break;
      default:                                // prism with a roof
        for (auto& x : p) Add(x.first, x.second, h);
        Add(0, 0, 2 * h);
        ring(0, false);
        for (int i = 0; i < n; ++i) facets.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
        for (int i = 0; i < n; ++i) facets.push_back({n + i, n + (i + 1) % n, 2 * n});
        break;
    }
    // turned, moved, and then off the planes by little
    Affine t;
    static const int turns[][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1, 1, 0, 0}, {-1, 0, 0, 0, -1, 0, 0, 0, 1},
                                   {2, 1, 2, -2, 2, 1, -1, -2, 2}, {6, 2, 3, 3, -6, -2, 2, 3, -6}, {0, 0, 1, 1, 0, 0, 0, 1, 0}};
    const int* m = turns[r.range(0, 5)];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t.a[i][j] = m[i * 3 + j];
    for (int i = 0; i < 3; ++i) t.b[i] = r.chance(1, 2) ? 0 : r.range(-3, 3) * Z(R);
    int off = r.range(0, 4);
    Z by = R >= 200 ? Z(R / 200) : Z(1), den = R >= 200 ? Z(1) : Z(256 / R + 1);
    if (r.chance(1, 3) && by > 1) by = 1;
    if (r.chance(1, 4)) den *= r.range(2, 50);
    for (Pt& x : in) {
      x = t.Map(x);
      if (off == 0 || !r.chance(off, 4)) continue;
      int k = int(by.convert_to<long>());
      x = Pt(x.x * den + r.range(-k, k) * x.w, x.y * den + r.range(-k, k) * x.w, x.z * den + r.range(-k, k) * x.w, x.w * den);
    }
    r.shuffle(facets);
    if (r.chance(1, 2)) Marks(R);
    reach = double(R) * (kind > 5 ? 1 : m[0] * m[0] + m[1] * m[1] + m[2] * m[2] > 9 ? 7 : 3) / 20;
    if (r.chance(1, 4)) for (auto& f : facets) std::reverse(f.begin(), f.end());
  }
  void Scripted(const std::vector<int>& s) {
    static const int corner[6][2] = {{0, 0}, {3, -1}, {6, 0}, {7, 3}, {4, 6}, {0, 4}};
    int n = s[0];
    Z k = 64;
    Z far = s[1] ? (Z(1) << 34) : Z(3);     // a plane away from the origin has a large distance
    std::vector<Ids> own;
    for (int i = 0; i < n; ++i) Add(corner[i][0] * k, corner[i][1] * k, far + (s[size_t(i) + 2] ? s[size_t(i) + 2] - 1 : r.range(-1, 1)));
    for (int i = 0; i < n; ++i) {
      Z x = in[size_t(i)].x, y = in[size_t(i)].y, z = in[size_t(i)].z - far;
      if (s[size_t(i) + 2]) {
        // three triangles that hold it; no one else uses their other corners
        int a = Add(x + 1, y, z + far + 30), b = Add(x, y + 1, z + far + 31), d = Add(x - 2, y + 3, z + far + 37);
        own.push_back({i, a, b});
        own.push_back({i, b, d});
        own.push_back({i, d, a});
      }
    }
    r.shuffle(own);
    facets = own;
    Ids f;
    for (int i = 0; i < n; ++i) f.push_back(i);
    facets.push_back(f);
    Marks(40);
  }

  void Go(bool rotate) {
    MeshPlaneRepairer<> rep;
    if (r.chance(1, 8)) {
      // cleared before use
      for (int i = 0; i < 3; ++i) rep.AddVertex(HomoPoint3(r.range(-9, 9), i, 1 - i * i, 1));
      if (r.chance(1, 2)) rep.FinishFacet();
      rep.Clear();
    }
    std::set<Pt> distinct(in.begin(), in.end());
    if (distinct.size() != in.size()) { c.ev(O()("op", "none")); return; }
    std::vector<bool> used(in.size());
    for (auto& f : facets) {
      if (rotate) std::rotate(f.begin(), f.begin() + r.range(0, int(f.size()) - 1), f.end());
      for (int i : f) used[size_t(i)] = true;
    }
    O o; o("op", "repair").raw("in", Arr(in, [](const Pt& p) { return p.J(); }));
    c.call(o);
    for (auto& f : facets) {
      for (int i : f) {
        HomoPoint3 p = ToPoint(r, in[size_t(i)], true);
        if (r.chance(1, 2)) rep.AddVertex(p); else rep.AddVertex(std::move(p));
      }
      rep.FinishFacet();
    }
    A has, absent;
    for (auto& p : in) has(rep.HasVertex(ToPoint(r, p, true)));
    for (int k = 0; k < 3; ++k) {
      Pt p = r.pick(in);
      Pt q(p.x + r.range(-1, 1), p.y + r.range(0, 1), p.z, p.w + r.range(0, 1));
      if (!distinct.count(q)) absent(rep.HasVertex(ToPoint(r, q, true)));
    }
    size_t unique = rep.GetUniqueVertexCount();
    bool valid = rep.IsValidState();
    auto prod = std::move(rep).FinalizeMesh();
    struct Out { std::string plane; std::vector<Pt> v; Ids id; };
    std::vector<std::vector<Out>> out(facets.size());
    bool grouped = true;
    std::vector<Out> all;
    while (prod.HasMorePolygons()) {
      typename MeshPlaneRepairerProducer<>::VertexIterator a, b;
      HalfSpace3 plane = prod.GetNextPolygon(a, b);
      Out x;
      x.plane = PlaneJ(plane);
      for (; a != b; ++a) x.v.push_back(Pt(*a));
      all.push_back(x);
    }
    size_t at = 0;
    for (size_t k = 0; k < facets.size(); ++k) {
      int need = int(facets[k].size()) - 2;
      while (need > 0 && at < all.size()) { need -= int(all[at].v.size()) - 2; out[k].push_back(all[at++]); if (int(out[k].back().v.size()) < 3) need = -1; }
      if (need != 0) grouped = false;
    }
    if (at != all.size()) grouped = false;
    // which vertex is which: by place in a facet that was not split, elsewhere
    // as the point that is known by then, or the nearest
    std::map<Pt, int> known;
    bool twice = false;
    auto dist = [&](const Pt& p, int i) {
      const Pt& q = in[size_t(i)];
      if (p.w == 0) return 1e300;
      double s = 0;
      Z pa[3] = {p.x, p.y, p.z}, qa[3] = {q.x, q.y, q.z};
      for (int j = 0; j < 3; ++j) { Z num = pa[j] * q.w - qa[j] * p.w; double d = (num.convert_to<double>() / p.w.convert_to<double>()) / q.w.convert_to<double>(); s += d * d; }
      return s;
    };
    for (size_t k = 0; k < facets.size(); ++k) if (out[k].size() == 1 && out[k][0].v.size() == facets[k].size()) {
      Out& x = out[k][0];
      size_t n = x.v.size(), best = 0;
      double least = 1e300;
      for (size_t s = 0; s < n; ++s) {
        double t = 0;
        for (size_t i = 0; i < n; ++i) t += std::min(1.0, dist(x.v[i], facets[k][(i + s) % n]) / (reach * reach));
        if (t < least) { least = t; best = s; }
      }
      for (size_t i = 0; i < n; ++i) { x.id.push_back(facets[k][(i + best) % n]);
        auto it = known.insert({x.v[i], x.id.back()}).first;
        if (it->second != x.id.back()) twice = true;
      }
    }
    // every vertex is known by its place, at a point of its own
    bool told = true, placed = true;
    std::map<int, Pt> where;
    for (auto& x : known) if (!where.insert({x.second, x.first}).second) placed = false;
    if (where.size() != in.size() || twice) placed = false;
    for (size_t k = 0; k < facets.size(); ++k) for (Out& x : out[k]) if (x.id.empty()) for (Pt& p : x.v) {
      auto it = known.find(p);
      if (it != known.end()) { x.id.push_back(it->second); continue; }
      int b = facets[k][0];
      for (int i : facets[k]) if (dist(p, i) < dist(p, b)) b = i;
      x.id.push_back(b);
      if (dist(p, b) > reach * reach) told = false;
    }
    if (twice || (!told && !placed)) { c.ev(O()("op", "none")); return; }
    PtTab t;
    A fs;
    for (size_t k = 0; k < facets.size(); ++k) {
      A ps, ring;
      for (int i : facets[k]) ring(i + 1);
      for (Out& x : out[k]) {
        A v, u;
        for (int i : x.id) v(i + 1);
        for (Pt& p : x.v) u(t.Add(p));
        ps.raw(O().raw("n", x.plane).raw("v", v.str()).raw("u", u.str()).str());
      }
      fs.raw(O().raw("r", ring.str()).raw("p", ps.str()).str());
    }
    c.ev(o("grouped", grouped)("told", placed).raw("f", fs.str()).raw("pts", t.J())("unique", int(unique))("valid", valid).raw("has", has.str()).raw("absent", absent.str()));
  }
};

static void Run(Case& c, const Opts& o) {
  Test t(c);
  if (!o.scripts.empty()) { t.Scripted(g_scripts[size_t(c.id)]); t.Go(false); }
  else { t.Solid(); t.Go(true); }
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { v.push_back(atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
