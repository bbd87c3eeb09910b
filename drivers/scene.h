// Random scenes: closed meshes in many relative positions.
#ifndef VT_SCENE_H
#define VT_SCENE_H
#include "geo.h"

namespace vt {

struct Scene {
  std::vector<Mesh> mesh;      // outward oriented
  std::vector<Pt> queries;
  bool grid = false;
};

inline Cells RandomCells(Rng& r, int n, int density) {
  Cells c;
  while (c.empty())
    for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z)
      if (r.chance(density, 10)) c.insert({x, y, z});
  return c;
}
inline Cells BoxCells(Rng& r, int n) {
  Cells c;
  int lo[3], hi[3];
  for (int i = 0; i < 3; ++i) { lo[i] = r.range(0, n - 1); hi[i] = r.range(lo[i], n - 1); }
  for (int x = lo[0]; x <= hi[0]; ++x) for (int y = lo[1]; y <= hi[1]; ++y) for (int z = lo[2]; z <= hi[2]; ++z)
    c.insert({x, y, z});
  return c;
}

inline Mesh GridMesh(Rng& r, int n) {
  switch (r.range(0, 5)) {
    case 0: case 1: case 2: {
      int lo[3], hi[3];
      for (int i = 0; i < 3; ++i) { lo[i] = r.range(0, n - 1); hi[i] = r.range(lo[i] + 1, n); }
      return BoxMesh(lo, hi);
    }
    case 3: return Voxels(RandomCells(r, std::min(n, 3), r.range(1, 4)));
    case 4: { Cells c = BoxCells(r, n), d = BoxCells(r, n); c.insert(d.begin(), d.end()); return Voxels(c); }
    default: {
      Cells c = BoxCells(r, n);
      for (const auto& x : BoxCells(r, n)) if (c.size() > 1) c.erase(x);
      return Voxels(c);
    }
  }
}

inline Mesh HullMesh(Rng& r, int range) {
  Mesh m;
  for (;;) {
    int k = r.range(4, 8);
    std::vector<Pt> p;
    for (int i = 0; i < k; ++i) p.push_back(Pt(r.range(-range, range), r.range(-range, range), r.range(-range, range)));
    if (Hull(p, &m)) return m;
  }
}

inline Pt CellCenter(int x, int y, int z) { return Pt(2 * x + 1, 2 * y + 1, 2 * z + 1, 2); }

// kind: 0 grid, 1 hulls, 2 mixed with rational maps
inline Scene MakeScene(Rng& r, int nmesh, bool allow_overlap) {
  Scene s;
  int kind = r.range(0, 9);
  Affine t;
  int n = r.range(2, 3);
  if (kind < 5) {
    s.grid = true;
    for (int i = 0; i < nmesh; ++i) {
      Mesh m = i > 0 && r.chance(1, 12) ? s.mesh[size_t(r.range(0, i - 1))] : GridMesh(r, n);
      s.mesh.push_back(m);
    }
  } else {
    int range = r.range(1, 4);
    for (int i = 0; i < nmesh; ++i) {
      Mesh m;
      if (i > 0 && r.chance(1, 4)) {
        // share features with an earlier mesh
        const Mesh& o = s.mesh[size_t(r.range(0, i - 1))];
        switch (r.range(0, 3)) {
          case 0: m = o; break;
          case 1: { m = o; Affine a; a.b[r.range(0, 2)] = r.range(-2, 2); Apply(a, m); break; }
          case 2: {
            // hull over one facet of the other mesh and a new apex
            for (;;) {
              std::vector<Pt> p = r.pick(o).v;
              p.push_back(Pt(r.range(-range - 1, range + 1), r.range(-range - 1, range + 1), r.range(-range - 1, range + 1)));
              if (Hull(p, &m)) break;
            }
            break;
          }
          default: {
            for (;;) {
              std::vector<Pt> p;
              int k = r.range(4, 7);
              for (int j = 0; j < k; ++j)
                p.push_back(r.chance(1, 2) ? r.pick(r.pick(o).v)
                                           : Pt(r.range(-range, range), r.range(-range, range), r.range(-range, range)));
              if (Hull(p, &m)) break;
            }
          }
        }
      } else {
        m = r.chance(1, 6) ? GridMesh(r, 2) : HullMesh(r, range);
      }
      s.mesh.push_back(m);
    }
  }
  if (allow_overlap && r.chance(1, 8)) {
    // one mesh made of two overlapping shells
    size_t i = size_t(r.range(0, nmesh - 1));
    Mesh o = s.grid ? GridMesh(r, n) : HullMesh(r, 2);
    s.mesh[i].insert(s.mesh[i].end(), o.begin(), o.end());
  }
  // a common affine map
  bool mapped = r.chance(2, 5);
  if (mapped) {
    t = RandomAffine(r, r.range(0, 1));
    for (int i = 0; i < 3; ++i) t.b[i] = r.chance(1, 3) ? 0 : r.range(-5, 5);
    if (r.chance(1, 3)) t.den = r.range(1, 6);
    if (r.chance(1, 8)) {
      Z k = (Z(1) << r.range(20, 80)) + r.range(-3, 3);
      for (auto& row : t.a) for (Z& x : row) x *= k;
      for (Z& x : t.b) x = x * k + r.range(-1, 1);
    }
    for (Mesh& m : s.mesh) Apply(t, m);
  }
  for (Mesh& m : s.mesh) {
    if (r.chance(1, 3)) Subdivide(r, m, 1, 3);
    r.shuffle(m);
  }
  // queries
  if (s.grid && n <= 3) {
    std::vector<Pt> q;
    for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z) q.push_back(CellCenter(x, y, z));
    for (Pt& p : q) s.queries.push_back(mapped ? t.Map(p) : p);
  }
  std::vector<Pt> all;
  for (const Mesh& m : s.mesh) for (const Facet& f : m) all.insert(all.end(), f.v.begin(), f.v.end());
  for (int i = 0; i < (s.grid ? 3 : 8); ++i) {
    Pt a = r.pick(all), b = r.pick(all), c = r.pick(all);
    Pt q = r.chance(1, 4) ? a : r.chance(1, 2) ? Mid(a, b) : Centroid3(a, b, c);
    s.queries.push_back(q);
  }
  return s;
}

// Points around output facets: a facet's centroid moved a little off the
// plane in both directions.
inline void NearFacet(const std::vector<Pt>& v, const Plane& pl, const Z& inv_step, std::vector<Pt>* out) {
  Pt c = Centroid3(v[0], v[v.size() / 3 ? v.size() / 3 : 1], v[v.size() - 1]);
  for (int s = -1; s <= 1; s += 2) {
    // c + s * n / inv_step
    out->push_back(Pt(c.x * inv_step + s * pl.n.x * c.w, c.y * inv_step + s * pl.n.y * c.w,
                      c.z * inv_step + s * pl.n.z * c.w, c.w * inv_step));
  }
}

}  // namespace vt
#endif
