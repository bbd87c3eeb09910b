// Lists of the places where the facets of a node begin and end, and what axis
// splits do to them.
#include <cstring>
#include <fstream>

#include "scene.h"

#include "walnut/bsp_tree.h"
#include "walnut/polygon_event_point.h"

using namespace vt;
using namespace walnut;

using Node = BSPTree<>::BSPNodeRep;
using List = std::vector<PolygonEventPoint>;
using Rep = Node::PolygonRep;

static std::vector<std::vector<int>> g_scripts;

static std::string Rat(const Z& p, const Z& q) { return "[" + ZJ(p) + "," + ZJ(q) + "]"; }
static std::string FacetJ(const Rep& f) {
  A lo, hi;
  for (int d = 0; d < 3; ++d) {
    Z p[2], q[2];
    for (size_t i = 0; i < f.vertex_count(); ++i) {
      Z w = ToZ(f.vertex(i).w()), x = ToZ(f.vertex(i).vector_from_origin().components()[size_t(d)]);
      if (w < 0) { w = -w; x = -x; }
      Z g = Gcd(x, w); x /= g; w /= g;
      if (i == 0 || x * q[0] < p[0] * w) { p[0] = x; q[0] = w; }
      if (i == 0 || x * q[1] > p[1] * w) { p[1] = x; q[1] = w; }
    }
    lo.raw(Rat(p[0], q[0])); hi.raw(Rat(p[1], q[1]));
  }
  return O()("id", int(f.id) + 1).raw("lo", lo.str()).raw("hi", hi.str()).str();
}
static std::string FacetsJ(const std::vector<Rep>& v) {
  A a;
  for (auto& f : v) a.raw(FacetJ(f));
  return a.str();
}
static std::string ListJ(const List& l, size_t n) {
  A a;
  for (size_t i = 0; i < n; ++i) {
    const PolygonEventPoint& e = l[i];
    a.raw(std::string("[") + (e.start ? "true" : "false") + "," + (e.new_location ? "true" : "false") + "," +
          std::to_string((e.start ? e.index.partner : e.index.content) + 1) + "]");
  }
  return a.str();
}
static std::string ListsJ(const List l[3], size_t n) {
  A a;
  for (int d = 0; d < 3; ++d) a.raw(ListJ(l[d], n));
  return a.str();
}

struct Walk {
  Case& c;
  Rng& r;
  explicit Walk(Case& c) : c(c), r(c.rng) { }

  void Make(const std::vector<Rep>& f, List ev[3]) {
    for (int d = 0; d < 3; ++d) {
      ev[d].resize(f.size() * 2);
      MakeEventPoints(size_t(d), f, ev[d].data());
    }
    c.ev(O()("op", "make").raw("F", FacetsJ(f)).raw("ev", ListsJ(ev, f.size() * 2)));
  }
  static std::vector<size_t> Candidates(const List& ev, size_t n) {
    std::vector<size_t> v;
    for (size_t i = 0; i < n; ++i) if (!ev[i].start && (i + 1 == n || ev[i + 1].start)) v.push_back(i);
    return v;
  }
  static PolygonEventPointPartition At(const List& ev, size_t n, size_t i) {
    PolygonEventPointPartition p;
    p.split_index = i;
    p.cost = p.neg_cost = p.pos_cost = 0;
    p.neg_poly_count = 0;
    p.pos_poly_count = n / 2;
    for (size_t k = 0; k <= i; ++k) { if (ev[k].start) ++p.neg_poly_count; else --p.pos_poly_count; }
    return p;
  }
  bool Fresh(const std::vector<const HalfSpace3*>& anc, const HalfSpace3& h) {
    for (auto* a : anc) if (PlaneJ(*a) == PlaneJ(h) || PlaneJ(*a) == PlaneJ(-h)) return false;
    return true;
  }
  // force: axis and number of the place to split at, or -1
  void Rec(Node* n, List ev[3], std::vector<const HalfSpace3*> anc, int depth, int force_d, int force_k) {
    const size_t count = n->contents().size();
    if (count == 0) return;
    std::string fj = FacetsJ(n->contents());
    PolygonEventPointPartition best;
    int dim = 0;
    bool took = false;
    if (count <= 14) {
      size_t ex = size_t(-1), excount = 0;
      if (r.chance(2, 3)) {
        ex = n->contents()[size_t(r.range(0, int(count) - 1))].id;
        for (auto& f : n->contents()) excount += f.id == ex;
      }
      A at, cost, est;
      for (int d = 0; d < 3; ++d) {
        PolygonEventPointPartition p = GetLowestCost(ex, excount, n->contents(), ev[d].data());
        at(int(p.split_index + 1));
        cost(int(p.cost));
        if (d == 0 || p.cost < best.cost) { best = p; dim = d; took = true; }
      }
      for (size_t m = 0; m <= count; ++m) {
        A row;
        for (size_t k = 1; k <= count + 1; ++k) { MLogNEstimator e; row(int(e.Estimate(m, k))); }
        est.raw(row.str());
      }
      c.ev(O()("op", "best").raw("F", fj).raw("ev", ListsJ(ev, count * 2)).raw("at", at.str()).raw("cost", cost.str())
             ("ex", ex == size_t(-1) ? 0 : int(ex) + 1)("excount", int(excount)).raw("est", est.str()));
    }
    if (depth == 0) return;
    if (!took || force_d >= 0 || r.chance(1, 2)) {
      dim = force_d >= 0 ? force_d : r.range(0, 2);
      std::vector<size_t> v = Candidates(ev[dim], count * 2);
      if (force_k >= int(v.size())) return;
      best = At(ev[dim], count * 2, v[size_t(force_k >= 0 ? force_k : r.range(0, int(v.size()) - 1))]);
    }
    best.DiscountBorderPolygons(ev[dim].data(), count);
    if (best.split_index == 0) return;
    HalfSpace3 h = best.GetSplitPlane(dim, ev[dim].data(), n->contents());
    if (!Fresh(anc, h)) return;
    size_t extra = best.GetExtraPolygonCount(count);
    O o;
    o("op", "split").raw("F", fj)("d", dim + 1).raw("ev", ListJ(ev[dim], count * 2))("at", int(best.split_index) + 1);
    o.raw("counts", IntArr({int(best.neg_poly_count), int(best.pos_poly_count), int(best.border_poly_count)}));
    o("extra", int(extra))("begin", int(best.split_location_begin) + 1)("end", int(best.split_location_end));
    c.call(o);
    List neg[3], pos[3];
    std::vector<size_t> map;
    n->Split(best, dim, ev[dim], map, neg[dim]);
    pos[dim] = std::move(ev[dim]);
    pos[dim].resize(best.GetPosEventPointCount());
    std::vector<PolygonMergeEvent> heap;
    for (int i = 1; i < 3; ++i) {
      int d = (dim + i) % 3;
      neg[d].resize(best.GetNegEventPointCount());
      pos[d].resize(best.GetPosEventPointCount());
      best.ApplySecondary(d, map.size(), n->negative_child()->contents(), n->positive_child()->contents(), map.data(),
                          ev[d].data(), neg[d].data(), pos[d].data(), heap);
    }
    A mj;
    const size_t nc = n->negative_child()->contents().size();
    for (size_t e : map) {
      int a = 0, b = 0;
      if (e == size_t(-1)) { }
      else if (e < extra) a = b = int(e) + 1;
      else if (e < nc) a = int(e) + 1;
      else b = int(e - nc) + 1;
      mj.raw(IntArr({a, b}));
    }
    int on = 0;
    for (Node* k : {n->negative_child(), n->positive_child()})
      for (auto& f : k->border_contents()) on += f.on_node_plane.split == &n->split();
    auto kid = [&](Node* k, List* l, size_t m) {
      return O().raw("F", FacetsJ(k->contents())).raw("ev", ListsJ(l, m)).str();
    };
    o.raw("plane", PlaneJ(n->split())).raw("map", mj.str())("onplane", on);
    o.raw("neg", kid(n->negative_child(), neg, best.GetNegEventPointCount()));
    o.raw("pos", kid(n->positive_child(), pos, best.GetPosEventPointCount()));
    o("clean", n->contents().empty());
    c.ev(o);
    anc.push_back(&n->split());
    Rec(n->negative_child(), neg, anc, depth - 1, -1, -1);
    Rec(n->positive_child(), pos, anc, depth - 1, -1, -1);
  }
  void Start(const std::vector<std::pair<size_t, Poly>>& facets, size_t ids, int depth, int force_d, int force_k) {
    BSPTree<> t;
    for (size_t i = 0; i < ids; ++i) t.AllocateId();
    for (auto& f : facets) t.AddContent(f.first, f.second);
    List ev[3];
    Make(t.root.contents(), ev);
    Rec(&t.root, ev, {}, depth, force_d, force_k);
  }
};

static Poly Slab(Rng& r, const int x[2], const int y[2], const int perm[3]) {
  auto P = [&](int a, int b, int z) {
    int v[3];
    v[perm[0]] = a; v[perm[1]] = b; v[perm[2]] = z;
    return Pt(v[0], v[1], v[2]);
  };
  std::vector<Pt> v;
  if (x[0] == x[1]) v = {P(x[0], y[0], 0), P(x[0], y[1], 0), P(x[0], y[1], 1), P(x[0], y[0], 1)};
  else if (y[0] == y[1]) v = {P(x[0], y[0], 0), P(x[1], y[0], 0), P(x[1], y[0], 1), P(x[0], y[0], 1)};
  else v = {P(x[0], y[0], 0), P(x[1], y[0], 0), P(x[1], y[1], 1), P(x[0], y[1], 1)};
  if (r.chance(1, 3)) v.erase(v.begin() + 2 + r.range(0, 1));
  else if (r.chance(1, 3)) std::rotate(v.begin(), v.begin() + r.range(1, 3), v.end());
  if (r.chance(1, 2)) std::reverse(v.begin(), v.end());
  Facet f;
  MakeFacet(v, &f);
  return ToPoly(r, f, r.chance(1, 3));
}

static void Run(Case& c, const Opts& o) {
  Rng& r = c.rng;
  Walk w(c);
  std::vector<std::pair<size_t, Poly>> fs;
  if (!o.scripts.empty()) {
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    int perm[3] = {0, 1, 2};
    std::swap(perm[2], perm[r.range(0, 2)]);
    if (r.chance(1, 2)) std::swap(perm[0], perm[1]);
    for (size_t i = 0; i + 3 < s.size(); i += 4) fs.push_back({size_t(r.range(0, 1)), Slab(r, &s[i], &s[i + 2], perm)});
    // every first split of the model, then any
    for (int d = 0; d < 2; ++d) for (int k = 0; k < int(fs.size()); ++k) {
      List ev(fs.size() * 2);
      w.Start(fs, 2, 3, perm[d], k);
    }
    return;
  }
  size_t ids = size_t(r.range(1, 3));
  int want = o.mode == "many" ? r.range(20, 60) : r.range(1, 9);
  int kind = r.range(0, 3);
  bool vary = r.chance(1, 2);
  if (kind < 2) {
    Scene s = MakeScene(r, int(ids), true);
    for (size_t i = 0; i < ids; ++i) for (auto& f : s.mesh[i]) fs.push_back({i, ToPoly(r, f, vary)});
  } else {
    int grid = r.range(1, 4), perm[3] = {0, 1, 2};
    std::swap(perm[2], perm[r.range(0, 2)]);
    for (int i = 0; i < want; ++i) {
      int v[4];
      do {
        for (int k = 0; k < 4; ++k) v[k] = r.range(0, grid);
        for (int k = 0; k < 4; k += 2) if (v[k] > v[k + 1]) std::swap(v[k], v[k + 1]);
      } while (v[0] == v[1] && v[2] == v[3]);
      if (kind == 3 && r.chance(1, 2)) std::swap(perm[r.range(0, 2)], perm[r.range(0, 2)]);
      fs.push_back({size_t(r.range(0, int(ids) - 1)), Slab(r, v, v + 2, perm)});
    }
  }
  r.shuffle(fs);
  if (int(fs.size()) > want) fs.resize(size_t(want));
  w.Start(fs, ids, o.mode == "many" ? r.range(0, 1) : 3, -1, -1);
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { v.push_back(atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      if (!v.empty()) g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
