// Boolean operations through the BSP tree.  One case is one scene: the same
// meshes are put into fresh trees in several orders and with several
// strategies, and traversed with several filters.
#include "filters.h"
#include "scene.h"

#include "walnut/bsp_traverser.h"
#include "walnut/bsp_tree.h"
#include "walnut/connecting_visitor.h"

using namespace vt;
using namespace walnut;

struct Tree {
  BSPTree<> t;
  Rng& r;
  Case& c;
  bool links = false, closed = true;
  Tree(Case& c, const std::string& mode) : r(c.rng), c(c), links(mode == "links") { c.ev(O()("op", "newtree")); }

  void Fill(std::vector<Mesh> ms, bool vary) {
    if (links && r.chance(1, 6)) {
      // remove some facets
      closed = false;
      int k = r.range(1, 2);
      for (int i = 0; i < k; ++i) {
        Mesh& m = ms[size_t(r.range(0, int(ms.size()) - 1))];
        if (m.size() > 1) m.erase(m.begin() + r.range(0, int(m.size()) - 1));
      }
    }
    std::vector<size_t> ids;
    for (size_t i = 0; i < ms.size(); ++i) ids.push_back(t.AllocateId());
    // optional splits before anything is added
    if (r.chance(1, 6)) PreSplit();
    // pieces of meshes in a random order
    struct Piece { size_t id; std::vector<const Facet*> f; };
    std::vector<Piece> pieces;
    bool one_by_one = r.chance(1, 6);
    for (size_t i = 0; i < ms.size(); ++i) {
      Piece p{i, {}};
      int parts = r.chance(1, 4) ? r.range(2, 3) : 1;
      for (const Facet& f : ms[i]) {
        if (parts > 1 && !p.f.empty() && r.chance(parts - 1, int(ms[i].size()))) { pieces.push_back(p); p.f.clear(); }
        p.f.push_back(&f);
      }
      pieces.push_back(p);
    }
    if (r.chance(3, 4)) r.shuffle(pieces);
    for (Piece& p : pieces) {
      std::vector<Poly> polys;
      for (const Facet* f : p.f) polys.push_back(ToPoly(r, *f, vary));
      PtTab tab;
      std::string fj = FacetsJ(tab, polys);
      O o; o("op", "add")("id", int(ids[p.id])).raw("f", fj).raw("pts", tab.J());
      c.call(O()("op", "add")("id", int(ids[p.id])));
      if (one_by_one) for (Poly& q : polys) t.AddContent(ids[p.id], q);
      else if (r.chance(1, 2)) t.AddContents(ids[p.id], polys);
      else t.AddContents(ids[p.id], std::move(polys));
      c.ev(o);
    }
  }
  void PreSplit() {
    // distinct planes on every path: one plane per axis
    std::vector<HalfSpace3> pl = {HalfSpace3(r.chance(1, 2) ? 1 : -1, 0, 0, r.range(-1, 2)),
                                  HalfSpace3(0, r.chance(1, 2) ? 2 : -1, 0, r.range(-1, 3)),
                                  HalfSpace3(1, r.range(-1, 1), 1, r.range(-1, 2))};
    int n = r.range(1, 3);
    std::vector<BSPTree<>::BSPNodeRep*> leaves{&t.root};
    for (int i = 0; i < n; ++i) {
      std::vector<BSPTree<>::BSPNodeRep*> next;
      for (auto* l : leaves) {
        if (i > 0 && r.chance(1, 3)) continue;
        l->Split(pl[size_t(i)]);
        next.push_back(l->negative_child());
        next.push_back(l->positive_child());
      }
      leaves = next;
    }
  }
  size_t PickKd() {
    static const size_t k[] = {6, 6, size_t(-1), 0, 1, 2, 12};
    return k[r.range(0, 6)];
  }

  // Partner of every side as <<facet, side>> (<<0, 0>>: none, <<-1, 0>>: not one
  // of the returned facets), and the line every side is on, numbered.
  template <typename C>
  static std::string LinksJ(const C& out) {
    std::map<std::array<Z, 6>, int> lines;
    A pt, ln;
    for (const auto& p : out) {
      A a, b;
      for (size_t i = 0; i < p.vertex_count(); ++i) {
        const auto* q = p.edge(i).partner();
        if (q == nullptr) a.raw("[0,0]");
        else {
          const auto* base = out.data();
          const auto* poly = &q->polygon();
          if (poly < base || poly >= base + out.size()) a.raw("[-1,0]");
          else a.raw("[" + std::to_string(poly - base + 1) + "," + std::to_string(q->edge_index() + 1) + "]");
        }
        Pt s(p.vertex(i)), e(p.vertex((i + 1) % p.vertex_count()));
        V3 d = Diff(s, e);
        Z g = Gcd(Gcd(d.x, d.y), d.z);
        if (g == 0) g = 1;
        if (d.x < 0 || (d.x == 0 && (d.y < 0 || (d.y == 0 && d.z < 0)))) g = -g;
        d = {d.x / g, d.y / g, d.z / g};
        V3 m = Cross(V3{s.x, s.y, s.z}, d);
        // m / s.w is the moment
        Z h = Gcd(Gcd(Gcd(m.x, m.y), m.z), s.w);
        if (h == 0) h = 1;
        std::array<Z, 6> key = {d.x * (s.w / h), d.y * (s.w / h), d.z * (s.w / h), m.x / h, m.y / h, m.z / h};
        auto it = lines.emplace(key, int(lines.size()) + 1).first;
        b(it->second);
      }
      pt.raw(a.str());
      ln.raw(b.str());
    }
    return "\"pt\":" + pt.str() + ",\"ln\":" + ln.str();
  }
  template <typename C>
  static std::string Links(const C&) { return "\"pt\":[]"; }
  static std::string Links(const std::vector<ConnectingVisitorOutputPolygon<>>& out) { return LinksJ(out); }

  template <typename C>
  void Log(const C& out, const F& f, const char* how, size_t kd, const std::vector<Pt>& queries, const char* key,
           size_t errors) {
    PtTab tab;
    std::string fj = FacetsJ(tab, out);
    std::vector<Pt> qs = queries;
    // near some output facets
    for (int i = 0; i < 2 && !out.empty(); ++i) {
      const auto& p = out[size_t(r.range(0, int(out.size()) - 1))];
      if (p.vertex_count() < 3) continue;
      std::vector<Pt> v;
      for (size_t j = 0; j < p.vertex_count(); ++j) v.push_back(Pt(p.vertex(j)));
      Plane pl{{ToZ(p.plane().x()), ToZ(p.plane().y()), ToZ(p.plane().z())}, ToZ(p.plane().d())};
      pl.Reduce();
      NearFacet(v, pl, Z(1) << r.range(8, 40), &qs);
    }
    for (int i = 0; i < 2 && !tab.pts.empty(); ++i) qs.push_back(r.pick(tab.pts));
    O o; o("op", closed ? "trav" : "open")("how", how)("kd", int(int64_t(kd))).raw("filter", f.j)("key", closed ? key : "")("errors", int(errors));
    o.raw("f", fj).raw("pts", tab.J());
    o.s += "," + LcmJ(tab, 300);
    if (links) o.s += "," + Links(out);
    o.raw("qs", Arr(qs, [](const Pt& p) { return p.J(); }));
    c.ev(o);
  }

  void Traverse(const F& f, const std::vector<Pt>& queries, const char* key, int how) {
    size_t kd = PickKd();
    c.call(O()("op", "trav")("how", how)("kd", int(int64_t(kd))).raw("filter", f.j));
    if (!Oriented(f) && links) return;
    if (how == 0 || !Oriented(f)) {
      CollectorVisitor<BSPTree<>::OutputPolygon, FilterFn> v(f.fn);
      t.Traverse(v, kd);
      Log(v.polygons(), f, "collect", kd, queries, key, 0);
    } else {
      FilterFn fn = f.fn;
      size_t errors = 0;
      ConnectingVisitor<FilterFn> v(fn, [&](const std::string&) { ++errors; });
      t.Traverse(v, kd);
      v.FilterEmptyPolygons();
      Log(v.polygons(), f, "connect", kd, queries, key, errors);
    }
  }
};

static void Run(Case& c, const Opts& o) {
  Rng& r = c.rng;
  int n = o.mode == "multi" ? r.range(3, 5) : r.chance(1, 12) ? 1 : r.chance(2, 3) ? 2 : r.range(3, 4);
  Scene s = MakeScene(r, n, true);
  bool vary = r.chance(1, 2);
  std::vector<Pt>& q = s.queries;
  auto How = [&] { if (o.mode == "links") return 1; bool x = r.chance(1, 3); return x && o.mode != "collect" ? 1 : 0; };
  if (n == 2) {
    {
      Tree t(c, o.mode);
      t.Fill(s.mesh, vary);
      struct Op { F f; const char* key; };
      std::vector<Op> ops;
      std::vector<int> i01 = {0, 1}, i10 = {1, 0};
      ops.push_back({r.chance(1, 2) ? OrF(PolyF(0), PolyF(1)) : IdsF("union", r.chance(1, 2) ? i01 : i10), "or"});
      ops.push_back({r.chance(1, 2) ? AndF(PolyF(0), PolyF(1)) : IdsF("isect", r.chance(1, 2) ? i01 : i10), "and"});
      ops.push_back({XorF(PolyF(0), PolyF(1)), "xor"});
      ops.push_back({PolyF(0), "a"});
      ops.push_back({PolyF(1), "b"});
      r.shuffle(ops);
      for (Op& op : ops) t.Traverse(op.f, q, op.key, How());
      if (r.chance(1, 3)) t.Traverse(XorF(OddF(0), OddF(1)), q, "", How());
    }
    {
      // Subtraction: the second mesh reversed.
      std::vector<Mesh> ms = s.mesh;
      Flip(ms[1]);
      Tree t(c, o.mode);
      t.Fill(ms, vary);
      std::vector<int> i01 = {0, 1};
      t.Traverse(r.chance(1, 2) ? SubF(PolyF(0), InvF(1)) : IdsF("sub", i01), q, "sub", How());
      if (r.chance(1, 3)) t.Traverse(r.chance(1, 2) ? XorF(PolyF(0), OddF(1)) : SubF(PolyF(0), InvF(1)), q, "", How());
    }
    if (o.mode != "links") c.ev(O()("op", "volumes"));
  } else {
    std::vector<Mesh> ms = s.mesh;
    // some meshes reversed
    std::vector<bool> flip;
    for (Mesh& m : ms) { flip.push_back(r.chance(1, 4)); if (flip.back()) Flip(m); }
    Tree t(c, o.mode);
    t.Fill(ms, vary);
    std::function<F(int)> Gen = [&](int depth) -> F {
      if (depth == 0 || r.chance(1, 5)) {
        int id = r.range(0, n - 1);
        if (flip[size_t(id)]) return r.chance(1, 3) ? OddF(id) : PolyF(id);
        return r.chance(1, 3) ? OddF(id) : PolyF(id);
      }
      F a = Gen(depth - 1);
      switch (r.range(0, 3)) {
        case 0: return AndF(a, Gen(depth - 1));
        case 1: return OrF(a, Gen(depth - 1));
        case 2: return XorF(a, Gen(depth - 1));
        default: {
          // subtract some reversed mesh, if there is one
          for (int i = 0; i < n; ++i) if (flip[size_t(i)]) return SubF(a, InvF(i));
          return AndF(a, Gen(depth - 1));
        }
      }
    };
    int k = r.range(2, 4);
    for (int i = 0; i < k; ++i) {
      F f = Gen(2);
      if (r.chance(1, 3)) {
        std::vector<int> ids;
        for (int j = 0; j < n; ++j) if (r.chance(3, 4)) ids.push_back(j);
        r.shuffle(ids);
        if (r.chance(1, 3)) {
          // subtract needs reversed meshes after the first
          std::vector<int> rest, ok;
          for (int j : ids) (flip[size_t(j)] ? rest : ok).push_back(j);
          if (!ok.empty()) { rest.insert(rest.begin(), ok[0]); f = IdsF("sub", rest); }
        } else f = IdsF(r.chance(1, 2) ? "union" : "isect", ids);
      }
      t.Traverse(f, q, "", How());
    }
  }
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
