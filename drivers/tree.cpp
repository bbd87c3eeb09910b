// Histories of one BSP tree: facets are added and leaves are split in any
// order; after some of the steps the whole tree is written down.
#include "scene.h"

#include "walnut/bsp_traverser.h"
#include "walnut/bsp_tree.h"
#include "walnut/polygon_event_point.h"

using namespace vt;
using namespace walnut;

using Node = BSPTree<>::BSPNodeRep;
using Path = std::vector<int>;

static std::string PathJ(const Path& p) { return IntArr(p); }

struct Hist {
  Case& c;
  Rng& r;
  BSPTree<> t;
  PtTab tab;
  size_t told = 0;                 // points already told
  struct Added { size_t id; Poly p; };
  std::vector<Added> added;
  std::vector<std::pair<Path, HalfSpace3>> splits;   // in preorder-compatible order
  bool closed = false;
  size_t nid = 0;

  explicit Hist(Case& c) : c(c), r(c.rng) { }

  std::string NewPts() {
    A a;
    for (; told < tab.pts.size(); ++told) a.raw(tab.pts[told].J());
    return a.str();
  }

  Node* At(const Path& p) {
    Node* n = &t.root;
    for (int b : p) n = b ? n->positive_child() : n->negative_child();
    return n;
  }
  void Leaves(Node* n, Path p, std::vector<Path>* out) {
    if (n->IsLeaf()) { out->push_back(p); return; }
    p.push_back(0); Leaves(n->negative_child(), p, out);
    p.back() = 1; Leaves(n->positive_child(), p, out);
  }

  // --- adding
  void Add(size_t id, std::vector<Poly> polys) {
    int how = r.range(0, 4);
    for (auto& p : polys) added.push_back({id, p});
    std::string fj = FacetsJ(tab, polys);
    O o; o("op", "add")("id", int(id))("how", how).raw("f", fj).raw("pts", NewPts());
    c.call(o);
    switch (how) {
      case 0: for (Poly& p : polys) t.AddContent(id, p); break;
      case 1: t.AddContents(id, polys); break;
      case 2: t.AddContents(id, std::move(polys)); break;
      case 3: for (Poly& p : polys) t.root.AddRootContent(id, std::move(p)); t.root.PushContentsToLeaves(); break;
      default: {
        std::vector<AABBConvexPolygon<>> v;
        for (Poly& p : polys) v.emplace_back(std::move(p));
        t.AddContents(id, v);
      }
    }
    c.ev(o);
  }
  // facets that were cut by another tree carry that tree's notes
  void AddFromTree(size_t id, const std::vector<Poly>& polys) {
    BSPTree<> o;
    size_t oid = o.AllocateId();
    o.AddContents(oid, polys);
    std::vector<Node*> leaves{&o.root};
    for (int k = r.range(1, 3); k > 0; --k) {
      Node* n = leaves[size_t(r.range(0, int(leaves.size()) - 1))];
      if (!n->IsLeaf() || n->contents().empty()) continue;
      n->Split();
      leaves.push_back(n->negative_child());
      leaves.push_back(n->positive_child());
    }
    std::vector<Node::PolygonRep> pieces;
    std::vector<Poly> plain;
    for (Node* n : leaves) if (n->IsLeaf()) {
      for (auto& p : n->contents()) pieces.push_back(p);
      for (auto& p : n->border_contents()) pieces.push_back(p);
    }
    for (auto& p : pieces) {
      std::vector<HomoPoint3> v;
      for (size_t i = 0; i < p.vertex_count(); ++i) v.push_back(p.vertex(i));
      plain.push_back(Poly(p.plane(), p.drop_dimension(), v));
      added.push_back({id, plain.back()});
    }
    std::string fj = FacetsJ(tab, plain);
    O e; e("op", "add")("id", int(id))("how", 5).raw("f", fj).raw("pts", NewPts());
    c.call(e);
    if (r.chance(1, 2)) t.AddContents(id, pieces);
    else t.AddContents(id, std::move(pieces));
    c.ev(e);
  }

  // --- splitting
  static bool Parallel(const HalfSpace3& a, const HalfSpace3& b) {
    return PlaneJ(a) == PlaneJ(b) || PlaneJ(a) == PlaneJ(-b);
  }
  bool Fresh(const Path& p, const HalfSpace3& h) {
    Node* n = &t.root;
    for (int b : p) {
      if (Parallel(n->split(), h)) return false;
      n = b ? n->positive_child() : n->negative_child();
    }
    return true;
  }
  HalfSpace3 RandomPlane(Node* n) {
    for (;;) {
      int k = r.range(0, 9);
      if (k < 3 && !n->contents().empty()) {
        const HalfSpace3& h = n->contents()[size_t(r.range(0, int(n->contents().size()) - 1))].plane();
        if (r.chance(1, 3)) return -h;
        return h;
      }
      if (k < 6 && tab.pts.size() >= 3) {
        Plane pl;
        size_t m = tab.pts.size() - 1;
        Pt a = tab.pts[size_t(r.range(0, int(m)))], b = tab.pts[size_t(r.range(0, int(m)))], d = tab.pts[size_t(r.range(0, int(m)))];
        if (r.chance(1, 4)) b = Mid(a, b);
        if (PlaneOf(a, b, d, &pl)) return ToHalfSpace(pl, r.chance(1, 2) ? 1 : r.range(1, 5));
        continue;
      }
      Plane pl;
      if (k < 8) {
        int ax = r.range(0, 2);
        pl.n = {0, 0, 0};
        (ax == 0 ? pl.n.x : ax == 1 ? pl.n.y : pl.n.z) = r.chance(1, 2) ? r.range(1, 3) : -r.range(1, 3);
      } else pl.n = {r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)};
      if (pl.n.x == 0 && pl.n.y == 0 && pl.n.z == 0) continue;
      if (tab.pts.size() && r.chance(2, 3)) {
        const Pt& p = tab.pts[size_t(r.range(0, int(tab.pts.size()) - 1))];
        pl.d = pl.n.x * p.x + pl.n.y * p.y + pl.n.z * p.z;
        pl.n = {pl.n.x * p.w, pl.n.y * p.w, pl.n.z * p.w};
      } else pl.d = r.range(-6, 6);
      return ToHalfSpace(pl);
    }
  }
  void Told(const Path& p, const char* how) {
    Node* n = At(p);
    splits.push_back({p, n->split()});
    c.ev(O()("op", "split").raw("path", PathJ(p)).raw("h", PlaneJ(n->split()))("how", how));
  }
  void SplitSome() {
    std::vector<Path> ls;
    Leaves(&t.root, {}, &ls);
    std::vector<Path> full;
    for (auto& p : ls) if (!At(p)->contents().empty()) full.push_back(p);
    Path p = full.empty() || r.chance(1, 6) ? ls[size_t(r.range(0, int(ls.size()) - 1))] : full[size_t(r.range(0, int(full.size()) - 1))];
    if (p.size() > 7) return;
    Node* n = At(p);
    int k = r.range(0, 5);
    if (n->contents().empty()) k = 0;
    if (k < 2) {
      HalfSpace3 h = RandomPlane(n);
      if (!Fresh(p, h)) return;
      c.call(O()("op", "split").raw("path", PathJ(p)).raw("h", PlaneJ(h))("how", "plane"));
      n->Split(h);
      Told(p, "plane");
    } else if (k < 4) {
      c.call(O()("op", "split").raw("path", PathJ(p))("how", "pick"));
      n->Split();
      Told(p, "pick");
    } else Kd(p, n, r.range(0, 2));
  }
  // the way BSPTraverser does it, down to depth more levels
  void Kd(Path p, Node* n, int depth) {
    std::vector<PolygonEventPoint> ev[3];
    for (int i = 0; i < 3; ++i) {
      ev[i].resize(n->contents().size() * 2);
      MakeEventPoints(i, n->contents(), ev[i].data());
    }
    KdRec(p, n, ev, depth);
  }
  void KdRec(Path p, Node* n, std::vector<PolygonEventPoint> ev[3], int depth) {
    O call; call("op", "split").raw("path", PathJ(p))("how", "kd");
    c.call(call);
    auto ex = n->GetCostExclude();
    if (r.chance(1, 2)) ex = std::make_pair(size_t(-1), size_t(0));
    PolygonEventPointPartition best = GetLowestCost(ex.first, ex.second, n->contents(), ev[0].data());
    int dim = 0;
    for (int i = 1; i < 3; ++i) {
      PolygonEventPointPartition alt = GetLowestCost(ex.first, ex.second, n->contents(), ev[i].data());
      if (alt.cost < best.cost) { best = alt; dim = i; }
    }
    best.DiscountBorderPolygons(ev[dim].data(), n->contents().size());
    if (best.split_index == 0 || best.split_index >= ev[dim].size()) return;
    HalfSpace3 h = best.GetSplitPlane(dim, ev[dim].data(), n->contents());
    if (!Fresh(p, h)) return;
    std::vector<size_t> map;
    std::vector<PolygonEventPoint> neg[3], pos[3];
    n->Split(best, dim, ev[dim], map, neg[dim]);
    Told(p, "kd");
    if (depth == 0) return;
    pos[dim] = std::move(ev[dim]);
    std::vector<PolygonMergeEvent> heap;
    for (int i = 1; i < 3; ++i) {
      int d = (dim + i) % 3;
      neg[d].resize(best.GetNegEventPointCount());
      pos[d].resize(best.GetPosEventPointCount());
      best.ApplySecondary(d, map.size(), n->negative_child()->contents(), n->positive_child()->contents(), map.data(),
                          ev[d].data(), neg[d].data(), pos[d].data(), heap);
    }
    Path q = p;
    q.push_back(0);
    if (!n->negative_child()->contents().empty()) KdRec(q, n->negative_child(), neg, depth - 1);
    q.back() = 1;
    if (!n->positive_child()->contents().empty()) KdRec(q, n->positive_child(), pos, depth - 1);
  }

  // --- writing it down
  std::string PieceJ(const std::vector<const HalfSpace3*>& anc, const Node::PolygonRep& p) {
    auto side = [&](const SplitSide& s) {
      if (s.split == nullptr) return std::string("[0,0]");
      int d = -1;
      for (size_t i = 0; i < anc.size(); ++i) if (anc[i] == s.split) d = int(i) + 1;
      return "[" + std::to_string(d) + "," + (s.pos_side ? "1" : "0") + "]";
    };
    A v, e;
    for (size_t i = 0; i < p.vertex_count(); ++i) {
      v(tab.Add(p.vertex(i)));
      const auto& x = p.const_edge(i);
      e.raw(A().raw(side(x.edge_created_by)).raw(side(x.edge_first_coincident)).raw(side(x.edge_last_coincident))
             .raw(side(x.vertex_last_coincident)).str());
    }
    bool ok = true;
    for (size_t i = 0; i < p.vertex_count(); ++i)
      ok = ok && p.edge(i).line().IsCoincident(p.vertex(i)) && p.edge(i).line().IsCoincident(p.vertex((i + 1) % p.vertex_count()));
    return O()("id", int(p.id)).raw("n", PlaneJ(p.plane())).raw("v", v.str()).raw("e", e.str()).raw("on", side(p.on_node_plane))("ok", ok).str();
  }
  void DumpNode(Node* n, Path p, std::vector<const HalfSpace3*> anc, A* out) {
    O o;
    o.raw("path", PathJ(p))("leaf", n->IsLeaf());
    A in, bo, pw, cs, bs;
    bool any = false;
    for (size_t i = 0; i < nid; ++i) {
      BSPContentInfo x = n->GetContentInfoForId(i);
      in(int(x.has_interior_polygons)); bo(int(x.has_border_polygons)); pw(int(n->GetPWNForId(i)));
    }
    (void)any;
    for (auto& q : n->contents()) cs.raw(PieceJ(anc, q));
    for (auto& q : n->border_contents()) bs.raw(PieceJ(anc, q));
    o.raw("in", in.str()).raw("bo", bo.str()).raw("pwn", pw.str()).raw("c", cs.str()).raw("b", bs.str());
    out->raw(o.str());
    if (n->IsLeaf()) return;
    anc.push_back(&n->split());
    p.push_back(0); DumpNode(n->negative_child(), p, anc, out);
    p.back() = 1; DumpNode(n->positive_child(), p, anc, out);
  }
  void Dump() {
    c.call(O()("op", "dump"));
    A nodes;
    DumpNode(&t.root, {}, {}, &nodes);
    // sample points
    A qs;
    std::vector<Pt> base = tab.pts;
    if (closed && !base.empty()) for (int k = 0; k < 10; ++k) {
      Pt a = r.pick(base), b = r.pick(base), d = r.pick(base);
      Pt q = r.chance(1, 3) ? Centroid3(a, b, d) : Mid(a, Mid(b, d));
      if (r.chance(1, 2)) q = Pt(q.x * 7 + r.range(-3, 3) * q.w, q.y * 7 + r.range(-3, 3) * q.w, q.z * 7 + r.range(-3, 3) * q.w, q.w * 7);
      qs.raw(q.J());
    }
    O o;
    o("op", "dump").raw("nodes", nodes.str()).raw("pts", NewPts())("closed", closed).raw("qs", qs.str());
    o.s += "," + LcmJ(tab, 3000);
    // the same facets and splits in another order
    BSPTree<> tw;
    for (size_t i = 0; i < nid; ++i) tw.AllocateId();
    bool late = r.chance(1, 2);   // all splits before or after the facets
    auto fill = [&] { for (auto& a : added) tw.AddContent(a.id, a.p); };
    if (late) fill();
    for (auto& s : splits) {
      Node* n = &tw.root;
      for (int b : s.first) n = b ? n->positive_child() : n->negative_child();
      n->Split(s.second);
    }
    if (!late) fill();
    A twin;
    std::vector<Path> ls;
    Leaves(&tw.root, {}, &ls);
    for (auto& p : ls) {
      Node* n = &tw.root;
      for (int b : p) n = b ? n->positive_child() : n->negative_child();
      A pw;
      for (size_t i = 0; i < nid; ++i) pw(int(n->GetPWNForId(i)));
      twin.raw(A().raw(PathJ(p)).raw(pw.str())(int(n->contents().size()))(int(n->border_contents().size())).str());
    }
    o.raw("twin", twin.str());
    c.ev(o);
  }
};

static bool RandomFacet(Rng& r, Facet* f, int range) {
  // a convex polygon: section of a hull or a facet of a hull
  Mesh m = HullMesh(r, range);
  *f = r.pick(m);
  if (r.chance(1, 4)) {
    // an extra vertex in the middle of a side
    size_t i = size_t(r.range(0, int(f->v.size()) - 1));
    Pt q = Mid(f->v[i], f->v[(i + 1) % f->v.size()]);
    f->v.insert(f->v.begin() + long(i) + 1, q);
  }
  return true;
}

static void History(Case& c) {
  Rng& r = c.rng;
  Hist h(c);
  h.closed = r.chance(2, 3);
  std::vector<std::pair<size_t, std::vector<Poly>>> todo;
  bool vary = r.chance(2, 3);
  if (h.closed) {
    int n = r.range(1, 3);
    Scene s = MakeScene(r, n, true);
    for (int i = 0; i < n; ++i) {
      size_t id = h.t.AllocateId();
      std::vector<Poly> part;
      for (auto& f : s.mesh[size_t(i)]) {
        part.push_back(ToPoly(r, f, vary));
        if (r.chance(1, 9)) { todo.push_back({id, part}); part.clear(); }
      }
      if (!part.empty()) todo.push_back({id, part});
    }
    if (r.chance(1, 2)) r.shuffle(todo);
  } else {
    int n = r.range(1, 8);
    Facet first, f;
    for (int i = 0; i < n; ++i) {
      if (i && r.chance(1, 4)) {
        f = first;
        Affine a;
        for (int k = 0; k < 3; ++k) a.b[k] = r.chance(1, 2) ? 0 : r.range(-2, 2);
        Mesh m{f};
        if (r.chance(1, 3)) Flip(m);
        Apply(a, m);
        f = m[0];
      } else RandomFacet(r, &f, r.range(1, 5));
      if (i == 0) first = f;
      todo.push_back({h.t.AllocateId(), {ToPoly(r, f, vary)}});
    }
  }
  h.nid = h.t.next_id();
  c.ev(O()("op", "begin")("closed", h.closed)("nid", int(h.nid)));
  size_t next = 0;
  int steps = r.range(3, 14);
  for (int k = 0; k < steps || next < todo.size(); ++k) {
    if (next < todo.size() && (k >= steps || r.chance(1, 2))) {
      if (r.chance(1, 5)) h.AddFromTree(todo[next].first, todo[next].second);
      else h.Add(todo[next].first, todo[next].second);
      ++next;
    } else h.SplitSome();
    if (!h.closed && r.chance(1, 12)) h.Dump();
  }
  for (int k = r.range(0, 4); k > 0; --k) h.SplitSome();
  h.Dump();
}

// The borders of nodes inside a box.
static void Borders(Case& c) {
  Rng& r = c.rng;
  for (int rep = r.range(1, 3); rep > 0; --rep) {
    BSPTree<> t;
    int range = r.range(1, 6);
    // the box: corners over a denominator
    Z den = r.chance(1, 3) ? r.range(1, 4) : 1;
    if (r.chance(1, 5)) den = -den;
    Z lo[3], hi[3];
    for (int i = 0; i < 3; ++i) {
      int a = r.range(-range, range), b = r.range(-range, range - 1);
      if (b >= a) ++b;
      lo[i] = std::min(a, b); hi[i] = std::max(a, b);
    }
    Vector3 vlo(FromZ(lo[0]), FromZ(lo[1]), FromZ(lo[2])), vhi(FromZ(hi[0]), FromZ(hi[1]), FromZ(hi[2]));
    AABB box = den > 0 ? AABB(vlo, vhi, FromZ(den)) : AABB(-vhi, -vlo, FromZ(-den));
    if (den < 0) { for (int i = 0; i < 3; ++i) { Z x = lo[i]; lo[i] = -hi[i]; hi[i] = -x; } den = -den; }
    auto corner = [&](int m) { return Pt(m & 1 ? hi[0] : lo[0], m & 2 ? hi[1] : lo[1], m & 4 ? hi[2] : lo[2], den); };
    auto inner = [&] {
      Z f = r.range(1, 12);
      Z x[3];
      for (int i = 0; i < 3; ++i) x[i] = lo[i] * f + (hi[i] - lo[i]) * r.range(0, int(f));
      return Pt(x[0], x[1], x[2], den * f);
    };
    auto somewhere = [&] {
      if (r.chance(1, 4)) return corner(r.range(0, 7));
      if (r.chance(3, 4)) return inner();
      return Pt(r.range(-2 * range, 2 * range), r.range(-2 * range, 2 * range), r.range(-2 * range, 2 * range), den);
    };
    // splits along one way, and a few beside it
    int depth = r.range(0, 6);
    Path path;
    std::vector<HalfSpace3> h;
    Node* n = &t.root;
    for (int d = 0; d < depth; ++d) {
      HalfSpace3 x;
      for (;;) {
        Plane pl;
        if (r.chance(1, 3)) {
          int ax = r.range(0, 2);
          pl.n = {ax == 0, ax == 1, ax == 2};
          Pt p = somewhere();
          pl.d = pl.n.x * p.x + pl.n.y * p.y + pl.n.z * p.z;
          pl.n = {pl.n.x * p.w, pl.n.y * p.w, pl.n.z * p.w};
          if (r.chance(1, 2)) { pl.n = {-pl.n.x, -pl.n.y, -pl.n.z}; pl.d = -pl.d; }
        } else if (!PlaneOf(somewhere(), somewhere(), somewhere(), &pl)) continue;
        x = ToHalfSpace(pl, r.chance(1, 2) ? 1 : r.range(1, 4));
        bool dup = false;
        for (auto& o : h) dup = dup || Hist::Parallel(o, x);
        if (!dup) break;
      }
      n->Split(x);
      h.push_back(x);
      path.push_back(r.chance(1, 2));
      n = path.back() ? n->positive_child() : n->negative_child();
    }
    if (r.chance(1, 3)) {
      HalfSpace3 x(1, 2, 3, 4);
      bool dup = false;
      for (auto& o : h) dup = dup || Hist::Parallel(o, x);
      if (!dup) n->Split(x);
    }
    std::vector<bool> way(path.begin(), path.end());
    A cuts;
    for (size_t i = 0; i < h.size(); ++i) cuts.raw(A().raw(PlaneJ(h[i]))(path[i]).str());
    A bl, bh;
    for (int i = 0; i < 3; ++i) { bl(lo[i]); bh(hi[i]); }
    std::string head = "\"cuts\":" + cuts.str() + ",\"lo\":" + bl.str() + ",\"hi\":" + bh.str() + ",\"den\":" + ZJ(den);
    for (int walls = 0; walls < 2; ++walls) {
      O call; call("op", walls ? "cell" : "sheets");
      call.s += "," + head;
      c.call(call);
      PtTab tab;
      std::string f;
      if (walls) {
        auto out = t.GetNodeBorder(way.begin(), way.end(), box);
        std::vector<const ConnectingVisitorOutputPolygon<>*> use;
        for (auto& p : out) if (p.vertex_count()) use.push_back(&p);
        f = Arr(use, [&](const ConnectingVisitorOutputPolygon<>* p) { return FacetJ(tab, *p); });
      } else {
        auto out = t.GetNodeBorderNoBoundWalls(way.begin(), way.end(), box);
        f = FacetsJ(tab, out);
      }
      A qs;
      for (int k = 0; k < 12; ++k) {
        Pt q = tab.pts.size() > 2 && r.chance(2, 3) ? Centroid3(r.pick(tab.pts), r.pick(tab.pts), r.pick(tab.pts)) : inner();
        if (r.chance(1, 3)) q = Mid(q, inner());
        qs.raw(q.J());
      }
      O o; o("op", walls ? "cell" : "sheets").raw("pts", tab.J()).raw("f", f).raw("qs", qs.str());
      o.s += "," + head;
      if (!walls) {
        // points on the planes
        A on;
        for (auto& x : h) {
          Poly p = box.IntersectPlane(x);
          A l;
          if (p.vertex_count() >= 3) for (int k = 0; k < 5; ++k) {
            size_t n = p.vertex_count();
            auto any = [&] { return Pt(p.vertex(size_t(r.range(0, int(n) - 1)))); };
            Pt q = Centroid3(any(), any(), any());
            if (r.chance(1, 2)) q = Mid(q, Centroid3(any(), any(), any()));
            l.raw(q.J());
          }
          on.raw(l.str());
        }
        o.raw("on", on.str());
      }
      c.ev(o);
    }
  }
}

static void Run(Case& c, const Opts& o) {
  if (o.mode == "border") return Borders(c);
  History(c);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
