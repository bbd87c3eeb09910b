// Partition of the facets in one plane.  One case is a few runs of one
// partitioner, each over its own set of coplanar facets; the calls a visitor
// gets are logged one by one.
#include "geo.h"
#include "filters.h"

#include <deque>

#include "walnut/bsp_polygon.h"
#include "walnut/plane_partitioner.h"

using namespace vt;
using namespace walnut;

using Piece = BSPPolygon<>;

static std::string SplitJ(const SplitSide& s) { return s.split ? PlaneJ(*s.split) : std::string("[]"); }

static std::string PieceJ(PtTab& t, const Piece& p) {
  A v, sp;
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    v(t.Add(p.vertex(i)));
    const auto& e = p.edge(i);
    sp.raw(A().raw(SplitJ(e.edge_first_coincident)).raw(SplitJ(e.edge_last_coincident)).raw(SplitJ(e.vertex_last_coincident))
             (e.edge_first_coincident.split != e.edge_last_coincident.split).str());
  }
  return O().raw("n", PlaneJ(p.plane())).raw("v", v.str()).raw("sp", sp.str())("ok", p.IsValidState())("id", int(p.id)).str();
}

// Logs every call.  Answers so that every facet is wanted.
struct Everything : BSPVisitor<Piece> {
  std::vector<std::string> log;
  std::vector<Piece> got;
  PtTab* t;
  bool in = false;
  explicit Everything(PtTab* t) : t(t) { }
  std::pair<bool, bool> IsInside(const std::vector<BSPContentInfo>& info) override {
    in = !in;
    A pwn, has;
    for (auto& i : info) { pwn(int(i.pwn)); has(i.has_polygons()); }
    log.push_back(O()("op", "ask").raw("pwn", pwn.str()).raw("has", has.str()).str());
    return {in, true};
  }
  void EnterInteriorNode(bool part, const HalfSpace3& s) override { log.push_back(O()("op", "enter")("part", part).raw("h", PlaneJ(s)).str()); }
  void LeaveInteriorNode(bool part, const HalfSpace3& s) override { log.push_back(O()("op", "leave")("part", part).raw("h", PlaneJ(s)).str()); }
  void EnterLeafNode() override { log.push_back(O()("op", "leaf").str()); }
  void Accept(Piece&& p) override { log.push_back(O()("op", "accept").raw("f", PieceJ(*t, p)).str()); }
};

struct Filtered : BSPVisitor<Piece> {
  F f;
  PtTab* t;
  A acc;
  Filtered(F f, PtTab* t) : f(f), t(t) { }
  std::pair<bool, bool> IsInside(const std::vector<BSPContentInfo>& info) override { return f.fn(info); }
  void Accept(Piece&& p) override { acc.raw(PieceJ(*t, p)); }
};

struct Gen {
  Case& c;
  Rng& r;
  Pt o;
  V3 u, v;
  Z w;
  Plane pl;
  std::deque<HalfSpace3> keep;   // planes referred to by the facets
  std::vector<std::vector<std::pair<int, int>>> shapes;

  explicit Gen(Case& c) : c(c), r(c.rng) { }

  Pt At(const Z& x, const Z& y, const Z& k) const {   // (x, y) / k
    return Pt(o.x * k + u.x * x + v.x * y, o.y * k + u.y * x + v.y * y, o.z * k + u.z * x + v.z * y, w * k);
  }
  void NewPlane() {
    for (;;) {
      auto n = [&] { return Z(r.range(-2, 2)); };
      o = Pt(n(), n(), n(), 1);
      u = {n(), n(), n()}; v = {n(), n(), n()};
      if (r.chance(1, 3)) { u = {1, 0, 0}; v = {0, 1, 0}; if (r.chance(1, 2)) std::swap(u.x, u.z); }
      w = r.chance(1, 4) ? r.range(2, 3) : 1;
      if (PlaneOf(At(0, 0, 1), At(1, 0, 1), At(0, 1, 1), &pl)) return;
    }
  }
  // a convex outline on the lattice, counter clockwise
  std::vector<std::pair<int, int>> Shape() {
    int k = r.range(0, 9);
    if (!shapes.empty() && k < 2) return r.pick(shapes);
    if (!shapes.empty() && k < 4) {
      auto s = r.pick(shapes);
      int dx = r.range(-2, 2), dy = r.range(-2, 2);
      for (auto& p : s) { p.first += dx; p.second += dy; }
      return s;
    }
    if (k < 7) {
      int x = r.range(0, 4), y = r.range(0, 4), a = x + r.range(1, 4), b = y + r.range(1, 4);
      return {{x, y}, {a, y}, {a, b}, {x, b}};
    }
    for (;;) {
      std::vector<std::pair<int, int>> p, h;
      for (int i = r.range(3, 7); i > 0; --i) p.push_back({r.range(0, 7), r.range(0, 7)});
      std::sort(p.begin(), p.end());
      p.erase(std::unique(p.begin(), p.end()), p.end());
      auto turn = [](std::pair<int, int> a, std::pair<int, int> b, std::pair<int, int> d) {
        return (b.first - a.first) * (d.second - a.second) - (b.second - a.second) * (d.first - a.first);
      };
      for (int pass = 0; pass < 2; ++pass) {
        size_t base = h.size();
        for (auto& q : p) {
          while (h.size() >= base + 2 && turn(h[h.size() - 2], h.back(), q) <= 0) h.pop_back();
          h.push_back(q);
        }
        h.pop_back();
        std::reverse(p.begin(), p.end());
      }
      if (h.size() >= 3) return h;
    }
  }
  Facet ToFacet(const std::vector<std::pair<int, int>>& s, bool flip) {
    std::vector<Pt> p;
    for (auto& q : s) p.push_back(At(q.first, q.second, 1));
    for (size_t i = 0; i < p.size(); ++i)
      if (r.chance(1, 12)) { p.insert(p.begin() + long(i) + 1, Mid(p[i], p[(i + 1) % p.size()])); ++i; }
    if (flip) std::reverse(p.begin(), p.end());
    Facet f;
    MakeFacet(p, &f);
    return f;
  }

  void Run1(PlanePartitioner<Piece>& part) {
    bool collect = r.chance(2, 3);
    int n = r.chance(1, 8) ? r.range(7, 10) : r.range(0, 6);
    if (!collect && n > 5) n = 5;
    int drop = PickDrop(r, pl);
    bool pos = r.chance(1, 2);
    // the node plane the facets lie on
    keep.push_back(ToHalfSpace(pl, r.chance(1, 2) ? 1 : -1));
    const HalfSpace3* base = &keep.back();
    bool base_pos = r.chance(1, 2);
    // walls of the cell they are in
    std::vector<std::pair<const HalfSpace3*, bool>> clip;
    for (int i = r.chance(1, 2) ? 0 : r.range(1, 3); i > 0; --i) {
      Pt a = At(r.range(0, 7), r.range(0, 7), 1), b = At(r.range(0, 7), r.range(0, 7), 1);
      Pt top(r.range(-9, 9), r.range(-9, 9), r.range(-9, 9), 1);
      Plane h;
      if (pl.Side(top) == 0 || !PlaneOf(a, b, top, &h)) continue;
      keep.push_back(ToHalfSpace(h));
      clip.push_back({&keep.back(), r.chance(1, 2)});
    }
    std::vector<Piece> in;
    PtTab t;
    std::vector<std::string> fj;
    int ids = collect ? 0 : r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      auto s = Shape();
      shapes.push_back(s);
      Facet f = ToFacet(s, r.chance(1, 3));
      Piece p(collect ? in.size() : size_t(r.range(0, ids - 1)), base, base_pos, ToPoly(r, f, true));
      p.SetBoundaryAngles(SplitSide{base, base_pos}, 0, p.vertex_count() + 1);
      bool gone = false;
      for (auto& h : clip) {
        ConvexPolygonSplitInfo si = p.GetSplitInfo(*h.first);
        if (si.ShouldEmitNegativeChild() && si.ShouldEmitPositiveChild()) {
          auto ch = p.CreateSplitChildren(std::move(si));
          Piece::SetChildBoundaryAngles(ch, *h.first);
          p = h.second ? std::move(ch.second) : std::move(ch.first);
        } else if (si.ShouldEmitNegativeChild() != h.second) {
          p.SetBoundaryAngles(SplitSide{h.first, h.second}, h.second ? si.pos_range() : si.neg_range());
        } else { gone = true; break; }
      }
      if (!gone) { fj.push_back(PieceJ(t, p)); in.push_back(p); }
    }
    n = int(in.size());
    int nid = collect ? n : ids;
    std::vector<BSPContentInfo> info;
    A pwn0;
    for (int i = 0; i < nid; ++i) {
      BSPContentInfo x;
      x.pwn = r.range(-2, 2);
      for (auto& p : in) if (int(p.id) == i) x.has_border_polygons = 1;
      info.push_back(x);
      pwn0(int(x.pwn));
    }
    O call;
    call("op", "run").raw("pts", t.J());
    c.call(call);
    std::vector<Piece> copy = in;
    bool moved = r.chance(1, 3);
    O o;
    if (collect) {
      PtTab out = t;
      Everything v(&out);
      if (moved) part.Run(std::make_move_iterator(in.begin()), std::make_move_iterator(in.end()), drop, pos, info, v);
      else part.Run(in.begin(), in.end(), drop, pos, info, v);
      o("op", "run").raw("pts", out.J()).raw("f", Arr(fj, [](const std::string& s) { return s; }))("drop", drop)("pos", pos)
        .raw("pwn", pwn0.str());
      o.s += "," + LcmJ(out, 4000);
      c.ev(o);
      for (auto& s : v.log) { O e; e.s = s.substr(0, s.size() - 1); c.ev(e); }
      O d;
      d("op", "done");
      bool same = true;
      if (!moved) for (size_t i = 0; i < in.size(); ++i) same = same && in[i] == copy[i] && in[i].id == copy[i].id;
      d("same", same);
      c.ev(d);
    } else {
      F f = RandomF(2, nid);
      Filtered v(f, &t);
      if (moved) part.Run(std::make_move_iterator(in.begin()), std::make_move_iterator(in.end()), drop, pos, info, v);
      else part.Run(in.begin(), in.end(), drop, pos, info, v);
      // points strictly inside facets, and anywhere
      std::vector<Pt> qs;
      for (auto& p : copy) {
        for (int k = 0; k < 3; ++k) {
          Z sx = 0, sy = 0, sz = 0, sw = 0;
          for (size_t i = 0; i < p.vertex_count(); ++i) {
            Pt a(p.vertex(i));
            Z m = r.range(1, 9);
            // weighted sum over a common denominator
            Z nw = sw == 0 ? a.w : sw * a.w;
            if (sw == 0) { sx = a.x * m; sy = a.y * m; sz = a.z * m; sw = a.w; total_ = m; }
            else { sx = sx * a.w + a.x * m * sw; sy = sy * a.w + a.y * m * sw; sz = sz * a.w + a.z * m * sw; sw = nw; total_ += m; }
          }
          qs.push_back(Pt(sx, sy, sz, sw * total_));
        }
      }
      for (int k = 0; k < 4; ++k) qs.push_back(At(r.range(0, 70) * 2 + 1, r.range(0, 70) * 2 + 1, 19));
      o("op", "filter").raw("pts", t.J()).raw("f", Arr(fj, [](const std::string& s) { return s; }))("drop", drop)("pos", pos)
        .raw("pwn", pwn0.str()).raw("filter", f.j).raw("acc", v.acc.str()).raw("qs", Arr(qs, [](const Pt& p) { return p.J(); }));
      c.ev(o);
    }
  }
  Z total_;
  F RandomF(int depth, int nid) {
    int id = r.range(0, nid);   // one may name a mesh without facets
    if (depth == 0 || r.chance(1, 2)) switch (r.range(0, 2)) { case 0: return PolyF(id); case 1: return InvF(id); default: return OddF(id); }
    F a = RandomF(depth - 1, nid), b = RandomF(depth - 1, nid);
    switch (r.range(0, 2)) { case 0: return AndF(a, b); case 1: return OrF(a, b); default: return XorF(a, b); }
  }
};

static void Run(Case& c, const Opts& o) {
  Gen g(c);
  PlanePartitioner<Piece> part;
  for (int k = c.rng.range(1, 4); k > 0; --k) {
    g.NewPlane();
    if (c.rng.chance(1, 2)) g.shapes.clear();
    g.Run1(part);
  }
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
