// Deeds.  With --scripts every line is a history of objects and deeds from the
// model; otherwise histories are random (mode hist) or deeds are held to the
// sides of polygons that are split, turned and moved (mode ring).
#include <fstream>
#include <memory>

#include "geo.h"
#include "walnut/connected_polygon.h"
#include "walnut/deed.h"

using namespace vt;
using namespace walnut;

struct Obj : DeedTarget {
  int tag = 0;
};

static DeedTarget* Reach(const GenericDeed& d) { return d.get(); }
static DeedTarget* Reach(const Deed<Obj>& d) {
  DeedTarget* p = d.get();
  const bool some = bool(d);
  if (some != (p != nullptr) || (d == nullptr) == some || (d != nullptr) != some || d.empty() == some) return reinterpret_cast<DeedTarget*>(1);
  if (p && (d.operator->() != p || &*d != p)) return reinterpret_cast<DeedTarget*>(1);
  return p;
}

template <typename D>
struct World {
  static const int N = 6;
  std::unique_ptr<Obj> o[N + 1];
  std::unique_ptr<D> h[N + 1];
  int tags = 0;

  ~World() {
    // deeds go before what they were lent by
    for (bool more = true; more;) {
      more = false;
      for (auto& d : h) if (d && !d->is_lender()) { d.reset(); more = true; }
    }
  }
  bool ObjAt(int a) const { return o[a] != nullptr; }
  bool DeedAt(int a) const { return h[a] != nullptr; }
  bool Free(int a) const { return h[a] && !h[a]->is_lender(); }

  bool Can(int k, int a, int b) const {
    switch (k) {
      case 1: return !ObjAt(a);
      case 2: return ObjAt(a);
      case 3: case 4: return ObjAt(a) && !ObjAt(b);
      case 5: case 6: return ObjAt(a) && ObjAt(b);
      case 7: return !DeedAt(a);
      case 8: case 9: return Free(a);
      case 10: case 11: return Free(a) && !DeedAt(b);
      case 12: case 13: return Free(a) && Free(b);
      default: return !DeedAt(a) && ObjAt(b);
    }
  }
  void Do(int k, int a, int b, int style) {
    switch (k) {
      case 1: o[a].reset(new Obj); o[a]->tag = ++tags; break;
      case 2: o[a].reset(); break;
      case 3: { const Obj& s = *o[a]; o[b].reset(new Obj(s)); break; }
      case 4: o[b].reset(new Obj(std::move(*o[a]))); break;
      case 5: { const Obj& s = *o[a]; *o[b] = s; break; }
      case 6: *o[b] = std::move(*o[a]); break;
      case 7: if (style & 1) h[a].reset(new D(static_cast<Obj*>(nullptr))); else h[a].reset(new D); break;
      case 8: h[a].reset(); break;
      case 9: h[a]->Return(); break;
      case 10: h[b].reset(new D(h[a]->Lend())); break;
      case 11: h[b].reset(new D(std::move(*h[a]))); break;
      case 12: h[b]->swap(*h[a]); break;
      case 13: *h[b] = std::move(*h[a]); break;
      case 14: h[a].reset(new D(o[b].get())); break;
    }
  }
  O Event(int k, int a, int b) const {
    A seen, lent;
    for (int i = 1; i <= N; ++i) {
      int s = -1, e = 0;
      if (h[i] && h[i]->is_lender()) e = 1;
      else if (h[i]) {
        DeedTarget* p = Reach(*h[i]);
        s = p ? -2 : 0;
        for (int j = 1; j <= N; ++j) if (o[j] && p == static_cast<DeedTarget*>(o[j].get())) s = j;
      }
      seen(s); lent(e);
    }
    return O()("op", "step").raw("s", IntArr(std::vector<int>{k, a, b})).raw("seen", seen.str()).raw("lent", lent.str());
  }
  void Step(Case& c, int k, int a, int b, int style) {
    c.call(O()("op", "step").raw("s", IntArr(std::vector<int>{k, a, b})));
    Do(k, a, b, style);
    c.ev(Event(k, a, b));
  }
};

static std::vector<std::vector<int>> g_scripts;

template <typename D>
static void Play(Case& c, const std::vector<int>& s) {
  World<D> w;
  for (size_t i = 0; i + 2 < s.size(); i += 3) w.Step(c, s[i], s[i + 1], s[i + 2], c.id / 2 + int(i));
}

template <typename D>
static void Random(Case& c) {
  Rng& r = c.rng;
  World<D> w;
  int no = r.range(1, 6), nh = r.range(2, 6);
  for (int n = r.range(5, 40); n > 0; --n) {
    for (int tries = 0; tries < 30; ++tries) {
      int k = r.range(1, 14);
      if ((k == 2 || k == 8 || k == 9) && r.chance(1, 2)) continue;
      int a = r.range(1, k <= 6 ? no : nh), b = 0;
      if (k >= 3 && k <= 6) b = r.range(1, no);
      else if (k >= 10 && k <= 13) b = r.range(1, nh);
      else if (k == 14) b = r.range(1, no);
      if (!w.Can(k, a, b)) continue;
      w.Step(c, k, a, b, r.range(0, 3));
      break;
    }
  }
}

using CP = ConnectedPolygon<>;

static void Ring(Case& c) {
  Rng& r = c.rng;
  std::vector<std::unique_ptr<CP>> polys;
  PtTab t;
  std::vector<std::pair<int, Pt>> at;
  std::vector<Deed<CP::EdgeRep>> deeds;
  for (int n = r.range(1, 3); n > 0; --n) {
    std::vector<Pt> v;
    int k = r.range(3, 6);
    Affine m = RandomAffine(r, 1);
    for (int i = 0; i < k; ++i) v.push_back(m.Map(Pt(i, i * i, 0)));
    Facet f;
    if (!MakeFacet(v, &f)) continue;
    std::vector<HomoPoint3> hv;
    for (auto& p : f.v) hv.push_back(ToPoint(r, p, true));
    polys.emplace_back(new CP(ToHalfSpace(f.pl), PickDrop(r, f.pl), hv));
    for (int i = 0; i < k; ++i) if (r.chance(2, 3)) {
      deeds.emplace_back(&polys.back()->edge(size_t(i)));
      at.push_back({int(polys.size()), Pt(polys.back()->vertex(size_t(i)))});
    }
  }
  std::vector<int> order;
  auto Seen = [&] {
    A s;
    for (auto& d : deeds) {
      int p = 0, v = 0;
      if (d.get()) for (size_t i = 0; i < polys.size(); ++i) if (polys[i])
        for (size_t k = 0; k < polys[i]->vertex_count(); ++k) if (&polys[i]->edge(k) == d.get()) {
          p = int(i) + 1;
          v = t.Add(Pt(d->vertex()));
          if (&d->polygon() != polys[i].get() || d->edge_index() != k) p = -1;
        }
      s.raw(IntArr(std::vector<int>{p, v}));
    }
    return s.str();
  };
  A a;
  for (auto& x : at) a.raw(IntArr(std::vector<int>{x.first, t.Add(x.second)}));
  c.ev(O()("op", "claim").raw("at", a.str()).raw("seen", Seen()));
  for (int n = r.range(1, 8); n > 0; --n) {
    size_t p = size_t(r.range(0, int(polys.size()) - 1));
    if (polys.empty() || !polys[p]) continue;
    A ren;
    int k = r.range(0, 4);
    c.call(O()("op", "ring")("k", k));
    if (k <= 1) {
      size_t e = size_t(r.range(0, int(polys[p]->vertex_count()) - 1));
      Pt q = Mid(Pt(polys[p]->vertex(e)), Pt(polys[p]->vertex((e + 1) % polys[p]->vertex_count())));
      polys[p]->SplitEdge(e, ToPoint(r, q, true));
    } else if (k == 2) {
      polys[p]->SortVertices();
    } else if (k == 3) {
      std::unique_ptr<CP> q(new CP(std::move(*polys[p]).GetRValueKey()));
      polys[p].reset();
      ren.raw(IntArr(std::vector<int>{int(p) + 1, int(polys.size()) + 1}));
      polys.push_back(std::move(q));
    } else {
      // deeds move about in their container; a loan is taken and given back
      deeds.reserve(deeds.capacity() + 1);
      for (auto& d : deeds) {
        Deed<CP::EdgeRep> x(std::move(d));
        if (r.chance(1, 2)) { Deed<CP::EdgeRep> y(x.Lend()); }
        d = std::move(x);
      }
    }
    c.ev(O()("op", "ring").raw("ren", ren.str()).raw("seen", Seen()));
  }
  deeds.clear();
}

static void Run(Case& c, const Opts& o) {
  if (!o.scripts.empty()) {
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    if (c.id % 2) Play<GenericDeed>(c, s); else Play<Deed<Obj>>(c, s);
  } else if (o.mode == "ring") Ring(c);
  else if (c.id % 2) Random<GenericDeed>(c);
  else Random<Deed<Obj>>(c);
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { v.push_back(atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
