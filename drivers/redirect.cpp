// Handles that are redirected, and (mode map) the vertices of meshes mapped to
// floating point values.
#include <deque>
#include <fstream>
#include <memory>

#include "geo.h"
#include "walnut/connected_polygon.h"
#include "walnut/edge_line_connector.h"
#include "walnut/redirectable_value.h"
#include "walnut/vertex_double_point3_mapper.h"

using namespace vt;
using namespace walnut;

static int g_live = 0;
struct Val {
  explicit Val(int v) : v(v) { ++g_live; }
  Val(const Val& o) : v(o.v) { ++g_live; }
  ~Val() { --g_live; v = -99; }
  int v;
};
using Handle = RedirectableValue<Val>;

static std::vector<std::vector<int>> g_scripts;

struct World {
  std::deque<Handle> h;
  void Do(const int* s) {
    switch (s[0]) {
      case 1: h.emplace_back(s[2] ? s[2] : s[1]); break;
      case 2: if (s[1] % 2) h.emplace_back(h[size_t(s[2] - 1)]); else h.emplace_back(static_cast<const Handle&>(h[size_t(s[2] - 1)])); break;
      case 3: h[size_t(s[1] - 1)].Redirect(h[size_t(s[2] - 1)]); break;
      case 4: if (s[2] % 2) (*h[size_t(s[1] - 1)]).v = s[2]; else h[size_t(s[1] - 1)]->v = s[2]; break;
    }
  }
  int IndexOf(const Handle* p) const {
    for (size_t i = 0; i < h.size(); ++i) if (&h[i] == p) return int(i) + 1;
    return 0;
  }
  O Event(std::vector<int> s, bool constant) {
    if (s[0] == 1 && s[2] == 0) s[2] = s[1];
    A rep, read;
    bool eq = true;
    const std::deque<Handle>& k = h;
    for (size_t i = 0; i < h.size(); ++i) {
      const Handle* p = constant ? &k[i].primary() : &h[i].primary();
      rep(IndexOf(p));
      read(constant ? (*k[i]).v : h[i]->v);
      eq = eq && k[i]->v == (*k[i]).v && k[i].IsPrimary() == (p == &k[i]);
      for (size_t j = 0; j < h.size(); ++j) {
        bool same = p == &k[j].primary();
        eq = eq && (k[i] == k[j]) == same && (k[i] != k[j]) != same;
      }
    }
    return O()("op", "step").raw("s", IntArr(s)).raw("rep", rep.str()).raw("read", read.str())("eq", eq)("live", g_live);
  }
  void Step(Case& c, const std::vector<int>& s, bool constant) {
    c.call(O()("op", "step").raw("s", IntArr(s)));
    Do(s.data());
    c.ev(Event(s, constant));
  }
};

static void Random(Case& c) {
  Rng& r = c.rng;
  World w;
  g_live = 0;
  int limit = r.range(2, 9);
  bool constant = r.chance(1, 2);
  for (int n = r.range(4, 30); n > 0; --n) {
    int k = r.range(1, 8), m = int(w.h.size());
    std::vector<int> s;
    if (m == 0 || (k <= 2 && m < limit)) {
      if (m == 0 || k == 1 || r.chance(2, 3)) s = {1, m + 1, r.range(1, 50)};
      else s = {2, m + 1, r.range(1, m)};
    } else if (k == 3) s = {4, r.range(1, m), r.range(51, 99)};
    else s = {3, r.range(1, m), r.range(1, m)};
    w.Step(c, s, constant || r.chance(1, 2));
  }
}

// --------------------------------------------------------------- meshes
using CP = ConnectedPolygon<>;

// A numerator that is rounded like num over denom, but only just.
static BigInt NearBoundary(BigInt num, const BigInt& denom) {
  DoublePoint3 d = HomoPoint3(num, num, num, denom).GetDoublePoint3();
  for (int i = int(num.used_words() * BigInt::bits_per_word); i >= 0; --i)
    if (d == HomoPoint3(num + (BigInt(1) << size_t(i)), num, num, denom).GetDoublePoint3()) num += BigInt(1) << size_t(i);
  return num;
}

// The same point with other factors, so that conversion may round differently.
static HomoPoint3 Vary(Rng& r, const HomoPoint3& p) {
  static const int factors[] = {1, 7, 49, 343, 2401, 16807, 117649, 3, 9, 27, 81, 5, 25, 1000003};
  BigInt k(factors[r.range(0, 13)]);
  for (int i = r.range(0, 3); i > 0; --i) k *= BigInt(7);
  if (r.chance(1, 3)) k.Negate();
  return HomoPoint3(p.x() * k, p.y() * k, p.z() * k, p.w() * k);
}

static void MapMesh(Case& c) {
  Rng& r = c.rng;
  // fans of triangles in the plane z = 0, rims may be shared
  const int k = r.range(3, 7);
  BigInt w(BigInt(r.range(17, 60) * 2 + 1) << size_t(r.range(50, 64)));
  auto coord = [&](int m) {
    BigInt v = BigInt(m) << size_t(63);
    if (m == 0) return v;
    bool neg = m < 0;
    if (neg) v.Negate();
    if (r.chance(4, 5)) v = NearBoundary(v, w);
    if (neg) v.Negate();
    return v;
  };
  std::vector<HomoPoint3> pts;
  static const int dirs[8][2] = {{30, 0}, {21, 23}, {2, 31}, {-19, 22}, {-33, 3}, {-22, -23}, {1, -35}, {25, -24}};
  BigInt cx = coord(r.range(-3, 3) * 251), cy = coord(r.range(-3, 3) * 251), z(0);
  pts.emplace_back(cx, cy, z, w);
  int start = r.range(0, 7);
  std::vector<int> ds;
  for (int i = 0; i < k; ++i) ds.push_back((start + i * 8 / k) % 8);
  for (int d : ds) pts.emplace_back(cx + coord(dirs[d][0] * 60), cy + coord(dirs[d][1] * 60), z, w);
  const bool open = r.chance(1, 5);
  std::deque<CP> polys;
  struct Side { size_t poly, edge; int vertex; };
  std::vector<Side> sides;
  std::vector<std::array<int, 3>> tri;
  for (int i = 0; i < k; ++i) if (!(open && i == 0)) tri.push_back({0, 1 + i, 1 + (i + 1) % k});
  // a second layer outside the rim
  if (r.chance(1, 2)) {
    size_t base = pts.size();
    for (int d : ds) pts.emplace_back(cx + coord(dirs[d][0] * 200), cy + coord(dirs[d][1] * 200), z, w);
    for (int i = 0; i < k; ++i) {
      int a = 1 + i, b = 1 + (i + 1) % k, p = int(base) + i, q = int(base) + (i + 1) % k;
      if (r.chance(1, 2)) { tri.push_back({a, p, b}); tri.push_back({b, p, q}); }
      else { tri.push_back({a, p, q}); tri.push_back({a, q, b}); }
    }
  }
  HalfSpace3 plane(0, 0, 1, 0);
  bool same = r.chance(1, 10);
  for (auto& t : tri) {
    std::vector<HomoPoint3> v;
    for (int i : t) v.push_back(same ? pts[size_t(i)] : Vary(r, pts[size_t(i)]));
    polys.emplace_back(plane, 2, v);
    CP& p = polys.back();
    for (size_t e = 0; e < 3; ++e) for (int i : t) if (p.vertex(e) == pts[size_t(i)]) { sides.push_back({polys.size() - 1, e, i}); break; }
  }
  if (sides.size() != 3 * tri.size()) return;
  {
    std::vector<Deed<CP::EdgeRep>> deeds;
    for (auto& s : sides) deeds.emplace_back(&polys[s.poly].edge(s.edge));
    EdgeLineConnector<> connector;
    connector.ConnectUnsorted(deeds.begin(), deeds.end(), 2, [](const std::string&) {});
  }
  for (auto& p : polys) if (p.vertex_count() != 3) return;   // not joined side by side
  // the values, as handles in the order they come up
  std::vector<DoublePoint3> found;
  auto id = [&](const DoublePoint3& d, bool add) {
    for (size_t i = 0; i < found.size(); ++i) if (found[i] == d) return int(i) + 1;
    if (add) { found.push_back(d); return int(found.size()); }
    return 0;
  };
  int made = 0, merges = 0;
  std::vector<DoublePoint3> origin(1);
  auto factory = [&](const DoublePoint3& p) { origin.push_back(p); return ++made; };
  const int style = r.range(0, 2);
  auto merger = [&](RedirectableValue<int>& a, RedirectableValue<int>& b) {
    ++merges;
    if (style == 0 || (style == 1 && merges % 2)) a.Redirect(b); else b.Redirect(a);
  };
  VertexDoublePoint3Mapper<decltype(factory), decltype(merger)> mapper(factory, merger);
  std::vector<size_t> order(sides.size());
  for (size_t i = 0; i < order.size(); ++i) order[i] = i;
  if (r.chance(3, 4)) r.shuffle(order);
  auto rep = [&] {
    A a;
    for (auto& d : found) {
      auto it = mapper.map.find(d);
      int v = it == mapper.map.end() ? 0 : id(origin[size_t(*it->second)], false);
      a(v);
    }
    return a.str();
  };
  for (size_t i : order) {
    auto& e = polys[sides[i].poly].edge(sides[i].edge);
    DoublePoint3 dp = e.vertex().GetDoublePoint3();
    int d = id(dp, true), n = 0;
    const auto* next = e.GetNextAroundVertex();
    if (next != nullptr) {
      if (!(next->vertex() == e.vertex())) return;
      DoublePoint3 np = next->vertex().GetDoublePoint3();
      n = np == dp ? 0 : id(np, true);
    }
    c.call(O()("op", "map")("d", d)("next", n));
    int before = merges;
    auto& res = mapper.Map(e);
    c.ev(O()("op", "map")("d", d)("next", n).raw("rep", rep())("key", res.first == dp && mapper.map.size() == found.size())("merged", merges != before));
  }
  A vertex, read, ds2;
  for (auto& s : sides) {
    DoublePoint3 d = polys[s.poly].vertex(s.edge).GetDoublePoint3();
    vertex(s.vertex);
    read(*mapper.map.find(d)->second);
    ds2(id(d, false));
  }
  c.ev(O()("op", "ring").raw("vertex", vertex.str()).raw("read", read.str()).raw("d", ds2.str()));
}

static void Run(Case& c, const Opts& o) {
  if (!o.scripts.empty()) {
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    World w;
    g_live = 0;
    for (size_t i = 0; i + 2 < s.size(); i += 3) w.Step(c, {s[i], s[i + 1], s[i + 2]}, c.id % 2);
  } else if (o.mode == "map") MapMesh(c);
  else Random(c);
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { v.push_back(atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
