// Facet sides on the lines of a plane, paired by the edge line connector.
#include "geo.h"
#include <deque>

#include "walnut/connected_polygon.h"
#include "walnut/edge_line_connector.h"

using namespace vt;
using namespace walnut;

using CP = ConnectedPolygon<>;
using Edge = CP::EdgeRep;

// Directions around a line, counter clockwise.
static const int DIRS[16][2] = {{1, 0}, {3, 1}, {1, 1}, {1, 2}, {0, 1}, {-1, 3}, {-1, 1}, {-2, 1},
                                {-1, 0}, {-3, -1}, {-1, -1}, {-1, -2}, {0, -1}, {1, -3}, {1, -1}, {2, -1}};

struct Side { int line, t0, t1, dir; bool pos; };   // t0 < t1
struct Ln { int px, py, dx, dy; };

static std::vector<Side> Wedges(Rng& r, int line) {
  // columns along the line, each with wedges of solid
  std::vector<int> cols{r.range(0, 2)};
  for (int k = r.range(1, 4); k > 0; --k) cols.push_back(cols.back() + r.range(1, 3));
  std::map<std::pair<int, bool>, std::vector<bool>> cover;
  size_t n = cols.size() - 1;
  int some = r.range(2, 8);
  std::vector<int> use;
  for (int i = 0; i < some; ++i) use.push_back(r.range(0, 15));
  for (size_t c = 0; c < n; ++c) {
    if (r.chance(1, 8)) continue;
    std::vector<int> cut;
    for (int d : use) if (r.chance(3, 4)) cut.push_back(d);
    std::sort(cut.begin(), cut.end());
    cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    if (cut.size() < 2) continue;
    // walk around; wedges may touch
    std::vector<std::pair<int, int>> w;
    size_t m = cut.size(), start = size_t(r.range(0, int(m) - 1));
    for (size_t i = 0; i < m; ++i) {
      int a = cut[(start + i) % m], b = cut[(start + i + 1) % m];
      if (r.chance(1, 2)) w.push_back({a, b});
    }
    // thin leaves: a solid of zero or full angle at one direction
    for (auto& x : w) { cover[{x.first, false}].resize(n); cover[{x.first, false}][c] = true; cover[{x.second, true}].resize(n); cover[{x.second, true}][c] = true; }
  }
  std::vector<Side> out;
  for (auto& x : cover) {
    const std::vector<bool>& v = x.second;
    for (size_t i = 0; i < v.size();) {
      if (!v[i]) { ++i; continue; }
      size_t j = i + 1;
      while (j < v.size() && v[j] && r.chance(3, 4)) ++j;
      int a = cols[i], b = cols[j];
      while (b - a > 1 && r.chance(1, 4)) {
        int q = r.range(a + 1, b - 1);
        out.push_back({line, a, q, x.first.first, x.first.second});
        a = q;
      }
      out.push_back({line, a, b, x.first.first, x.first.second});
      i = j;
    }
  }
  return out;
}

static void Run(Case& c, const Opts&) {
  Rng& r = c.rng;
  EdgeLineConnector<> connector;
  for (int round = r.range(1, 4); round > 0; --round) {
    int nl = r.chance(1, 2) ? 1 : r.range(2, 3);
    std::vector<Ln> lines;
    std::vector<Side> sides;
    for (int i = 0; i < nl; ++i) {
      Ln l;
      for (;;) {
        l.dx = r.range(-2, 2); l.dy = r.range(-2, 2);
        if (i && r.chance(1, 2)) { int s = r.chance(1, 2) ? 1 : -1; l.dx = s * lines[0].dx; l.dy = s * lines[0].dy; }
        l.px = r.range(-2, 2); l.py = r.range(-2, 2);
        if (!l.dx && !l.dy) continue;
        bool dup = false;
        for (auto& k : lines) dup = dup || (k.dx * l.dy == k.dy * l.dx && (l.px - k.px) * k.dy == (l.py - k.py) * k.dx);
        if (!dup) break;
      }
      lines.push_back(l);
      std::vector<Side> s;
      if (r.chance(4, 5)) {
        s = Wedges(r, i);
        if (r.chance(1, 3)) for (int k = r.range(1, 3); k > 0 && !s.empty(); --k) {
          size_t q = size_t(r.range(0, int(s.size()) - 1));
          switch (r.range(0, 3)) {
            case 0: case 1: s.erase(s.begin() + long(q)); break;
            case 2: s[q].pos = !s[q].pos; break;
            default: s.push_back(s[q]); if (r.chance(2, 3)) s.back().dir = (s.back().dir + 1) % 16; break;
          }
        }
      } else {
        for (int k = r.range(1, 7); k > 0; --k) {
          int a = r.range(0, 5);
          s.push_back({i, a, a + r.range(1, 3), r.range(0, 15) & (r.chance(1, 2) ? 12 : 15), r.chance(1, 2)});
        }
      }
      sides.insert(sides.end(), s.begin(), s.end());
    }
    Affine m = RandomAffine(r, r.chance(1, 3) ? 0 : 1);
    if (r.chance(1, 3)) m.den = r.range(1, 5);
    for (auto& b : m.b) b = r.range(-5, 5);
    if (r.chance(1, 8)) {
      int s = r.range(20, 70);
      for (auto& row : m.a) for (auto& x : row) x = (x << s) + (x != 0 ? r.range(-1, 1) : 0);
      if (m.Det() == 0) continue;
    }
    const bool rev = m.Det() < 0;
    auto at = [&](const Side& s, const Z& t2) {   // t2 = 2 t
      const Ln& l = lines[size_t(s.line)];
      return Pt(2 * l.px + t2 * l.dx, 2 * l.py + t2 * l.dy, 0, 2);
    };
    bool vary = r.chance(1, 2);
    PtTab t;
    std::deque<CP> polys;
    struct In { size_t poly; Pt a, b; int line; };
    std::vector<In> in;
    // sometimes a facet carries several sides that follow each other
    std::vector<bool> used(sides.size());
    std::vector<size_t> order(sides.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (size_t i : order) {
      if (used[i]) continue;
      used[i] = true;
      std::vector<Side> run{sides[i]};
      while (r.chance(1, 3)) {
        bool more = false;
        for (size_t j = 0; j < sides.size() && !more; ++j)
          if (!used[j] && sides[j].line == run[0].line && sides[j].dir == run[0].dir && sides[j].pos == run[0].pos && sides[j].t0 == run.back().t1) {
            used[j] = true; more = true; run.push_back(sides[j]);
          }
        if (!more) break;
      }
      const Ln& l = lines[size_t(run[0].line)];
      const int* d = DIRS[run[0].dir];
      int apex = r.range(2 * run[0].t0 - 1, 2 * run.back().t1 + 1);
      Pt q = at(run[0], apex);
      int k = r.range(1, 2);
      q = Pt(q.x + q.w * (-l.dy) * d[0] * k, q.y + q.w * l.dx * d[0] * k, q.z + q.w * d[1] * k, q.w);
      std::vector<Pt> v{at(run[0], 2 * run[0].t0)};
      for (auto& s : run) v.push_back(at(s, 2 * s.t1));
      v.push_back(q);
      for (auto& p : v) p = m.Map(p);
      size_t n = run.size();
      // flipping the order of the vertices turns the direction along the line
      const bool flip = !run[0].pos != rev;
      if (flip) std::reverse(v.begin(), v.end());
      Facet f;
      if (!MakeFacet(v, &f)) return;
      for (size_t s = 0; s < n; ++s) {
        size_t e = flip ? s + 1 : s;
        in.push_back({polys.size(), v[e], v[e + 1], run[0].line});
      }
      std::vector<HomoPoint3> hv;
      size_t rot = size_t(r.range(0, int(v.size()) - 1));
      for (size_t s = 0; s < v.size(); ++s) hv.push_back(ToPoint(r, v[(rot + s) % v.size()], vary));
      polys.emplace_back(ToHalfSpace(f.pl, vary ? Z(r.range(1, 3)) : Z(1)), PickDrop(r, f.pl), hv);
    }
    if (in.empty()) continue;
    Plane pl;
    PlaneOf(m.Map(Pt(0, 0, 0)), m.Map(Pt(1, 0, 0)), m.Map(Pt(0, 1, 0)), &pl);
    auto find = [&](CP& p, const Pt& a) {
      for (size_t i = 0; i < p.vertex_count(); ++i) if (Pt(p.vertex(i)) == a) return i;
      return p.vertex_count();
    };
    std::vector<Deed<Edge>> deeds;
    for (auto& e : in) deeds.emplace_back(&polys[e.poly].edge(find(polys[e.poly], e.a)));
    for (int k = r.chance(1, 4) ? r.range(1, 2) : 0; k > 0; --k) deeds.emplace_back();
    r.shuffle(deeds);
    O o; o("op", "line");
    o.raw("in", Arr(in, [&](const In& e) {
      return O().raw("n", PlaneJ(polys[e.poly].plane()))("a", t.Add(e.a))("b", t.Add(e.b))("ln", e.line).str();
    }));
    { O call = o; call.raw("pts", t.J()); c.call(call); }
    int errors = 0;
    connector.ConnectUnsorted(deeds.begin(), deeds.end(), PickDrop(r, pl), [&](const std::string&) { ++errors; });
    deeds.clear();
    // the stretches of every side
    std::map<const void*, int> index;
    struct Out { size_t e; const Edge* edge; Pt a, b; };
    std::vector<Out> out;
    bool ok = true;
    for (size_t i = 0; i < in.size(); ++i) {
      CP& p = polys[in[i].poly];
      ok = ok && p.IsValidState();
      size_t k = find(p, in[i].a), n = p.vertex_count();
      for (size_t steps = 0; steps < n; ++steps) {
        const Edge& e = p.edge(k % n);
        Out x{i, &e, Pt(e.vertex()), Pt(p.vertex((k + 1) % n))};
        ok = ok && e.edge_index() == k % n && &e.polygon() == &p && e.line().IsCoincident(e.vertex()) && e.line().IsCoincident(p.vertex((k + 1) % n));
        out.push_back(x);
        index[static_cast<const CP::ConnectedEdgeRep*>(&e)] = int(out.size());
        if (x.b == in[i].b) break;
        ++k;
      }
    }
    o.raw("out", Arr(out, [&](const Out& x) {
      const CP::ConnectedEdgeRep* k = x.edge->partner();
      return O()("e", int(x.e) + 1)("a", t.Add(x.a))("b", t.Add(x.b))("k", k == nullptr ? 0 : index.count(k) ? index[k] : -1).str();
    }));
    o("errors", errors)("ok", ok).raw("pts", t.J());
    c.ev(o);
  }
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
