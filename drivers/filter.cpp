// Answers of the boolean filters.  With --scripts every line is one state of
// the walk model (winding numbers, undecided meshes) that all filters in a
// fixed list are asked about; otherwise states and filters are random.
#include <fstream>

#include "filters.h"

using namespace vt;
using namespace walnut;

static void Ask(Case& c, const std::vector<int>& w, const std::vector<bool>& open, const std::vector<F>& fs, int style) {
  std::vector<BSPContentInfo> info(w.size());
  for (size_t i = 0; i < w.size(); ++i) {
    info[i].pwn = w[i];
    if (open[i]) {
      int k = (style + int(i)) % 3;
      if (k != 1) info[i].has_interior_polygons = size_t(1 + (style & 4) * 3);
      if (k != 0) info[i].has_border_polygons = size_t(2 + (style & 8));
    }
  }
  A r, fj;
  for (const F& f : fs) {
    F g = f;
    c.call(O()("op", "ask").raw("filter", f.j));
    std::pair<bool, bool> p = g.fn(info);
    // asking again gives the same answer
    if (g.fn(info) != p) { r.raw("[2,2]"); fj.raw(f.j); continue; }
    A x; x(p.first)(p.second);
    r.raw(x.str());
    fj.raw(f.j);
  }
  A o;
  for (bool b : open) o(b);
  c.ev(O()("op", "ask").raw("w", IntArr(w)).raw("open", o.str()).raw("fs", fj.str()).raw("r", r.str()));
}

static std::vector<F> Fixed() {
  std::vector<F> atoms, fs;
  for (int i = 0; i < 3; ++i) { atoms.push_back(PolyF(i)); atoms.push_back(InvF(i)); atoms.push_back(OddF(i)); }
  fs = atoms;
  for (const F& a : atoms) for (const F& b : atoms) {
    fs.push_back(AndF(a, b)); fs.push_back(OrF(a, b)); fs.push_back(XorF(a, b)); fs.push_back(SubF(a, b));
  }
  std::vector<std::vector<int>> ls = {{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0}, {2, 1, 0}, {0, 2, 1}, {1, 3}, {3, 1}, {1, 1}, {0, 0, 2}};
  for (const auto& s : ls) for (const char* op : {"union", "isect", "sub"}) { fs.push_back(IdsF(op, s)); fs.push_back(IdsF(op, s, true)); }
  for (int k = 0; k < 4; ++k) for (int j = 0; j < 4; ++j) for (int x = 0; x < 3; ++x) {
    auto Bin = [](int k, F a, F b) { return k == 0 ? AndF(a, b) : k == 1 ? OrF(a, b) : k == 2 ? XorF(a, b) : SubF(a, b); };
    F z = x == 0 ? PolyF(2) : x == 1 ? InvF(2) : OddF(0);
    fs.push_back(Bin(k, Bin(j, PolyF(0), PolyF(1)), z));
    fs.push_back(Bin(k, z, Bin(j, InvF(1), PolyF(0))));
  }
  return fs;
}

static F RandomF(Rng& r, int n, int depth) {
  if (depth == 0 || r.chance(1, 5)) {
    int id = r.range(0, n);
    switch (r.range(0, 4)) {
      case 0: return PolyF(id);
      case 1: return InvF(id);
      case 2: return OddF(id);
      default: {
        std::vector<int> ids;
        int k = r.range(0, n);
        for (int i = 0; i < k; ++i) ids.push_back(r.range(0, n));
        return IdsF(r.chance(1, 3) ? "union" : r.chance(1, 2) ? "isect" : "sub", ids, r.chance(1, 2));
      }
    }
  }
  F a = RandomF(r, n, depth - 1), b = RandomF(r, n, depth - 1);
  switch (r.range(0, 3)) {
    case 0: return AndF(a, b);
    case 1: return OrF(a, b);
    case 2: return XorF(a, b);
    default: return SubF(a, b);
  }
}

static std::vector<std::vector<int>> g_scripts;

static void Run(Case& c, const Opts& o) {
  Rng& r = c.rng;
  if (!o.scripts.empty()) {
    static const std::vector<F> fixed = Fixed();
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    size_t n = s.size() / 2;
    std::vector<int> w(s.begin(), s.begin() + n);
    std::vector<bool> open;
    for (size_t i = n; i < s.size(); ++i) open.push_back(s[i] != 0);
    for (int style = 0; style < 3; ++style) {
      std::vector<F> fs;
      for (const F& f : fixed) if (o.tier == "thorough" || r.chance(1, 4)) fs.push_back(f);
      Ask(c, w, open, fs, style + (style == 2 ? 12 : 0));
      // meshes at the end that were never seen may be missing altogether
      if (!w.empty() && w.back() == 0 && !open.back()) { w.pop_back(); open.pop_back(); }
    }
    return;
  }
  int n = r.range(1, 6);
  for (int i = 0; i < 4; ++i) {
    std::vector<int> w;
    std::vector<bool> open;
    int k = r.range(0, n), opened = 0;
    for (int j = 0; j < k; ++j) {
      w.push_back(r.chance(3, 4) ? r.range(-1, 1) : r.chance(1, 2) ? r.range(-4, 4) : r.range(-1000000, 1000000));
      bool op = opened < 3 && r.chance(1, 2);
      open.push_back(op);
      opened += op;
    }
    std::vector<F> fs;
    for (int j = 0; j < 8; ++j) fs.push_back(RandomF(r, n, r.range(0, 3)));
    Ask(c, w, open, fs, r.range(0, 15));
  }
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    std::string line;
    while (std::getline(f, line)) {
      for (char& ch : line) if (!isdigit(ch) && ch != '-') ch = ' ';
      std::istringstream ss(line);
      std::vector<int> v;
      int x;
      while (ss >> x) v.push_back(x);
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
