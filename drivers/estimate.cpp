// Histories of split cost estimates.  With --scripts every line is a list of
// calls, m and n, put to one estimator.
#include <fstream>

#include "geo.h"
#include "walnut/m_log_n_estimator.h"

using namespace vt;
using namespace walnut;

static std::vector<std::vector<int>> g_scripts;

static void Ask(Case& c, MLogNEstimator& e, size_t m, size_t n) {
  O o; o("op", "est")("m", m)("n", n);
  c.call(o);
  size_t val = e.Estimate(m, n);
  MLogNEstimator fresh;
  c.ev(o("val", val)("fresh", fresh.Estimate(m, n)));
}

// counts of every size, at and beside the places where the bit length changes
static size_t Count(Rng& r, int max_bits) {
  if (r.chance(1, 3)) return size_t(r.range(0, 40));
  int b = r.range(0, max_bits - 1);
  size_t v = size_t(1) << b;
  switch (r.range(0, 4)) {
    case 0: return v;
    case 1: return v - 1;
    case 2: return v + size_t(r.range(1, 3));
    case 3: return v + v / 2;
    default: {
      size_t x = (size_t(r.range(0, 1 << 30)) << 32) | size_t(r.range(0, 1 << 30));
      return v + x % v;
    }
  }
}

static void Random(Case& c) {
  Rng& r = c.rng;
  MLogNEstimator e, e2;
  bool far = r.chance(1, 3);
  for (int k = r.range(3, 12); k > 0; --k) {
    if (r.chance(1, 4)) {
      int b = far ? 50 : 12;
      size_t nt = Count(r, b), pt = Count(r, b);
      size_t ne = 0, pe = 0;
      if (r.chance(2, 3)) { ne = r.chance(1, 4) ? nt : Count(r, b) % (nt + 1); }
      if (r.chance(2, 3)) { pe = r.chance(1, 4) ? pt : Count(r, b) % (pt + 1); }
      auto side = [](size_t t, size_t x) { A a; a.raw(ZJ(Z(t))); a.raw(ZJ(Z(x))); return a.str(); };
      auto fresh = [](size_t t, size_t x) {
        MLogNEstimator f;
        A a; a.raw(ZJ(Z(t))); a.raw(ZJ(Z(t - x + 1))); a.raw(ZJ(Z(f.Estimate(t, t - x + 1))));
        return a.str();
      };
      O o; o("op", "split").raw("neg", side(nt, ne)).raw("pos", side(pt, pe));
      c.call(o);
      size_t val = GetSplitCost(nt, ne, pt, pe);
      c.ev(o.raw("fneg", fresh(nt, ne)).raw("fpos", fresh(pt, pe))("val", val));
      continue;
    }
    size_t n = Count(r, far ? 64 : 14), m;
    switch (r.range(0, 4)) {
      case 0: m = n; break;
      case 1: m = n < (size_t(1) << 61) ? 4 * n : n; break;
      case 2: m = n / 2; break;
      case 3: m = Count(r, far ? 57 : 14); break;
      default: m = n ? Count(r, 57) % n : 0; break;
    }
    if (m > (size_t(1) << 57)) m >>= 7;     // answers fit in 64 bits
    if (n == 0) m = 0;
    Ask(c, r.chance(1, 4) ? e2 : e, m, n);
  }
}

static void Run(Case& c, const Opts& o) {
  if (!o.scripts.empty()) {
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    MLogNEstimator e;
    for (size_t i = 0; i + 1 < s.size(); i += 2) Ask(c, e, size_t(s[i]), size_t(s[i + 1]));
  } else Random(c);
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { v.push_back(atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
