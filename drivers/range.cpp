// Concatenated and transformed ranges against plain sequences.  With --scripts
// every line builds up two ranges as the model says.
#include <deque>
#include <fstream>
#include <list>

#include "geo.h"
#include "walnut/concat_range.h"
#include "walnut/convex_polygon.h"
#include "walnut/transform_iterator.h"

using namespace vt;
using namespace walnut;

static std::vector<std::vector<int>> g_scripts;

// ------------------------------------------------------------ concatenation
template <typename C> struct Access { static const bool random = true; };
template <> struct Access<std::list<int>> { static const bool random = false; };

template <typename R, typename It, bool random>
struct Offsets {
  static std::string Plus(const std::vector<It>& at, size_t n) {
    A plus;
    for (size_t i = 0; i <= n; ++i) {
      A row;
      for (size_t k = 0; i + k <= n; ++k) {
        It it = at[i] + k;
        int p = -1;
        for (size_t j = 0; j <= n; ++j) if (at[j] == it) p = int(j);
        row(p);
      }
      plus.raw(row.str());
    }
    return plus.str();
  }
  static std::string At(const std::vector<It>& at, size_t n) {
    A a;
    for (size_t i = 0; i <= n; ++i) {
      A row;
      for (size_t k = 0; i + k < n; ++k) row(at[i][k] == *(at[i] + k) ? at[i][k] : -1);
      a.raw(row.str());
    }
    return a.str();
  }
};
template <typename R, typename It>
struct Offsets<R, It, false> {   // no offsets for lists: what stepping gives
  static std::string Plus(const std::vector<It>& at, size_t n) {
    A plus;
    for (size_t i = 0; i <= n; ++i) { A row; for (size_t k = 0; i + k <= n; ++k) row(int(i + k)); plus.raw(row.str()); }
    (void)at;
    return plus.str();
  }
  static std::string At(const std::vector<It>& at, size_t n) {
    A a;
    for (size_t i = 0; i <= n; ++i) { A row; for (size_t k = 0; i + k < n; ++k) row(*at[i + k]); a.raw(row.str()); }
    return a.str();
  }
};

template <typename C>
struct Ranges {
  using It = typename C::iterator;
  using Range = ConcatRange<It>;
  using Iter = typename Range::iterator;
  using CIter = typename Range::const_iterator;
  using Range2 = ConcatRange<Iter>;
  C base;
  Range r[2];
  Range2 r2;
  size_t len[3] = {0, 0, 0};

  template <typename F> void With(int k, F f) { if (k == 3) f(r2); else f(r[k - 1]); }

  Iter Step(int k, size_t i) {
    Iter it;
    if (k == 3) it = r2.begin(); else it = r[k - 1].begin();
    for (; i; --i) ++it;
    return it;
  }
  void Look(int k, O& o) {
    With(k, [&](auto& x) {
      const auto& cx = x;
      size_t n = len[k - 1];
      A fwd, bwd, cfwd, rfwd, crfwd, same;
      std::vector<Iter> at;
      size_t guard = 0;
      for (Iter i = x.begin(); i != x.end() && guard < 200; i++, ++guard) { fwd(*i); at.push_back(i); }
      at.push_back(x.end());
      for (CIter i = cx.begin(); i != cx.end() && guard < 400; ++i, ++guard) cfwd(*i.operator->());
      for (Iter i = x.end(); i != x.begin() && guard < 600; ++guard) { if (guard % 2) --i; else { Iter old = i--; if (old == i) { bwd(-7); } } bwd(*i); }
      for (auto i = x.rbegin(); i != x.rend() && guard < 800; ++i, ++guard) rfwd(*i);
      for (auto i = cx.rbegin(); i != cx.rend() && guard < 1000; ++i, ++guard) crfwd(*i);
      o.raw("fwd", fwd.str()).raw("bwd", bwd.str()).raw("cfwd", cfwd.str()).raw("rfwd", rfwd.str()).raw("crfwd", crfwd.str());
      if (at.size() != n + 1) { o.raw("same", "[]").raw("plus", "[]").raw("at", "[]"); return; }
      for (size_t i = 0; i <= n; ++i) {
        A row;
        for (size_t j = 0; j <= n; ++j) {
          CIter q(at[j]), q2;
          q2 = at[j];
          bool e = at[i] == at[j];
          row(e == (at[i] == q) && e == !(at[i] != at[j]) && e == (q2 == at[i]) && e == !(q != at[i]) ? e : !(i == j));
        }
        same.raw(row.str());
      }
      o.raw("same", same.str());
      o.raw("plus", Offsets<Range, Iter, Access<C>::random>::Plus(at, n));
      o.raw("at", Offsets<Range, Iter, Access<C>::random>::At(at, n));
    });
  }
  // how: 1 append base, 2 prepend base, 3 append of range `from`, 4 prepend, 5 clear
  void Change(Case& c, int how, int k, int a, int b, int from) {
    O o; o("op", "change")("how", how)("r", k)("from", from)("i", a)("j", b);
    std::vector<int> items;
    It lo = base.begin(), hi = base.begin();
    if (how <= 2) {
      int start = c.rng.range(0, int(base.size()) - a);
      std::advance(lo, start);
      hi = lo;
      std::advance(hi, a);
      for (It i = lo; i != hi; ++i) items.push_back(*i);
    }
    o.raw("items", IntArr(items));
    c.call(o);
    switch (how) {
      case 1: case 2:
        if (k == 3) return;
        if (how == 1) r[k - 1].Append(lo, hi); else r[k - 1].Prepend(lo, hi);
        len[k - 1] += items.size();
        break;
      case 3: case 4: {
        Iter s = Step(from, size_t(a)), e = s;
        for (int i = a; i < b; ++i) ++e;
        With(k, [&](auto& x) { if (how == 3) x.Append(s, e); else x.Prepend(s, e); });
        len[k - 1] += size_t(b - a);
        break;
      }
      default: With(k, [&](auto& x) { x.Clear(); }); len[k - 1] = 0; break;
    }
    Look(k, o);
    c.ev(o);
  }
  void Walk(Case& c, int k) {
    Rng& rr = c.rng;
    size_t n = len[k - 1];
    size_t z = size_t(rr.range(0, int(n)));
    O o; o("op", "walk")("r", k)("start", int(z)).raw("items", "[]");
    c.call(o);
    Iter it = Step(k, z);
    A w;
    for (int s = rr.range(3, 20); s > 0; --s) {
      int op = rr.range(0, 4), res = 0;
      auto read = [&](const Iter& i, size_t p) { return p < n ? *i : 0; };
      if (op == 1 && z < n) { ++it; ++z; res = read(it, z); }
      else if (op == 2 && z > 0) { --it; --z; res = read(it, z); }
      else if (op == 3 && z < n) { Iter old = it++; res = read(old, z); ++z; }
      else if (op == 4 && z > 0) { Iter old = it--; res = read(old, z); --z; }
      else { op = 0; res = read(it, z); }
      w.raw(IntArr(std::vector<int>{op, 0, res}));
    }
    c.ev(o.raw("walk", w.str()));
  }
  void Random(Case& c) {
    Rng& rr = c.rng;
    for (int s = rr.range(2, 14); s > 0; --s) {
      int k = rr.range(1, 3), how = rr.range(1, 5);
      if (how == 5 && !rr.chance(1, 4)) continue;
      if (how == 5) { Change(c, 5, k, 0, 0, 0); continue; }
      if (k == 3 && how <= 2) how += 2;
      if (how <= 2) { Change(c, how, k, rr.range(0, 3), 0, 0); }
      else {
        int from = k == 3 ? rr.range(1, 2) : 3 - k;
        int n = int(len[from - 1]);
        int a = rr.range(0, n), b = rr.range(a, n);
        if (len[k - 1] + size_t(b - a) > 9) continue;
        Change(c, how, k, a, b, from);
      }
      if (rr.chance(1, 3)) Walk(c, k);
    }
  }
  void Play(Case& c, const std::vector<int>& s) {
    for (size_t i = 0; i + 3 < s.size(); i += 4) Change(c, s[i], s[i + 1], s[i + 2], s[i + 3], s[i] == 3 || s[i] == 4 ? 3 - s[i + 1] : 0);
  }
  explicit Ranges(int n) { for (int i = 1; i <= n; ++i) base.push_back(i); }
};

// ------------------------------------------------------------ transformation
struct S { int v[3]; };
struct Field {   // the field is state of the transformer
  int k = 0;
  int& operator()(S& s) const { return s.v[k]; }
  const int& operator()(const S& s) const { return s.v[k]; }
};

template <typename It, typename CIt, typename Rd, typename V>
static void WalkFar(It&, const It&, const CIt&, int&, int&, int&, int&, int&, int, Rng&, Rd&, V&, std::false_type);
template <typename It, typename CIt, typename Rd, typename V>
static void WalkFar(It&, const It&, const CIt&, int&, int&, int&, int&, int&, int, Rng&, Rd&, V&, std::true_type);
template <bool random, typename It, typename CIt, typename Read>
static void WalkIt(Case& c, It first, CIt cfirst, const std::vector<int>& items, Read value) {
  Rng& r = c.rng;
  const int n = int(items.size());
  int z = r.range(0, n);
  O o; o("op", "walk")("r", 0)("start", z).raw("items", IntArr(items));
  c.call(o);
  It it = first;
  for (int i = 0; i < z; ++i) ++it;
  A w;
  for (int s = r.range(4, 24); s > 0; --s) {
    int op = r.range(0, random ? 12 : 4), res = 0, arg = 0, ok = 1;
    auto read = [&](const It& i, int p) { return p < n ? (r.chance(1, 2) ? value(*i) : value(*i.operator->())) : 0; };
    if (op == 1 && z < n) { It& x = ++it; ok = &x == &it; ++z; res = read(it, z); }
    else if (op == 2 && z > 0) { auto& x = --it; ok = static_cast<const void*>(&x) == static_cast<const void*>(&it); --z; res = read(it, z); }
    else if (op == 3 && z < n) { It old(it++); res = read(old, z); ++z; }
    else if (op == 4 && z > 0) { It old(it--); res = read(old, z); --z; }
    else if (op >= 5) {
      WalkFar(it, first, cfirst, op, arg, res, ok, z, n, r, read, value, std::integral_constant<bool, random>());
    } else { op = 0; res = read(it, z); }
    if (!ok) res = -1;
    w.raw(IntArr(std::vector<int>{op, arg, res}));
  }
  c.ev(o.raw("walk", w.str()));
}
template <typename It, typename CIt, typename Rd, typename V>
static void WalkFar(It& it, const It&, const CIt&, int& op, int&, int& res, int&, int& z, int, Rng&, Rd& read, V&, std::false_type) { op = 0; res = read(it, z); }
template <typename It, typename CIt, typename Rd, typename V>
static void WalkFar(It& it, const It& first, const CIt& cfirst, int& op, int& arg, int& res, int& ok, int& z, int n, Rng& r, Rd& read, V& value, std::true_type) {
  switch (op) {
    case 5: if (z == n) { op = 0; res = read(it, z); break; }
      arg = r.range(0, n - 1) - z; res = value(it[arg]); break;
    case 6: case 8: {
      int t = r.range(0, n); arg = t - z;
      if (op == 6) it = It(it + arg); else ok = static_cast<const void*>(&(it += arg)) == static_cast<const void*>(&it);
      z = t; res = read(it, z); break;
    }
    case 7: case 9: {
      int t = r.range(0, n); arg = z - t;
      if (op == 7) it = It(it - arg); else ok = static_cast<const void*>(&(it -= arg)) == static_cast<const void*>(&it);
      z = t; res = read(it, z); break;
    }
    case 10: {
      arg = r.range(0, n);
      It j = first;
      for (int i = 0; i < arg; ++i) ++j;
      CIt k = cfirst;
      for (int i = 0; i < arg; ++i) ++k;
      auto sign = [](bool eq, bool ne, bool lt, bool le, bool gt, bool ge) {
        if (eq && !ne && !lt && le && !gt && ge) return 0;
        if (!eq && ne && lt && le && !gt && !ge) return -1;
        if (!eq && ne && !lt && !le && gt && ge) return 1;
        return 7;
      };
      int a = sign(it == j, it != j, it < j, it <= j, it > j, it >= j);
      int b = sign(it == k, it != k, it < k, it <= k, it > k, it >= k);
      res = a == b ? a : 7;
      if (arg < n && value(*j) != value(*k)) res = 7;
      break;
    }
    case 11: {
      arg = r.range(0, n);
      It j = first;
      for (int i = 0; i < arg; ++i) ++j;
      CIt k = cfirst;
      for (int i = 0; i < arg; ++i) ++k;
      res = it - j == it - k ? int(it - j) : 1000;
      break;
    }
    default: {
      arg = r.range(0, n);
      It j = first;
      for (int i = 0; i < arg; ++i) ++j;
      if (r.chance(1, 2)) it = j; else std::swap(it, j);
      z = arg; res = read(it, z);
      break;
    }
  }
}

static void Transformed(Case& c) {
  Rng& r = c.rng;
  for (int rounds = r.range(1, 4); rounds > 0; --rounds) {
    int n = r.range(0, 7);
    std::vector<S> v;
    std::list<S> l;
    for (int i = 0; i < n; ++i) { v.push_back({{100 + i, 200 + i, 300 + i}}); l.push_back(v.back()); }
    Field f; f.k = r.range(0, 2);
    std::vector<int> items;
    for (auto& s : v) items.push_back(s.v[f.k]);
    auto value = [](int x) { return x; };
    using VI = std::vector<S>::iterator;
    using VC = std::vector<S>::const_iterator;
    switch (r.range(0, 4)) {
      case 0: {
        using T = TransformIterator<VI, Field>;
        using K = TransformIterator<VC, Field>;
        T first(v.begin(), f);
        WalkIt<true>(c, first, K(first), items, value);
        break;
      }
      case 1: {
        using T = TransformIterator<const S*, Field>;
        WalkIt<true>(c, T(v.data(), f), T(v.data(), f), items, value);
        break;
      }
      case 2: {
        using T = TransformIterator<std::list<S>::iterator, Field>;
        WalkIt<false>(c, T(l.begin(), f), T(l.begin(), f), items, value);
        break;
      }
      case 3: {   // a transformation of a concatenation
        ConcatRange<VI> cr;
        size_t cut = size_t(r.range(0, n));
        cr.Append(v.begin(), v.begin() + long(cut));
        cr.Append(v.begin() + long(cut), v.end());
        using T = TransformIterator<ConcatRange<VI>::iterator, Field>;
        WalkIt<false>(c, T(cr.begin(), f), T(cr.begin(), f), items, value);
        break;
      }
      default: {   // the vertices of a polygon
        std::vector<Pt> p;
        int k = r.range(3, 7);
        for (int i = 0; i < k; ++i) p.push_back(Pt(i, i * i, 0));
        Facet ft;
        if (!MakeFacet(p, &ft)) break;
        ConvexPolygon<> poly = ToPoly(r, ft, true);
        std::vector<int> xs;
        for (size_t i = 0; i < poly.vertex_count(); ++i) xs.push_back(int(Pt(poly.vertex(i)).x) + 1);
        auto val = [](const HomoPoint3& q) { return int(Pt(q).x) + 1; };
        using EI = ConvexPolygon<>::EdgeVector::const_iterator;
        using T = ConvexPolygonVertexIterator<EI>::Parent;
        WalkIt<true>(c, T(poly.edges().begin()), T(poly.edges().begin()), xs, val);
        break;
      }
    }
  }
}

static void Run(Case& c, const Opts& o) {
  if (!o.scripts.empty()) {
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    switch (c.id % 3) {
      case 0: { Ranges<std::vector<int>> x(9); x.Play(c, s); break; }
      case 1: { Ranges<std::deque<int>> x(9); x.Play(c, s); break; }
      default: { Ranges<std::list<int>> x(9); x.Play(c, s); break; }
    }
  } else if (o.mode == "transform") Transformed(c);
  else switch (c.id % 3) {
    case 0: { Ranges<std::vector<int>> x(9); x.Random(c); break; }
    case 1: { Ranges<std::deque<int>> x(9); x.Random(c); break; }
    default: { Ranges<std::list<int>> x(9); x.Random(c); break; }
  }
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { v.push_back(atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
