// Conversions between doubles, rational points and integers.  With --scripts
// every line is m1 e1 m2 e2 g: two coordinates and a grain.
#include <cfloat>
#include <cmath>
#include <cstring>
#include <fstream>

#include "geo.h"
#include "walnut/aabb.h"
#include "walnut/double_point3.h"

using namespace vt;
using namespace walnut;

static std::vector<std::vector<int>> g_scripts;

// m * 2^e with 53 bits of m used where the range allows
static std::string DJ(double d) {
  int e = 0;
  Z m = 0;
  if (!std::isfinite(d)) return "[0,5000]";
  if (d == 0) e = -1074;
  else {
    double f = std::frexp(d, &e);
    m = Z((int64_t)std::ldexp(f, 53));
    e -= 53;
    while (e < -1074) { m /= 2; ++e; }   // subnormal: the bits shifted out are 0
  }
  A a; a.raw(ZJ(m)); a(e);
  return a.str();
}
static std::string LJ(long double d) {
  int e = 0;
  long double f = std::frexp(d, &e);
  Z m = Z(std::ldexp(f, 64));
  e -= 64;
  while (e < 0 && m % 2 == 0) { m /= 2; ++e; }   // integers: no digits after the point
  if (m == 0) e = 0;
  A a; a.raw(ZJ(m)); a(e);
  return a.str();
}
static std::string D3(const DoublePoint3& p) { A a; a.raw(DJ(p.x)); a.raw(DJ(p.y)); a.raw(DJ(p.z)); return a.str(); }
static std::string PJ(const HomoPoint3& p) { A a; a.raw(ZJ(p.x())); a.raw(ZJ(p.y())); a.raw(ZJ(p.z())); a.raw(ZJ(p.w())); return a.str(); }

static int64_t Bits(Rng& r, int n) {
  uint64_t v = 0;
  for (int i = 0; i < 4; ++i) v = (v << 16) | uint64_t(r.range(0, 65535));
  v &= (n >= 64 ? ~0ull : (1ull << n) - 1);
  switch (r.range(0, 4)) {
    case 0: v = n ? 1ull << (n - 1) : 0; break;
    case 1: v = (n >= 64 ? ~0ull : (1ull << n) - 1); break;
    case 2: if (n > 1) v |= 1ull << (n - 1); v &= ~((1ull << r.range(0, n)) - 1); break;
    default: break;
  }
  return int64_t(v);
}
static double Dbl(Rng& r, int spread) {
  if (r.chance(1, 12)) return r.chance(1, 2) ? 0.0 : -0.0;
  double m = double(Bits(r, r.range(1, 53)));
  int e;
  switch (spread) {
    case 0: e = r.range(-8, 4); break;
    case 1: e = r.range(-80, 40); break;
    case 2: e = r.range(-1074, 900); break;
    default: e = r.chance(1, 2) ? r.range(-1080, -1000) : r.range(900, 960); break;
  }
  double d = std::ldexp(m, e);
  if (r.chance(1, 30)) d = DBL_MAX;
  if (r.chance(1, 30)) d = DBL_MIN;
  if (r.chance(1, 30)) d = 4.9406564584124654e-324;
  return r.chance(1, 2) ? d : -d;
}
static BigInt Big(Rng& r, int words) {
  BigInt b(int64_t(Bits(r, r.range(1, 63))));
  for (int i = 1; i < words; ++i) {
    b = b << r.range(1, 64);
    switch (r.range(0, 3)) {
      case 0: break;
      case 1: b += BigInt(Bits(r, 62)); break;
      default: b += BigInt(Bits(r, r.range(1, 62))); break;
    }
  }
  if (r.chance(1, 6)) b = (BigInt(1) << r.range(1, 64 * words)) - BigInt(r.range(0, 2));
  if (b == 0) b = BigInt(1);
  return r.chance(1, 2) ? b : -b;
}

static void Exact(Case& c, double x, double y, double z) {
  O o; o("op", "exact").raw("d", D3(DoublePoint3(x, y, z)));
  c.call(o);
  HomoPoint3 p = c.rng.chance(1, 2) ? HomoPoint3::FromDoublesExact(x, y, z) : HomoPoint3::FromDoublePoint3Exact(DoublePoint3(x, y, z));
  A back;
  back.raw(D3(p.GetDoublePoint3()));
  HomoPoint3 q = p;
  q.Reduce();
  back.raw(D3(q.GetDoublePoint3()));
  BigInt k = Big(c.rng, c.rng.range(1, 3));
  back.raw(D3(HomoPoint3(p.x() * k, p.y() * k, p.z() * k, p.w() * k).GetDoublePoint3()));
  c.ev(o.raw("p", PJ(p)).raw("back", back.str()));
}
static std::string Multiple(const BigInt& n, const BigInt& w, int g) {   // n/w in units of 2^g
  Z a = ToZ(n), b = ToZ(w);
  if (g >= 0) b <<= g; else a <<= -g;
  return b == 0 ? "0" : ZJ(Z(a / b));
}
static void Quantize(Case& c, int g, double x, double y, double z) {
  O o; o("op", "quantize")("g", g).raw("d", D3(DoublePoint3(x, y, z)));
  c.call(o);
  HomoPoint3 p = HomoPoint3::FromDoubles(g, x, y, z);
  A k;
  k.raw(Multiple(p.x(), p.w(), g)); k.raw(Multiple(p.y(), p.w(), g)); k.raw(Multiple(p.z(), p.w(), g));
  c.ev(o.raw("p", PJ(p)).raw("k", k.str()));
}

static void Random(Case& c) {
  Rng& r = c.rng;
  for (int s = r.range(2, 6); s > 0; --s) {
    int spread = r.range(0, 3);
    switch (r.range(0, 6)) {
      case 0: case 1: Exact(c, Dbl(r, spread), Dbl(r, spread), Dbl(r, r.range(0, 3))); break;
      case 2: case 3: {
        double x = Dbl(r, spread), y = Dbl(r, spread), z = Dbl(r, spread);
        int g;
        switch (r.range(0, 4)) {
          case 0: g = -10; break;
          case 1: g = r.range(-5, 8); break;
          case 2: g = r.range(-1100, 1000); break;
          default: {   // around the bits of one of the coordinates
            int e = 0;
            std::frexp(x, &e);
            g = e - r.range(-3, 66);
            break;
          }
        }
        if (r.chance(1, 3)) x = (std::floor(std::ldexp(Dbl(r, 0), 8)) + 0.5) * std::ldexp(1.0, std::max(-900, std::min(g, 900)));   // half way between
        if (!std::isfinite(x)) x = 1;
        Quantize(c, g, x, y, z);
        break;
      }
      case 4: {
        BigInt w = Big(r, r.range(1, 6));
        HomoPoint3 p(Big(r, r.range(1, 6)), Big(r, r.range(1, 6)), Big(r, r.range(1, 6)), w);
        if (r.chance(1, 4)) p = HomoPoint3(BigInt(0), p.y(), p.z(), p.w());
        if (r.chance(1, 4)) p = HomoPoint3(p.x(), p.y(), p.z() << r.range(0, 500), p.w() << r.range(0, 700));
        O o; o("op", "back").raw("p", PJ(p));
        c.call(o);
        DoublePoint3 d = p.GetDoublePoint3(), e = p.GetDoublePoint3(), f(d.y, d.z, d.x);
        bool same = d.x == d.y && d.y == d.z && d.z == d.x;
        DoublePoint3 n0 = d;
        if (d.x == 0) n0.x = -d.x;
        c.ev(o.raw("d", D3(d))("ok", d == e && !(d != e) && d.GetHash() == e.GetHash() && (d == f) == same && (d != f) == !same && d == n0 && d.GetHash() == n0.GetHash()));
        break;
      }
      case 5: {
        BigInt n = Big(r, r.chance(1, 4) ? r.range(5, 12) : r.range(1, 4));
        if (r.chance(1, 20)) n = BigInt(0);
        O o; o("op", "number").raw("n", ZJ(n));
        c.call(o);
        c.ev(o.raw("d", DJ((double)n)).raw("ld", LJ((long double)n)));
        break;
      }
      default: {
        int big = r.chance(1, 2) ? 12 : 4000000;
        Pt lo(r.range(-big, big), r.range(-big, big), r.range(-big, big)), hi = lo;
        hi.x += r.range(0, big); hi.y += r.range(0, big); hi.z += r.range(0, big);
        BigInt f = r.chance(1, 2) ? BigInt(1) : BigInt(r.range(1, 1 << 30)) << r.range(0, 100);
        int w = r.range(1, 30);
        auto v = [&](const Pt& p) { return Vector3(FromZ(p.x) * f, FromZ(p.y) * f, FromZ(p.z) * f); };
        AABB box(v(lo), v(hi), BigInt(w) * f);
        Z dx = hi.x - lo.x, dy = hi.y - lo.y, dz = hi.z - lo.z;
        A sq; sq.raw(ZJ(Z(dx * dx + dy * dy + dz * dz))); sq(w * w);
        O o; o("op", "diagonal").raw("sq", sq.str());
        c.call(o);
        c.ev(o.raw("d", DJ(box.GetDiagonalLength())));
        break;
      }
    }
  }
}

static void Run(Case& c, const Opts& o) {
  if (!o.scripts.empty()) {
    const std::vector<int>& s = g_scripts[size_t(c.id)];
    double x = std::ldexp(s[0], s[1]), y = std::ldexp(s[2], s[3]);
    switch (c.id % 3) {
      case 0: Quantize(c, s[4], x, y, x); break;
      case 1: Quantize(c, s[4], x, x, y); break;
      default: Quantize(c, s[4], y, x, y); break;
    }
    Exact(c, x, y, x);
  } else Random(c);
}

int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scripts")) {
    std::ifstream f(argv[i + 1]);
    for (std::string line; std::getline(f, line);) {
      std::vector<int> v;
      for (size_t k = 0; k < line.size();) {
        if (isdigit((unsigned char)line[k])) { int sg = k && line[k - 1] == '-' ? -1 : 1; v.push_back(sg * atoi(&line[k])); while (k < line.size() && isdigit((unsigned char)line[k])) ++k; }
        else ++k;
      }
      g_scripts.push_back(v);
    }
  }
  return Main(argc, argv, Run);
}
