// Random programs for the arithmetic machine (spec/BigIntMachine.tla).
#include "vt.h"
#include "walnut/big_int.h"
#include "walnut/big_uint.h"
#include "walnut/rational.h"

using namespace vt;
using walnut::BigInt;
using walnut::BigUInt;
using walnut::BigUIntWord;

namespace {

constexpr int NR = 6;

Z ToZ(const BigUInt& b) {
  Z r = 0;
  for (size_t i = b.used_words(); i > 0; --i) {
    r <<= 64;
    r |= Z(uint64_t(b.word(i - 1).low_uint64()));
  }
  return r;
}

struct Prog {
  Case& c;
  Rng& rng;
  BigInt reg[NR];
  Prog(Case& c) : c(c), rng(c.rng) { }

  int R() { return rng.range(0, NR - 1); }

  int64_t Int64() {
    switch (rng.range(0, 9)) {
      case 0: return rng.range(-3, 3);
      case 1: return INT64_MAX - rng.range(0, 2);
      case 2: return INT64_MIN + rng.range(0, 2);
      case 3: return int64_t(INT32_MAX) + rng.range(-2, 2);
      case 4: return int64_t(INT32_MIN) + rng.range(-2, 2);
      case 5: return (int64_t(1) << rng.range(0, 62)) * (rng.chance(1, 2) ? 1 : -1) + rng.range(-1, 1);
      case 6: return int64_t(UINT32_MAX) + rng.range(-2, 2);
      case 7: return rng.range(-1000, 1000);
      default: return int64_t(rng.next()) >> rng.range(0, 63);
    }
  }
  int Int() {
    switch (rng.range(0, 5)) {
      case 0: return INT32_MAX - rng.range(0, 1);
      case 1: return INT32_MIN + rng.range(0, 1);
      case 2: return rng.range(-2, 2);
      default: return int(int32_t(rng.next()) >> rng.range(0, 31));
    }
  }
  // An int that JSON carries exactly for the specification.
  static std::string IJ(int64_t v) { return ZJ(Z(v)); }

  static BigInt Fresh(const Z& v) {
    Z m = v < 0 ? Z(-v) : v;
    int n = m == 0 ? 0 : int(boost::multiprecision::msb(m)) / 32;
    BigInt r(int64_t(unsigned((m >> (32 * n)) & 0xffffffffu)));
    for (int i = n - 1; i >= 0; --i)
      r = (r << 32) + BigInt(int64_t(unsigned((m >> (32 * i)) & 0xffffffffu)));
    return v < 0 ? BigInt(0) - r : r;
  }

  void Put(const char* op, int d, O o) {
    // An independently built BigInt of the same value must be the same value
    // to every comparison.
    Z v = vt::ToZ(reg[d]);
    BigInt fresh = Fresh(v);
    bool canon = reg[d] == fresh && !(reg[d] != fresh) && !(reg[d] < fresh) &&
                 !(fresh < reg[d]) && reg[d].Compare(fresh) == 0 &&
                 reg[d].GetHash() == fresh.GetHash();
    o("op", op)("d", d + 1)("v", v)("canon", canon);
    c.ev(o);
  }

  void Load(int d) {
    int64_t hi = Int64(), lo = Int64();
    int sh;
    switch (rng.range(0, 5)) {
      case 0: hi = 0; sh = 0; break;
      case 1: sh = rng.range(0, 70); break;
      case 2: sh = 64 * rng.range(0, 4); break;
      case 3: sh = 64 * rng.range(1, 4) - 1; break;
      default: sh = rng.range(0, 220); break;
    }
    if (rng.chance(1, 3)) lo = rng.range(-1, 1);
    c.call(O()("op", "load").raw("hi", IJ(hi)).raw("lo", IJ(lo))("sh", sh));
    reg[d] = (BigInt(hi) << size_t(sh)) + BigInt(lo);
    Put("load", d, O().raw("hi", IJ(hi)).raw("lo", IJ(lo))("sh", sh));
  }

  void Step() {
    int d = R(), a = R(), b = R(), e = R(), f = R();
    // keep numbers below ~ 900 bits
    for (int i = 0; i < NR; ++i) if (reg[i].used_words() > 9) { Load(i); return; }
    int op = rng.range(0, 47);
    if (op == 44 || op == 45) op = 32;
    // Known starting point for the CRASH event.
    c.call(O()("n", op)("d", d + 1)("a", a + 1)("b", b + 1)("e", e + 1)("f", f + 1)
           .raw("regs", Arr(std::vector<BigInt>(reg, reg + NR), [](const BigInt& x) { return ZJ(x); })));
    O o;
    o("a", a + 1)("b", b + 1);
    switch (op) {
      case 0: case 1: case 2: Load(d); break;
      case 3: reg[d] = reg[a]; Put("copy", d, o); break;
      case 4: { BigInt t(reg[a]); BigInt u(std::move(t)); reg[d] = std::move(u); Put("move", d, o); break; }
      case 5: reg[d] = reg[a] + reg[b]; Put("add", d, o); break;
      case 6: reg[d] = reg[a] - reg[b]; Put("sub", d, o); break;
      case 7: case 8: reg[d] = reg[a] * reg[b]; Put("mul", d, o); break;
      case 9: reg[d] += reg[b]; Put("addeq", d, o); break;
      case 10: reg[d] -= reg[b]; Put("subeq", d, o); break;
      case 11: reg[d] *= reg[b]; Put("muleq", d, o); break;
      case 12: { int i = Int(); reg[d] = reg[a] + i; Put("addi", d, o.raw("i", IJ(i))); break; }
      case 13: { int i = Int(); reg[d] = reg[a] - i; Put("subi", d, o.raw("i", IJ(i))); break; }
      case 14: { int i = Int(); reg[d] = rng.chance(1, 2) ? reg[a] * i : i * reg[a]; Put("muli", d, o.raw("i", IJ(i))); break; }
      case 15: { int i = Int(); reg[d] += walnut::BigIntHalfWord(i); Put("addeqi", d, o.raw("i", IJ(i))); break; }
      case 16: { int i = Int(); reg[d] -= walnut::BigIntHalfWord(i); Put("subeqi", d, o.raw("i", IJ(i))); break; }
      case 17: { int i = Int(); reg[d] *= i; Put("muleqi", d, o.raw("i", IJ(i))); break; }
      case 18: ++reg[d]; Put("inc", d, o); break;
      case 19: --reg[d]; Put("dec", d, o); break;
      case 20: reg[d] = -reg[a]; Put("neg", d, o); break;
      case 21: reg[d].Negate(); Put("negate", d, o); break;
      case 22: reg[d] = reg[a].abs(); Put("abs", d, o); break;
      case 23: { bool s; BigInt t = reg[a].GetAbs(s); reg[d] = t; Put("getabs", d, o("s", s)); break; }
      case 24: { bool s; BigUInt t = reg[a].GetUIntAbs(&s);
                 if (rng.chance(1, 2)) reg[d] = BigInt(t); else reg[d] = t;
                 Put("uintabs", d, o("s", s)); break; }
      case 25: case 26: { int n = rng.chance(1, 3) ? 64 * rng.range(0, 3) : rng.range(0, 150);
                 reg[d] = reg[a] << size_t(n); Put("shl", d, o("n", n)); break; }
      case 27: reg[d].AddMultiply(reg[a], reg[b]); Put("addmul", d, o); break;
      case 28: reg[d].SubtractMultiply(reg[a], reg[b]); Put("submul", d, o); break;
      case 29: reg[d] = BigInt::Determinant(reg[a], reg[e], reg[f], reg[b]);
               Put("det", d, o("e", e + 1)("f", f + 1)); break;
      case 30: { int n = rng.chance(1, 2) ? 64 * rng.range(0, 3) + rng.range(-1, 1) : rng.range(0, 200);
                 if (n < 0) n = 0;
                 reg[d] = BigInt::max_value(size_t(n)); Put("max", d, O()("n", n)); break; }
      case 31: { int n = rng.chance(1, 2) ? 64 * rng.range(0, 3) + rng.range(-1, 1) : rng.range(0, 200);
                 if (n < 0) n = 0;
                 reg[d] = BigInt::min_value(size_t(n)); Put("min", d, O()("n", n)); break; }
      case 32: case 33: case 34: {
        if (vt::ToZ(reg[b]) == 0) break;
        if (d == e) break;
        BigInt r, q = reg[a].DivideRemainder(reg[b], &r);
        c.ev(o("op", "divrem")("d", d + 1)("e", e + 1)("q", q)("r", r));
        reg[d] = q; reg[e] = r;
        break; }
      case 35: if (vt::ToZ(reg[b]) == 0) break;
               reg[d] = reg[a] / reg[b]; Put("div", d, o); break;
      case 36: if (vt::ToZ(reg[b]) == 0) break;
               if (rng.chance(1, 2)) { reg[d] /= reg[b]; Put("diveq", d, o); }
               else { int i = Int(); if (!i) break; reg[d] = reg[a] / i; Put("divi", d, o.raw("i", IJ(i))); }
               break;
      case 37: { if (vt::ToZ(reg[b]) == 0) break;
                 Z q = vt::ToZ(reg[a]) / vt::ToZ(reg[b]);
                 reg[d] = reg[a] % reg[b]; Put("mod", d, o("q", q)); break; }
      case 38: {
        Z za = vt::ToZ(reg[a]), zb = vt::ToZ(reg[b]);
        if (za == 0 || zb == 0) break;
        BigInt g = reg[a].GetGreatestCommonDivisor(reg[b]);
        reg[d] = g;
        Z zg = vt::ToZ(g);
        // witnesses: cofactors and Bezout coefficients
        Z r0 = za, r1 = zb, s0 = 1, s1 = 0, t0 = 0, t1 = 1;
        while (r1 != 0) {
          Z q = r0 / r1, t;
          t = r0 - q * r1; r0 = r1; r1 = t;
          t = s0 - q * s1; s0 = s1; s1 = t;
          t = t0 - q * t1; t0 = t1; t1 = t;
        }
        if ((r0 < 0) != (zg < 0)) { s0 = -s0; t0 = -t0; }
        Put("gcd", d, o("ka", zg == 0 ? Z(0) : Z(za / zg))("kb", zg == 0 ? Z(0) : Z(zb / zg))("x", s0)("y", t0));
        break; }
      case 39: case 40: {
        const BigInt &x = reg[a], &y = reg[b];
        BigInt::FlippableCompare f0(false), f1(true);
        c.ev(o("op", "cmp")("lt", x < y)("le", x <= y)("gt", x > y)("ge", x >= y)
             ("eq", x == y)("ne", x != y)("cmp", x.Compare(y) > 0 ? 1 : x.Compare(y) < 0 ? -1 : 0)
             ("lt0", x.LessThan(false, y))("lt1", x.LessThan(true, y))
             ("fc0", f0(x, y))("fc1", f1(x, y))("hash", x.GetHash() == y.GetHash()));
        break; }
      case 41: {
        const BigInt& x = reg[a];
        int i = Int();
        if (rng.chance(1, 4) && x.used_words() == 1) i = int(x.low_uint64());
        c.ev(o("op", "cmpi").raw("i", IJ(i))("lt", x < i)("le", x <= i)("gt", x > i)("ge", x >= i)
             ("eq", x == i)("ne", x != i));
        break; }
      case 42: {
        const BigInt& x = reg[a];
        auto s = x.GetSign();
        c.ev(o("op", "sign")("sg", s > 0 ? 1 : s < 0 ? -1 : 0)("zero", x.IsZero())("neg", x.IsNegative())
             ("am", x.GetAbsMult())("se", int(x.SignExtension()))("am2", x.GetAbsMult(reg[b]))
             ("same", x.HasSameSign(reg[b]))("diff", x.HasDifferentSign(reg[b])));
        break; }
      case 43: {
        if (rng.chance(1, 2)) {
          std::ostringstream out;
          out << reg[a];
          std::string s = out.str();
          A dig;
          for (char ch : s) if (ch != '-') dig(int(ch - '0'));
          c.ev(o("op", "print").raw("dig", dig.str())("neg", s[0] == '-'));
        } else {
          Z z = vt::ToZ(reg[a]), lo = Z(reg[a].low_uint64()), lo32 = Z(reg[a].low_uint32());
          c.ev(o("op", "low")("low", lo)("hi", Z((z - lo) >> 64))("low32", lo32)("hi32", Z((lo - lo32) >> 32)));
        }
        break; }
      case 46: {
        if (vt::ToZ(reg[b]) == 0 || vt::ToZ(reg[e]) == 0) break;
        if (rng.chance(1, 2)) {
          reg[d] = walnut::rational::RoundUp(reg[a], reg[b], reg[e]); Put("roundup", d, o("e", e + 1));
        } else {
          reg[d] = walnut::rational::RoundDown(reg[a], reg[b], reg[e]); Put("rounddown", d, o("e", e + 1));
        }
        break; }
      case 47: {
        if (vt::ToZ(reg[b]) == 0 || vt::ToZ(reg[f]) == 0) break;
        c.ev(o("op", "ratcmp")("e", e + 1)("f", f + 1)
             ("lt", walnut::rational::IsLessThan(reg[a], reg[b], reg[e], reg[f]))
             ("eq", walnut::rational::Equals(reg[a], reg[b], reg[e], reg[f])));
        break; }
    }
  }

  void ReadAll() {
    c.ev(O()("op", "readall").raw("v", Arr(std::vector<BigInt>(reg, reg + NR), [](const BigInt& x) { return ZJ(x); })));
  }

  // BigUInt programs work on non-negative registers only.
  void UStep() {
    int d = R(), a = R(), b = R(), e = R();
    O o;
    o("a", a + 1)("b", b + 1);
    for (int i = 0; i < NR; ++i) {
      if (reg[i].used_words() > 9 || reg[i].IsNegative()) {
        Load(i);
        O oo; oo("a", i + 1)("b", i + 1);
        bool s; BigUInt t = reg[i].GetUIntAbs(&s); reg[i] = BigInt(t);
        Put("uintabs", i, oo("s", s));
      }
    }
    bool s;
    BigUInt x = reg[a].GetUIntAbs(&s), y = reg[b].GetUIntAbs(&s), z = reg[d].GetUIntAbs(&s);
    Z zx = ToZ(x), zy = ToZ(y), zz = ToZ(z);
    int op = rng.range(0, 8);
    c.call(O()("un", op)("x", zx)("y", zy)("z", zz));
    switch (op) {
      case 0: Load(d); { bool s; BigUInt t = reg[d].GetUIntAbs(&s); reg[d] = BigInt(t); O oo; oo("a", d + 1)("b", d + 1); Put("uintabs", d, oo("s", s)); } break;
      case 1: { int n = rng.chance(1, 3) ? 64 * rng.range(0, 3) : rng.range(0, 150);
                reg[d] = BigInt(x << size_t(n)); Put("ushl", d, o("n", n)); break; }
      case 2: case 3: case 4: { if (zy == 0 || d == e) break;
                BigUInt r, q = x.DivideRemainder(y, &r);
                c.ev(o("op", "udivrem")("d", d + 1)("e", e + 1)("q", ToZ(q))("r", ToZ(r)));
                reg[d] = BigInt(q); reg[e] = BigInt(r); break; }
      case 5: if (zx < zy) break;
              reg[d] = BigInt(x.Subtract(y)); Put("usub", d, o); break;
      case 6: { uint64_t w = uint64_t(Int64());
                reg[d] = BigInt(x.Multiply(BigUIntWord(w))); Put("umul", d, o("w", Z(w))); break; }
      case 7: { uint64_t w = uint64_t(Int64()); int n = rng.chance(1, 3) ? 64 * rng.range(0, 3) : rng.range(0, 150);
                z.AddLeftShifted(BigUIntWord(w), size_t(n)); reg[d] = BigInt(z);
                Put("uaddshl", d, o("w", Z(w))("n", n)); break; }
      case 8: { int n = rng.chance(1, 3) ? 64 * rng.range(0, 3) : rng.range(0, 150);
                if (zy == 0 || (zy << n) > zz) { n = rng.range(0, 3); if (zy == 0 || (zy << n) > zz) { c.ev(o("op", "uge")("r", x >= y)); break; } }
                // at most used_words of the minuend are touched
                z.SubtractLeftShifted(y, size_t(n)); reg[d] = BigInt(z);
                Put("usubshl", d, o("n", n)); break; }
    }
  }
};

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](Case& c, const Opts& o) {
    Prog p(c);
    bool u = c.id % 4 == 3;
    for (int i = 0; i < NR; ++i) p.Load(i);
    int n = 60;
    for (int i = 0; i < n; ++i) {
      if (u) p.UStep(); else p.Step();
      if (i % 10 == 9) p.ReadAll();
    }
    p.ReadAll();
  });
}
