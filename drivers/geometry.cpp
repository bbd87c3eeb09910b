// Points, vectors, planes and lines: constructions and predicates.
// A case keeps pools of objects; constructions add to them, predicates compare
// what is in them.  Every event carries the raw components.
#include "geo.h"

#include <set>

#include "walnut/plucker_line.h"
#include "walnut/r_transformation.h"
#include "walnut/vector2.h"

using namespace vt;
using namespace walnut;

static std::string J(const BigInt& a, const BigInt& b) { return A()(a)(b).str(); }
static std::string J(const Vector2& v) { return J(v.x(), v.y()); }
static std::string J(const Vector3& v) { return A()(v.x())(v.y())(v.z()).str(); }
static std::string J(const HomoPoint3& p) { return A()(p.x())(p.y())(p.z())(p.w()).str(); }
static std::string J(const Point3& p) { return A()(p.x())(p.y())(p.z())(BigInt(1)).str(); }
static std::string J(const HomoPoint2& p) { return A()(p.x())(p.y())(p.w()).str(); }
static std::string J(const Point2& p) { return A()(p.vector_from_origin().x())(p.vector_from_origin().y())(BigInt(1)).str(); }
static std::string J(const HalfSpace3& h) { return A()(h.x())(h.y())(h.z())(h.d()).str(); }
static std::string J(const HalfSpace2& h) { return A()(h.x())(h.y())(h.d()).str(); }
static std::string J(const PluckerLine& l) { return A()(l.d().x())(l.d().y())(l.d().z())(l.m().x())(l.m().y())(l.m().z()).str(); }

template <typename W> static int Sgn(const W& w) { return w > 0 ? 1 : w < 0 ? -1 : 0; }

struct Gen {
  Case& c;
  Rng& r;
  int size;
  std::vector<HomoPoint3> P;
  std::vector<Point3> Q;
  std::vector<HalfSpace3> H;
  std::vector<PluckerLine> L;
  std::vector<Vector3> V;
  std::vector<Vector2> U;
  explicit Gen(Case& c) : c(c), r(c.rng), size(r.chance(1, 4) ? 1 : 0) { }

  BigInt I(bool nonzero = false) {
    for (;;) {
      Z z;
      if (!size || r.chance(1, 2)) z = r.range(-3, 3);
      else {
        int b = r.pick(std::vector<int>{31, 32, 62, 63, 64, 65, 127, 128});
        z = (Z(1) << b) + r.range(-2, 2);
        if (r.chance(1, 2)) z = -z;
      }
      if (!nonzero || z != 0) return FromZ(z);
    }
  }
  Vector3 Vec() {
    if (!V.empty() && r.chance(1, 3)) { Vector3 v = r.pick(V) * I(true); return v; }
    Vector3 v(I(), I(), I());
    if (r.chance(1, 5)) { int i = r.range(0, 2), j = r.range(0, 2); v.components()[i] = BigInt(0); v.components()[j] = BigInt(0); }
    return v;
  }
  HomoPoint3 Pnt() {
    if (!P.empty() && r.chance(1, 3)) {   // the same point scaled
      const HomoPoint3& p = r.pick(P);
      BigInt k = I(true);
      return HomoPoint3(p.x() * k, p.y() * k, p.z() * k, p.w() * k);
    }
    if (P.size() > 1 && r.chance(1, 3)) { // between or beyond two points
      const HomoPoint3 &p = r.pick(P), &q = r.pick(P);
      BigInt a(r.range(-2, 3)), b(r.range(1, 3)), w = p.w() * q.w() * (a + b);
      if (!(a + b).IsZero())
        return HomoPoint3(p.x() * q.w() * a + q.x() * p.w() * b, p.y() * q.w() * a + q.y() * p.w() * b,
                          p.z() * q.w() * a + q.z() * p.w() * b, w);
    }
    return HomoPoint3(I(), I(), I(), r.chance(1, 3) ? BigInt(1) : I(true));
  }
  HalfSpace3 Half() {
    if (!H.empty() && r.chance(1, 2)) {
      const HalfSpace3& h = r.pick(H);
      BigInt k = I(true);
      HalfSpace3 o(h.x() * k, h.y() * k, h.z() * k, h.d() * k);
      if (r.chance(1, 3)) o.d() = o.d() + BigInt(r.range(-1, 1));
      return o;
    }
    Vector3 n = Vec();
    while (n.IsZero()) n = Vec();
    if (!P.empty() && r.chance(1, 2)) return HalfSpace3(n, r.pick(P));
    return HalfSpace3(n, I());
  }
  void Ev(O& o) { c.ev(o); }
  O Op(const char* op, std::initializer_list<std::pair<const char*, std::string>> a) {
    O o; o("op", op);
    for (auto& x : a) o.raw(x.first, x.second);
    c.call(o);
    return o;
  }

  void Make() {
    switch (r.range(0, 9)) {
      case 0: {
        const HomoPoint3 &a = r.pick(P), &b = r.pick(P), &d = r.pick(P);
        O o = Op("plane3", {{"a", J(a)}, {"b", J(b)}, {"c", J(d)}});
        HalfSpace3 h(a, b, d);
        o.raw("h", J(h))("valid", h.IsValid()); Ev(o);
        if (h.IsValid()) H.push_back(h);
        break;
      }
      case 1: {
        const Point3 &a = r.pick(Q), &b = r.pick(Q), &d = r.pick(Q);
        O o = Op("plane3", {{"a", J(a)}, {"b", J(b)}, {"c", J(d)}});
        HalfSpace3 h(a, b, d);
        o.raw("h", J(h))("valid", h.IsValid()); Ev(o);
        if (h.IsValid()) H.push_back(h);
        break;
      }
      case 2: {
        Vector3 n = Vec();
        if (n.IsZero()) return;
        const HomoPoint3& a = r.pick(P);
        O o = Op("planenp", {{"n", J(n)}, {"a", J(a)}});
        HalfSpace3 h(n, a);
        o.raw("h", J(h)); Ev(o);
        H.push_back(h);
        break;
      }
      case 3: {
        bool homo = r.chance(1, 2);
        const HomoPoint3 &a = r.pick(P), &b = r.pick(P);
        const Point3 &x = r.pick(Q), &y = r.pick(Q);
        O o = homo ? Op("line2", {{"a", J(a)}, {"b", J(b)}}) : Op("line2", {{"a", J(x)}, {"b", J(y)}});
        PluckerLine l = homo ? PluckerLine(a, b) : PluckerLine(x, y);
        o.raw("l", J(l))("valid", l.IsValid()); Ev(o);
        if (l.IsValid()) L.push_back(l);
        break;
      }
      case 4: {
        const HalfSpace3 &a = r.pick(H), &b = r.pick(H);
        O o = Op("linehh", {{"g", J(a)}, {"h", J(b)}});
        PluckerLine l(a, b);
        o.raw("l", J(l))("valid", l.IsValid()); Ev(o);
        if (l.IsValid()) L.push_back(l);
        break;
      }
      case 5: {
        if (L.empty()) return;
        const PluckerLine& l = r.pick(L);
        const HalfSpace3& h = r.pick(H);
        O o = Op("meet", {{"l", J(l)}, {"h", J(h)}});
        HomoPoint3 p = l.Intersect(h);
        o.raw("p", J(p))("valid", p.IsValid()); Ev(o);
        if (p.IsValid()) P.push_back(p);
        break;
      }
      case 6: {
        if (L.empty()) return;
        const PluckerLine& l = r.pick(L);
        int d = r.range(0, 2);
        O o = Op("shadow", {{"l", J(l)}}); o("d", d);
        HalfSpace2 h = l.Project2D(d);
        o.raw("h", J(h))("valid", h.IsValid()); Ev(o);
        break;
      }
      case 7: {
        const HalfSpace3& h = r.pick(H);
        int d = r.range(0, 2);
        if (h.normal().components()[d].IsZero()) return;
        HomoPoint2 p = r.pick(P).DropDimension(d);
        O o = Op("lift", {{"h", J(h)}, {"p", J(p)}}); o("d", d);
        HomoPoint3 q = h.ProjectOntoPlane(p, d);
        o.raw("q", J(q)); Ev(o);
        P.push_back(q);
        break;
      }
      case 8: {
        // 2D half-space through two points, and its extrusion
        int d = r.range(0, 2);
        Point2 a = r.pick(Q).DropDimension(d), b = r.pick(Q).DropDimension(d);
        O o = Op("extrude", {{"a", J(a)}, {"b", J(b)}}); o("d", d);
        HalfSpace2 h2(a, b);
        HalfSpace3 h3(h2, d);
        o.raw("h2", J(h2)).raw("h3", A()(h3.normal().components()[(d + 1) % 3])(h3.normal().components()[(d + 2) % 3])(h3.d()).str());
        Ev(o);
        break;
      }
      default: {
        int d = r.range(0, 2);
        BigInt n = I(), m = I(true);
        O o = Op("axis", {{"n", J(n, m)}}); o("d", d);
        HalfSpace3 h = HalfSpace3::GetAxisAligned(d, n, m);
        o.raw("h", J(h)); Ev(o);
        H.push_back(h);
      }
    }
  }
  void Change() {
    switch (r.range(0, 6)) {
      case 0: {
        HalfSpace3& h = H[size_t(r.range(0, int(H.size()) - 1))];
        O o = Op("hchange", {{"g", J(h)}});
        HalfSpace3 red = h; red.Reduce();
        HalfSpace3 neg = h; neg.Negate();
        o.raw("red", J(red)).raw("neg", J(neg)).raw("neg2", J(-h)); Ev(o);
        h = r.chance(1, 2) ? red : neg;
        break;
      }
      case 1: {
        HomoPoint3& p = P[size_t(r.range(0, int(P.size()) - 1))];
        O o = Op("preduce", {{"p", J(p)}});
        HomoPoint3 red = p; red.Reduce();
        o.raw("red", J(red));
        ReducedHomoPoint3Hasher hs;
        HomoPoint3 again = p; again.Reduce();
        o("hash", hs(red) == hs(again)); Ev(o);
        p = red;
        break;
      }
      case 2: {
        if (L.empty()) return;
        PluckerLine& l = L[size_t(r.range(0, int(L.size()) - 1))];
        O o = Op("lchange", {{"l", J(l)}});
        PluckerLine red = l; red.Reduce();
        PluckerLine neg = l; neg.Negate();
        o.raw("red", J(red)).raw("neg", J(neg)).raw("neg2", J(-l)); Ev(o);
        l = r.chance(1, 2) ? red : neg;
        break;
      }
      case 3: {
        Vector3 v = Vec();
        if (v.IsZero()) return;
        O o = Op("vreduce", {{"v", J(v)}});
        v.Reduce();
        o.raw("red", J(v)); Ev(o);
        V.push_back(v);
        break;
      }
      case 4: {
        const HomoPoint3& p = r.pick(P);
        Vector3 v = Vec();
        BigInt k = I(true);
        O o = Op("offset", {{"p", J(p)}, {"v", J(v)}, {"k", ZJ(ToZ(k))}});
        HomoPoint3 q = p.AddOffset(v, k);
        o.raw("q", J(q)); Ev(o);
        P.push_back(q);
        break;
      }
      case 5: {
        const HomoPoint3 &p = r.pick(P), &q = r.pick(P);
        O o = Op("diff", {{"p", J(p)}, {"q", J(q)}});
        BigInt den;
        Vector3 v = p.Difference(q, den);
        o.raw("v", J(v))("den", den); Ev(o);
        break;
      }
      default: {
        const Point3& p = r.pick(Q); const Point3& q = r.pick(Q);
        Vector3 v = Vec();
        O o = Op("pvec", {{"p", J(p)}, {"q", J(q)}, {"v", J(v)}});
        Point3 n = p; n.Negate();
        o.raw("sub", J(p - q)).raw("add", J(p + v)).raw("minus", J(p - v)).raw("neg", J(n)); Ev(o);
        if (Q.size() < 8) Q.push_back(p + v);
      }
    }
  }
  void Ask() {
    switch (r.range(0, 9)) {
      case 0: case 1: {
        const HalfSpace3& h = r.pick(H);
        const HomoPoint3& p = r.pick(P);
        const Point3& q = r.pick(Q);
        O o = Op("side", {{"h", J(h)}, {"p", J(p)}, {"q", J(q)}});
        o("cp", Sgn(h.Compare(p)))("cq", Sgn(h.Compare(q)))("onp", h.IsCoincident(p))("oq", h.IsCoincident(q));
        o("valid", h.IsValid());
        // the projection of both when seen along a dimension
        int d = r.range(0, 2);
        HalfSpace2 h2(I(), I(), I());
        o.raw("h2", J(h2)).raw("p2", J(p.DropDimension(d))).raw("q2", J(q.DropDimension(d)))("d", d);
        o("c2p", Sgn(h2.Compare(p.DropDimension(d))))("c2q", Sgn(h2.Compare(q.DropDimension(d))));
        o("o2p", h2.IsCoincident(p.DropDimension(d)))("o2q", h2.IsCoincident(q.DropDimension(d)));
        Ev(o);
        break;
      }
      case 2: {
        HalfSpace3 a = r.pick(H), b = Half();
        O o = Op("hh", {{"g", J(a)}, {"h", J(b)}});
        o("eq", a == b)("ne", a != b)("so", a.IsSameOrOpposite(b));
        std::vector<int> dims;
        for (int d = 0; d < 3; ++d) if (!a.normal().components()[d].IsZero()) dims.push_back(d);
        Vector3 cr = a.normal().Cross(b.normal());
        if (cr.IsZero()) o("cmp", Sgn(a.Compare(b, r.pick(dims))));
        else o("cmp", 9);
        HalfSpace2 s(a.x(), a.y(), a.d()), t(b.x(), b.y(), b.d());
        if (r.chance(1, 2)) { BigInt k = I(true); t = HalfSpace2(a.x() * k, a.y() * k, a.d() * k); }
        if (s.IsValid() && t.IsValid()) o.raw("s2", J(s)).raw("t2", J(t))("eq2", s == t)("ne2", s != t)("line2", s.HasSameLine(t));
        Ev(o);
        if (H.size() < 10) H.push_back(b);
        break;
      }
      case 3: {
        if (L.empty()) return;
        PluckerLine a = r.pick(L), b = r.pick(L);
        if (r.chance(1, 2)) { BigInt k = I(true); b = PluckerLine(a.d() * k, a.m() * k); }
        const HomoPoint3& p = r.pick(P); const Point3& q = r.pick(Q); const HalfSpace3& h = r.pick(H);
        O o = Op("line", {{"l", J(a)}, {"k", J(b)}, {"p", J(p)}, {"q", J(q)}, {"h", J(h)}});
        o("eq", a == b)("ne", a != b)("onp", a.IsCoincident(p))("onq", a.IsCoincident(q))("onh", a.IsCoincident(h));
        Ev(o);
        break;
      }
      case 4: case 5: {
        HomoPoint3 a = r.pick(P), b = Pnt();
        const Point3& q = r.pick(Q);
        const Point3& s = r.pick(Q);
        O o = Op("pp", {{"a", J(a)}, {"b", J(b)}, {"q", J(q)}, {"s", J(s)}});
        o("eq", a == b)("ne", a != b)("eqq", a == q)("neq", a != q)("qeq", q == a)("qs", q == s)("qns", q != s);
        o("lex", HomoPoint3::LexicographicallyLt(a, b))("lex2", a.LexicographicallyLt(b))("top", HomoPoint3::TopnessLt(a, b));
        o("lexq", Point3::LexicographicallyLt(q, s));
        A cc, lt, eq, cq, eqq2;
        for (size_t k = 0; k < 3; ++k) {
          cc(Sgn(a.CompareComponent(k, b))); lt(a.IsLessThanComponent(k, b)); eq(a.IsEquivalentComponent(k, b));
          cq(Sgn(q.CompareComponent(k, s))); eqq2(q.IsEquivalentComponent(k, s));
        }
        o.raw("cc", cc.str()).raw("lt", lt.str()).raw("ec", eq.str()).raw("cq", cq.str()).raw("eq3", eqq2.str());
        int d = r.range(0, 2);
        HomoPoint2 x = a.DropDimension(d), y = b.DropDimension(d);
        Point2 z = q.DropDimension(d);
        o("d", d)("lexd", HomoPoint2::LexicographicallyLt(x, y))("eqd", x == y)("ned", x != y)("eqz", x == z)("nez", x != z)("zeq", z == x);
        Ev(o);
        if (P.size() < 12) P.push_back(b);
        break;
      }
      case 6: {
        const HomoPoint3 &a = r.pick(P), &b = r.pick(P), &e = r.pick(P);
        const Point3 &x = r.pick(Q), &y = r.pick(Q), &z = r.pick(Q);
        int d = r.range(0, 2);
        O o = Op("twist", {{"a", J(a)}, {"b", J(b)}, {"c", J(e)}, {"x", J(x)}, {"y", J(y)}, {"z", J(z)}});
        o("d", d)("t", Sgn(b.Get2DTwistDir(d, a, e)))("tr", b.Get2DTwistDirReduced(d, a, e));
        o("u", Sgn(y.Get2DTwistDir(d, x, z)))("ur", y.Get2DTwistDirReduced(d, x, z));
        Ev(o);
        break;
      }
      case 7: {
        Vector3 a = Vec(), b = Vec();
        BigInt k = I();
        O o = Op("vec", {{"a", J(a)}, {"b", J(b)}, {"k", ZJ(ToZ(k))}});
        o("dot", a.Dot(b)).raw("cross", J(a.Cross(b))).raw("had", J(a.Hadamard(b))).raw("hs", J(a.HadamardSquared()))
          ("sq", a.GetScaleSquared()).raw("sum", J(a + b)).raw("dif", J(a - b)).raw("sc", J(a * k)).raw("sc2", J(k * a)).raw("neg", J(-a));
        Vector3 s = a; s += b; o.raw("acc", J(s));
        Vector3 n = a; n.Negate(); o.raw("neg2", J(n));
        o("eq", a == b)("ne", a != b)("zero", a.IsZero());
        if (!a.IsZero() && !b.IsZero()) {
          o("same", a.IsSameDir(b))("so", a.IsSameOrOppositeDir(b))("first", a.GetFirstNonzeroDimension());
        }
        A dd;
        for (int d = 0; d < 3; ++d) dd.raw(J(a.DropDimension(d))).raw(J(a.GetComponentAfterDrop(0, d), a.GetComponentAfterDrop(1, d)));
        o.raw("drops", dd.str());
        o("rxy", RXYCompareBivector(a, b));
        Ev(o);
        V.push_back(a);
        break;
      }
      case 8: {
        auto U2 = [&] {
          if (!U.empty() && r.chance(1, 3)) return r.pick(U) * I(true);
          if (r.chance(1, 4)) { BigInt z(0), k = I(true); return r.chance(1, 2) ? Vector2(z, k) : Vector2(k, z); }
          return Vector2(I(), I());
        };
        Vector2 a = U2(), b = U2();
        if (a.IsZero() || b.IsZero()) return;
        BigInt k = I();
        O o = Op("vec2", {{"a", J(a)}, {"b", J(b)}, {"k", ZJ(ToZ(k))}});
        o("dot", a.Dot(b))("cross", a.Cross(b))("sq", a.GetScaleSquared()).raw("perp", J(a.GetPerpendicular()))
          .raw("sw", J(a.SwapXY())).raw("neg", J(-a)).raw("dif", J(a - b)).raw("sc", J(a * k));
        o("same", a.IsSameDir(b))("so", a.IsSameOrOppositeDir(b))("eq", a == b);
        o("rot", a.IsRotationLessThan(b))("half", a.IsHalfRotationLessThan(b));
        o("rotc", Vector2::RotationCompare()(a, b))("halfc", Vector2::HalfRotationCompare()(a, b));
        Ev(o);
        U.push_back(a);
        break;
      }
      default: {
        // the order used for sets of half-spaces
        std::vector<HalfSpace3> hs;
        int n = r.range(2, 5);
        for (int i = 0; i < n; ++i) hs.push_back(r.chance(1, 3) ? r.pick(H) : Half());
        if (r.chance(1, 3)) hs.push_back(HalfSpace3(1, -1, 0, r.range(-1, 1)));
        if (r.chance(1, 3)) hs.push_back(-r.pick(hs));
        A a, m;
        HalfSpace3Compare lt;
        std::set<HalfSpace3, HalfSpace3Compare> st;
        for (auto& h : hs) { a.raw(J(h)); A row; for (auto& g : hs) row(lt(h, g)); m.raw(row.str()); st.insert(h); }
        O o; o("op", "order").raw("hs", a.str()).raw("lt", m.str())("size", int(st.size()));
        c.ev(o);
      }
    }
  }
  void Go(int n) {
    for (int i = 0; i < 4; ++i) P.push_back(Pnt());
    for (int i = 0; i < 4; ++i) Q.push_back(i && r.chance(1, 3) ? r.pick(Q) + Vector3(r.range(-1, 1), r.range(-1, 1), r.range(-1, 1)) : Point3(I(), I(), I()));
    for (int i = 0; i < 3; ++i) H.push_back(Half());
    for (int i = 0; i < n; ++i) {
      int k = r.range(0, 9);
      if (P.size() > 14) P.erase(P.begin() + r.range(0, int(P.size()) - 1));
      if (H.size() > 14) H.erase(H.begin() + r.range(0, int(H.size()) - 1));
      if (k < 4) Make(); else if (k < 6) Change(); else Ask();
    }
  }
};

static void Run(Case& c, const Opts& o) {
  Gen g(c);
  g.Go(o.tier == "thorough" ? 40 : 25);
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
