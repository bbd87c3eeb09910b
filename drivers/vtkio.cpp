// The VTK interface: conversions in both directions and the pipeline filter.
#include <cmath>
#include <vtkCellArray.h>
#include <vtkPoints.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>
#include <vtkObject.h>
#include <vtkCallbackCommand.h>

#include "vtkWalnutBooleanFilter.cpp"

#include "scene.h"

using namespace vt;
using namespace walnut;
using Ids = std::vector<vtkIdType>;

// nearest double, and the exact value of a double
static double D(const Z& p, const Z& q) {
  if (p == 0) return 0;
  Z a = p < 0 ? Z(-p) : p;
  int sh = int(msb(a)) - int(msb(q)) - 64;
  Z n = sh < 0 ? Z(a << unsigned(-sh)) : a, m = sh > 0 ? Z(q << unsigned(sh)) : q;
  double d = std::ldexp(double((long double)(Z(n / m).convert_to<long double>())), sh);
  return p < 0 ? -d : d;
}
static void Frac(double d, Z* p, Z* q) {
  int e;
  double f = std::frexp(d, &e);
  *p = Z(int64_t(std::ldexp(f, 53)));
  *q = 1;
  e -= 53;
  if (e > 0) *p <<= unsigned(e); else *q <<= unsigned(-e);
}
static Pt FromD(const double* c) {
  Z p[3], q[3], l = 1;
  for (int i = 0; i < 3; ++i) { Frac(c[i], &p[i], &q[i]); if (q[i] > l) l = q[i]; }
  return Pt(p[0] * (l / q[0]), p[1] * (l / q[1]), p[2] * (l / q[2]), l);
}
static bool Exact(const Pt& p) {
  double c[3] = {D(p.x, p.w), D(p.y, p.w), D(p.z, p.w)};
  return FromD(c) == p;
}

struct Data {
  vtkSmartPointer<vtkPolyData> pd = vtkSmartPointer<vtkPolyData>::New();
  std::vector<Pt> raw, q;       // per VTK point
  std::vector<Ids> polys, strips;
};

// noise: the points are moved off the multiples of 2^e a little
static void Build(Rng& r, const Mesh& m, bool exact, int e, Data* out) {
  auto pts = vtkSmartPointer<vtkPoints>::New();
  bool as_double = r.chance(4, 5);
  if (as_double) pts->SetDataTypeToDouble();
  bool share = r.chance(3, 4);
  std::map<Pt, vtkIdType> have;
  if (r.chance(1, 4)) for (int i = r.range(1, 3); i > 0; --i) { double c[3] = {7, 8, double(i)}; pts->InsertNextPoint(c); }   // unused
  auto id = [&](const Pt& p) {
    if (share) { auto it = have.find(p); if (it != have.end()) return it->second; }
    double c[3] = {D(p.x, p.w), D(p.y, p.w), D(p.z, p.w)};
    if (!exact) for (double& x : c) if (r.chance(2, 3)) x += std::ldexp(r.range(-490, 490) / 1000.0, e);
    vtkIdType k = pts->InsertNextPoint(c);
    if (!exact) {
      // still the same after rounding, also as a float?
      double b[3];
      pts->GetPoint(k, b);
      if (!(Pt(HomoPoint3::FromDoubles(e, b[0], b[1], b[2])) == p)) { double d0[3] = {D(p.x, p.w), D(p.y, p.w), D(p.z, p.w)}; pts->SetPoint(k, d0); }
    }
    have[p] = k;
    return k;
  };
  int kind = r.range(0, 3);      // polygons, triangles, strips, any
  Ids chain;
  for (const Facet& f : m) {
    int k = kind == 3 ? r.range(0, 2) : kind;
    size_t n = f.v.size(), s = size_t(r.range(0, int(n) - 1));
    Ids v;
    for (size_t i = 0; i < n; ++i) v.push_back(id(f.v[(s + i) % n]));
    if (k == 0) out->polys.push_back(v);
    else if (k == 1) for (size_t i = 2; i < n; ++i) out->polys.push_back({v[0], v[i - 1], v[i]});
    else {
      Ids st{v[0]};
      for (size_t a = 1, b = n - 1; a <= b;) { st.push_back(v[a++]); if (a <= b) st.push_back(v[b--]); }
      if (!chain.empty() && r.chance(1, 2)) {
        // go on with the last strip, through triangles without area
        chain.push_back(chain.back());
        if (chain.size() % 2 == 0) chain.push_back(chain.back());
        chain.push_back(st[0]);
        if (chain.size() % 2 == 1) chain.push_back(st[0]);
        chain.insert(chain.end(), st.begin(), st.end());
      } else {
        if (!chain.empty()) out->strips.push_back(chain);
        chain = st;
      }
    }
  }
  if (!chain.empty()) out->strips.push_back(chain);
  // the ring of a prism as one strip
  if (r.chance(1, 4)) r.shuffle(out->polys);
  auto polys = vtkSmartPointer<vtkCellArray>::New(), strips = vtkSmartPointer<vtkCellArray>::New();
  for (auto& v : out->polys) polys->InsertNextCell(vtkIdType(v.size()), v.data());
  for (auto& v : out->strips) strips->InsertNextCell(vtkIdType(v.size()), v.data());
  out->pd->SetPoints(pts);
  if (r.chance(1, 5)) {
    auto other = vtkSmartPointer<vtkCellArray>::New();
    vtkIdType v[2] = {0, vtkIdType(pts->GetNumberOfPoints() - 1)};
    other->InsertNextCell(2, v);
    out->pd->SetLines(other);
  }
  if (!out->polys.empty() || r.chance(1, 2)) out->pd->SetPolys(polys);
  if (!out->strips.empty() || r.chance(1, 2)) out->pd->SetStrips(strips);
  for (vtkIdType i = 0; i < pts->GetNumberOfPoints(); ++i) {
    double c[3];
    pts->GetPoint(i, c);
    out->raw.push_back(FromD(c));
    out->q.push_back(Pt(HomoPoint3::FromDoubles(e, c[0], c[1], c[2])));
  }
}
static std::string IdsJ(const std::vector<Ids>& v) {
  A a;
  for (auto& x : v) { A b; for (vtkIdType i : x) b(int(i) + 1); a.raw(b.str()); }
  return a.str();
}
static std::string PtsJ(const std::vector<Pt>& v) { return Arr(v, [](const Pt& p) { return p.J(); }); }
static std::string QsJ(const std::vector<Pt>& v) { return PtsJ(v); }

static std::string FacetOut(PtTab& t, const Facet& f) {
  A v;
  for (const Pt& p : f.v) v(t.Add(p));
  return O().raw("n", "[" + ZJ(f.pl.n.x) + "," + ZJ(f.pl.n.y) + "," + ZJ(f.pl.n.z) + "," + ZJ(f.pl.d) + "]").raw("v", v.str()).str();
}

static std::vector<std::vector<Pt>> Read(vtkPolyData* pd) {
  std::vector<std::vector<Pt>> out;
  vtkIdType n;
  const vtkIdType* v;
  if (pd->GetNumberOfPolys() == 0) return out;
  pd->GetPolys()->InitTraversal();
  while (pd->GetPolys()->GetNextCell(n, v)) {
    out.emplace_back();
    for (vtkIdType i = 0; i < n; ++i) { double c[3]; pd->GetPoint(v[i], c); out.back().push_back(FromD(c)); }
  }
  return out;
}
static bool Distinct(vtkPolyData* pd) {
  std::set<Pt> s;
  for (vtkIdType i = 0; i < pd->GetNumberOfPoints(); ++i) { double c[3]; pd->GetPoint(i, c); if (!s.insert(FromD(c)).second) return false; }
  return true;
}

struct Test {
  Case& c;
  Rng& r;
  bool exact;
  int e = INT_MIN;
  bool planar = false;         // all corners that can arise are doubles
  Scene s;
  std::vector<Data> d;
  std::vector<Pt> qs;
  explicit Test(Case& c) : c(c), r(c.rng) { }

  bool Fits() {
    for (auto& m : s.mesh) for (auto& f : m) for (auto& p : f.v) {
      if (!Exact(p)) return false;
      for (const Z* x : {&p.x, &p.y, &p.z}) if (abs(*x) > (Z(1) << 40) || p.w > (Z(1) << 40)) return false;
    }
    return true;
  }
  void Scenery(int n) {
    bool grid = r.chance(1, 2);
    for (;;) {
      s = Scene();
      if (grid) {
        int g = r.range(2, 3);
        s.grid = true;
        for (int i = 0; i < n; ++i) s.mesh.push_back(GridMesh(r, g));
        int kind = r.range(0, 2) / 2;
        // sheared cells can be cut at points between doubles
        planar = kind == 0;
        Affine t = RandomAffine(r, kind);
        int k = r.range(-20, 20);
        for (int i = 0; i < 3; ++i) {
          t.b[i] = r.range(-9, 9);
          if (k > 0) { t.b[i] <<= unsigned(k); for (int j = 0; j < 3; ++j) t.a[i][j] <<= unsigned(k); }
          if (r.chance(1, 3)) t.b[i] += (Z(r.range(-9, 9)) << 20);
        }
        if (k < 0) t.den = Z(1) << unsigned(-k);
        for (auto& m : s.mesh) { Apply(t, m); if (r.chance(1, 3)) r.shuffle(m); }
        for (int x = 0; x < g; ++x) for (int y = 0; y < g; ++y) for (int z = 0; z < g; ++z) if (r.chance(1, 2)) qs.push_back(t.Map(CellCenter(x, y, z)));
      } else {
        s = MakeScene(r, n, false);
        Affine t;
        t.den = Z(1) << unsigned(r.range(0, 6));
        for (auto& m : s.mesh) Apply(t, m);
      }
      if (Fits()) break;
      qs.clear();
    }
    exact = r.chance(1, 2);
    // the coarsest grain that keeps all corners
    Z l = 1;
    Z big = 1;
    for (auto& m : s.mesh) for (auto& f : m) for (auto& p : f.v) { if (p.w > l) l = p.w; }
    (void)big;
    e = exact ? INT_MIN : -int(msb(l)) - r.range(0, 5);
    std::vector<Pt> all;
    for (auto& m : s.mesh) for (auto& f : m) for (auto& p : f.v) all.push_back(p);
    for (int i = 0; i < 10; ++i) {
      Pt a = r.pick(all), b = r.pick(all), g = r.pick(all);
      Pt q = Mid(Centroid3(a, b, g), Mid(a, r.pick(all)));
      q = Pt(q.x * 100003 + r.range(-7000, 7000) * q.w, q.y * 100003 + r.range(-7000, 7000) * q.w, q.z * 100003 + r.range(-7000, 7000) * q.w, q.w * 100003);
      bool far = true;     // from every plane
      for (auto& m : s.mesh) for (auto& f : m) {
        double nn = std::sqrt((f.pl.n.x * f.pl.n.x + f.pl.n.y * f.pl.n.y + f.pl.n.z * f.pl.n.z).convert_to<double>());
        Z v = f.pl.n.x * q.x + f.pl.n.y * q.y + f.pl.n.z * q.z - f.pl.d * q.w;
        double size = std::max({std::fabs(D(q.x, q.w)), std::fabs(D(q.y, q.w)), std::fabs(D(q.z, q.w)), 1e-3});
        if (std::fabs(v.convert_to<double>() / q.w.convert_to<double>() / nn) < 1e-7 * size) far = false;
      }
      if (far) qs.push_back(q);
    }
    d.resize(size_t(n));
  }
  void Told(size_t i) {
    O o;
    o("op", "input")("id", int(i) + 1).raw("raw", PtsJ(d[i].raw)).raw("q", PtsJ(d[i].q))("exact", e == INT_MIN)("e", e == INT_MIN ? 0 : -e);
    o.raw("polys", IdsJ(d[i].polys)).raw("strips", IdsJ(d[i].strips));
    c.ev(o);
  }
  void Input(size_t i) {
    d[i] = Data();
    Build(r, s.mesh[i], exact, e, &d[i]);
    Told(i);
  }
  void Import(size_t i) {
    bool flip = r.chance(1, 2);
    c.call(O()("op", "import")("id", int(i) + 1)("flip", flip));
    auto out = VTKToWalnutMesh(d[i].pd, e, flip);
    PtTab t;
    std::string f = FacetsJ(t, out);
    c.ev(O()("op", "import")("id", int(i) + 1)("flip", flip).raw("f", f).raw("pts", t.J()).raw("qs", QsJ(qs)));
  }
  void Export(size_t i) {
    std::vector<ConvexPolygon<>> in;
    for (auto& f : s.mesh[i]) in.push_back(ToPoly(r, f, true));
    c.call(O()("op", "export"));
    auto pd = WalnutToVTKMesh(in);
    PtTab t;
    A a, b;
    for (auto& p : in) { A v; for (size_t k = 0; k < p.vertex_count(); ++k) v(t.Add(p.vertex(k))); a.raw(v.str()); }
    size_t n = t.pts.size();
    for (auto& p : Read(pd)) { A v; for (auto& x : p) v(t.Add(x)); b.raw(v.str()); }
    (void)n;
    c.ev(O()("op", "export").raw("f", a.str()).raw("out", b.str()).raw("pts", t.J())("used", int(pd->GetNumberOfPoints())));
    // and back: the same as the input of these facets
    Data x;
    x.pd = pd;
    for (vtkIdType k = 0; k < pd->GetNumberOfPoints(); ++k) { double g[3]; pd->GetPoint(k, g); x.raw.push_back(FromD(g)); }
    x.q = x.raw;
    vtkIdType m;
    const vtkIdType* v;
    pd->GetPolys()->InitTraversal();
    while (pd->GetPolys()->GetNextCell(m, v)) x.polys.push_back(Ids(v, v + m));
    std::swap(d[i], x);
    int keep = e;
    e = INT_MIN;
    Told(i);
    Import(i);
    e = keep;
    std::swap(d[i], x);
    Told(i);
  }
  void Filters() {
    auto f = vtkSmartPointer<vtkWalnutBooleanFilter>::New();
    int errors = 0;
    auto watch = vtkSmartPointer<vtkCallbackCommand>::New();
    watch->SetClientData(&errors);
    watch->SetCallback([](vtkObject*, unsigned long, void* n, void*) { ++*static_cast<int*>(n); });
    f->AddObserver(vtkCommand::ErrorEvent, watch);
    std::vector<int> in;
    for (size_t i = 0; i < d.size(); ++i) in.push_back(int(i) + 1);
    r.shuffle(in);
    for (int i : in) f->AddInputData(d[size_t(i) - 1].pd);
    // at first the filter unites without rounding
    bool first = true;
    for (int k = r.range(1, 4); k > 0; --k) {
      int op = first && r.chance(1, 2) ? 0 : r.range(0, 2);
      if (!(first && op == 0)) switch (op) {
        case 0: f->SetOperationToUnion(); break;
        case 1: f->SetOperationToIntersection(); break;
        default: f->SetOperationToDifference();
      }
      if (first && e != INT_MIN) f->SetMinExponent(e);
      first = false;
      static const char* name[] = {"union", "intersection", "difference"};
      c.call(O()("op", "filter")("kind", name[op]).raw("ids", IntArr(in)));
      f->Update();
      vtkPolyData* out = f->GetOutput();
      PtTab t;
      A fs;
      bool ok = errors == 0 && out->GetNumberOfStrips() == 0;
      auto cells = Read(out);
      // diagonals of two inputs can cross at points that are not doubles: such coordinates fill the whole mantissa
      bool planar = this->planar;
      for (auto& p : cells) for (Pt& v : p) for (const Z* x : {&v.x, &v.y, &v.z}) if (*x != 0 && msb(abs(*x)) > 48) planar = false;
      for (auto& p : cells) {
        Facet x;
        if (planar) { if (MakeFacet(p, &x)) fs.raw(FacetOut(t, x)); else ok = false; }
        else for (size_t i = 2; i < p.size(); ++i) if (MakeFacet({p[0], p[i - 1], p[i]}, &x)) fs.raw(FacetOut(t, x));
      }
      O o;
      o("op", "filter")("kind", name[op]).raw("ids", IntArr(in))("planar", planar)("ok", ok)("distinct", Distinct(out));
      o.raw("f", fs.str()).raw("pts", t.J()).raw("qs", QsJ(qs));
      c.ev(o);
      if (r.chance(1, 4)) {
        // another input in its place
        size_t i = size_t(r.pick(in)) - 1;
        Input(i);
        f->RemoveAllInputs();
        for (int j : in) f->AddInputData(d[size_t(j) - 1].pd);
      }
    }
  }
};

static void Run(Case& c, const Opts& o) {
  vtkObject::GlobalWarningDisplayOff();
  Test t(c);
  c.ev(O()("op", "newtree"));
  t.Scenery(o.mode == "filter" ? t.r.chance(1, 8) ? 1 : t.r.range(2, 3) : 1);
  for (size_t i = 0; i < t.d.size(); ++i) t.Input(i);
  if (o.mode == "filter") t.Filters();
  else {
    t.Import(0);
    t.Export(0);
    t.Import(0);
  }
}

int main(int argc, char** argv) { return Main(argc, argv, Run); }
