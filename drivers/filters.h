// Mesh filters together with the description the specification evaluates.
#ifndef VT_FILTERS_H
#define VT_FILTERS_H
#include "vt.h"

#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_visitor.h"

namespace vt {

using FilterFn = std::function<std::pair<bool, bool>(const std::vector<walnut::BSPContentInfo>&)>;

struct F { FilterFn fn; std::string j; };
inline bool Oriented(const F& f) { return f.j.find("odd") == std::string::npos && f.j.find("xor") == std::string::npos; }

inline F PolyF(int id) { return {walnut::PolygonFilter(size_t(id)), O()("k", "pos")("id", id).str()}; }
inline F InvF(int id) { return {walnut::InvertedPolygonFilter(size_t(id)), O()("k", "nonneg")("id", id).str()}; }
inline F OddF(int id) { return {walnut::OddPolygonFilter(size_t(id)), O()("k", "odd")("id", id).str()}; }
inline F AndF(F a, F b) { return {walnut::MakeIntersectionFilter(a.fn, b.fn), O()("k", "and").raw("a", a.j).raw("b", b.j).str()}; }
inline F OrF(F a, F b) { return {walnut::MakeUnionFilter(a.fn, b.fn), O()("k", "or").raw("a", a.j).raw("b", b.j).str()}; }
inline F SubF(F a, F b) { return {walnut::MakeSubtractionFilter(a.fn, b.fn), O()("k", "and").raw("a", a.j).raw("b", b.j).str()}; }
inline F XorF(F a, F b) { return {walnut::MakeXORFilter(a.fn, b.fn), O()("k", "xor").raw("a", a.j).raw("b", b.j).str()}; }
inline std::vector<walnut::BSPContentId> Ids(const std::vector<int>& v) {
  std::vector<walnut::BSPContentId> r;
  for (int x : v) r.push_back(walnut::BSPContentId(x));
  return r;
}
inline F IdsF(const char* op, const std::vector<int>& ids, bool set = false) {
  FilterFn fn;
  if (!strcmp(op, "union")) { walnut::UnionIdsFilter f(set ? Ids({}) : Ids(ids)); if (set) f.SetIds(Ids(ids)); fn = f; }
  else if (!strcmp(op, "isect")) { walnut::IntersectIdsFilter f(set ? Ids({}) : Ids(ids)); if (set) f.SetIds(Ids(ids)); fn = f; }
  else { walnut::SubtractIdsFilter f(set ? Ids({}) : Ids(ids)); if (set) f.SetIds(Ids(ids)); fn = f; }
  return {fn, O()("k", op).raw("ids", IntArr(ids)).str()};
}

}  // namespace vt
#endif
