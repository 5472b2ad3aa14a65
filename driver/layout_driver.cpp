// Layout relations: one expression language over the real constructors.
#include "jsonio.h"
#include "lib/Utils/Layout/Codegen.h"
#include "lib/Utils/Layout/Convolution.h"
#include "lib/Utils/Layout/Evaluate.h"
#include "lib/Utils/Layout/Hoisting.h"
#include "lib/Utils/Layout/IslConversion.h"
#include "lib/Utils/Layout/Utils.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/MLIRContext.h"
using namespace hv;
using namespace mlir;
using namespace mlir::heir;
using presburger::IntegerRelation;
using presburger::PresburgerSpace;
using presburger::VarKind;
static MLIRContext* mctx;
static RankedTensorType T(const std::vector<int64_t>& s) {
  return RankedTensorType::get(s, IntegerType::get(mctx, 32));
}
static RankedTensorType T(const Object& o, const char* k) { return T(L(o, k)); }
static SmallVector<int64_t> SV(const std::vector<int64_t>& v) { return SmallVector<int64_t>(v.begin(), v.end()); }
static SmallVector<ReassociationIndices> RA(const Object& o, const char* k) {
  SmallVector<ReassociationIndices> r;
  for (auto& g : LL(o, k)) r.push_back(ReassociationIndices(g.begin(), g.end()));
  return r;
}
using Rels = std::vector<IntegerRelation>;
static std::optional<Rels> build(const Object& o);
static std::optional<Rels> one(FailureOr<IntegerRelation> r) {
  if (failed(r)) return std::nullopt;
  return Rels{*r};
}
static IntegerRelation sub(const Object& o, const char* k) {
  auto r = build(*o.getObject(k));
  if (!r) { fprintf(stderr, "operand relation failed\n"); exit(7); }
  return (*r)[0];
}
static std::optional<Rels> build(const Object& o) {
  std::string k = S(o, "k");
  int64_t n = I(o, "n"), st = I(o, "stride", 1), pad = I(o, "pad");
  auto sts = L(o, "strides");
  if (k == "isl") return one(getIntegerRelationFromIslStr(S(o, "s")));
  if (k == "con") {
    int64_t d = I(o, "d"), r = I(o, "r"), nv = d + r;
    IntegerRelation rel(PresburgerSpace::getRelationSpace(d, r, 0, 0));
    auto lo = L(o, "lo"), hi = L(o, "hi");
    for (int64_t i = 0; i < nv; ++i) addBounds(rel, i, lo[i], hi[i]);
    auto add = [&](std::vector<int64_t> c, bool eq) {   // nv coefficients, constant
      SmallVector<std::pair<int64_t, int64_t>> pc;
      for (int64_t i = 0; i < nv; ++i) if (c[i]) pc.push_back({i, c[i]});
      pc.push_back({rel.getNumCols() - 1, c[nv]});
      addConstraint(rel, pc, eq);
    };
    for (auto& c : LL(o, "eq")) add(c, true);
    for (auto& c : LL(o, "ge")) add(c, false);
    for (auto& c : LL(o, "mods")) {    // nv coefficients, constant, modulus, value
      SmallVector<int64_t> e(rel.getNumCols(), 0);
      for (int64_t i = 0; i < nv; ++i) e[i] = c[i];
      e.back() = c[nv];
      unsigned m = addModConstraint(rel, e, c[nv + 1]);
      addConstraint(rel, {{(int64_t)m, 1}, {rel.getNumCols() - 1, -c[nv + 2]}}, true);
    }
    return Rels{rel};
  }
  if (k == "rowmajor") return Rels{getRowMajorLayoutRelation(T(o, "shape"), n)};
  if (k == "diagonal") return Rels{getDiagonalLayoutRelation(T(o, "shape"), n)};
  if (k == "bicyclic") return Rels{getBicyclicLayoutRelation(T(o, "shape"), n)};
  if (k == "tricyclic") return Rels{getTricyclicLayoutRelation(T(o, "shape"), n)};
  if (k == "bicyclicdiag") return Rels{getBicyclicDiagonalRelation(T(o, "shape"), I(o, "dim"), st, n)};
  if (k == "periodic") return Rels{getPeriodicReplicationRelation(I(o, "cts"), n, I(o, "period"))};
  if (k == "perrow") return Rels{getPerRowLayoutRelation(T(o, "shape"), n)};
  if (k == "diag2d") return one(diagonalize2dMatrix(sub(o, "of"), T(o, "shape"), n));
  if (k == "collapse") return Rels{collapseDimensions(sub(o, "of"), T(o, "shape"), RA(o, "groups"))};
  if (k == "expand") return Rels{expandDimensions(sub(o, "of"), T(o, "shape"), RA(o, "groups"))};
  if (k == "fix") return Rels{fixVars(sub(o, "of"), L(o, "v"), Bo(o, "dom") ? VarKind::Domain : VarKind::Range)};
  if (k == "collapsed") return Rels{getCollapsedRelation(T(o, "src"), T(o, "dst"), RA(o, "groups"))};
  if (k == "sliceins") return one(getSliceInsertionRelation(T(o, "slice"), T(o, "shape"), SV(L(o, "off")), SV(L(o, "sizes")), SV(sts)));
  if (k == "sliceext") return one(getSliceExtractionRelation(T(o, "shape"), T(o, "slice"), SV(L(o, "off")), SV(L(o, "sizes")), SV(sts)));
  if (k == "shift") return Rels{shiftVar(sub(o, "of"), I(o, "pos"), I(o, "by"))};
  if (k == "padding") { auto l = L(o, "low"); return Rels{getPaddingRelation(T(o, "padded"), T(o, "shape"), l)}; }
  if (k == "prepend") {
    auto r = sub(o, "of");
    if (o.get("lb")) prependPassthroughDim(r, I(o, "lb"), I(o, "ub")); else prependPassthroughDim(r);
    return Rels{r};
  }
  if (k == "foldperm") return Rels{foldVectorPermutationIntoMatrixLayout(sub(o, "perm"), sub(o, "of"))};
  if (k == "hoist") return Rels{hoistConversionThroughMatvec(sub(o, "of"), sub(o, "from"), sub(o, "to"))};
  if (k == "push") { auto s = L(o, "shape"); return one(pushSliceLayoutThroughInsertSlice(SV(L(o, "sizes")), s, sub(o, "of"))); }
  if (k == "round") {
    isl_ctx* c = isl_ctx_alloc();
    auto r = convertBasicMapToRelation(convertRelationToBasicMap(sub(o, "of"), c));
    return Rels{r};   // the conversion frees the map and its context
  }
  if (k == "conv1") return Rels{get1dConvFilterRelation(T(o, "filter"), T(o, "data"), st, pad)};
  if (k == "conv2") return Rels{get2dConvFilterRelation(T(o, "filter"), T(o, "data"), sts, pad)};
  if (k == "conv1c") return Rels{get1dConvCwFcwFilterRelation(T(o, "filter"), T(o, "data"), st, pad)};
  if (k == "conv2c") return Rels{get2dConvChwFchwFilterRelation(T(o, "filter"), T(o, "data"), sts, pad)};
  if (k == "convdiag") return one(getConvFilterDiagonalizedRelation(T(o, "filter"), T(o, "data"), pad, n));
  if (k == "conv1cdiag") return one(get1dConvCwFcwFilterDiagonalizedRelation(T(o, "filter"), T(o, "data"), st, pad, n, Bo(o, "inter")));
  if (k == "conv2cseq") {
    auto r = get2dConvChwFchwFilterAsSequence(T(o, "filter"), T(o, "data"), sts, pad, n, Bo(o, "inter"));
    if (failed(r)) return std::nullopt;
    return Rels(r->begin(), r->end());
  }
  if (k == "inter1") return Rels{get1dConvRowInterchangeRelation(I(o, "ch"), I(o, "w"), I(o, "g"))};
  if (k == "inter2") return Rels{get2dConvRowInterchangeRelation(I(o, "ch"), I(o, "h"), I(o, "w"), I(o, "g"))};
  if (k == "result1") return Rels{get1dConvResultRelation(T(o, "shape"), st, pad, n, Bo(o, "inter"))};
  if (k == "result2") return Rels{get2dConvResultRelation(T(o, "shape"), sts, pad, n)};
  if (k == "inter2lay") return Rels{get2dConvRowInterchangeLayoutRelation(T(o, "shape"), sts, n)};
  fprintf(stderr, "unknown relation %s\n", k.c_str());
  exit(9);
}
static Array points(const IntegerRelation& r) {
  int d = r.getNumDomainVars(), g = r.getNumRangeVars();
  PointPairCollector c(d, g);
  enumeratePoints(r, c);
  Array a;
  for (auto& [x, y] : c.points) {
    Array p;
    for (auto v : x) p.push_back(v);
    for (auto v : y) p.push_back(v);
    a.push_back(std::move(p));
  }
  return a;
}
int main() {
  MLIRContext ctx;
  mctx = &ctx;
  return run([&](const Object& c) -> hv::Value {
    Object o;
    if (auto* tys = c.getObject("types")) {
      auto f = T(*tys, "filter"), d = T(*tys, "data");
      int64_t pad = I(*tys, "pad");
      auto sts = L(*tys, "strides");
      std::vector<int64_t> r;
      switch (f.getRank()) {
        case 1: r = get1dConvFilterExpandedType(f, d, sts[0], pad).getShape(); break;
        case 2: r = get2dConvFilterExpandedType(f, d, pad, sts).getShape(); break;
        case 3: r = get1dConvCwFcwFilterExpandedType(f, d, sts[0], pad).getShape(); break;
        default: r = get2dConvChwFchwFilterExpandedType(f, d, pad, sts).getShape();
      }
      o["type"] = A(r);
    }
    auto rels = build(*c.getObject("r"));
    if (!rels) { o["failed"] = true; return o; }
    IntegerRelation& r = (*rels)[0];
    o["dr"] = Array{(int64_t)r.getNumDomainVars(), (int64_t)r.getNumRangeVars()};
    auto* q = c.getObject("q");
    if (Bo(*q, "dump")) r.dump();
    if (Bo(*q, "pts")) {
      if (rels->size() == 1) o["pts"] = points(r);
      else { Array a; for (auto& x : *rels) a.push_back(points(x)); o["seq"] = std::move(a); }
    }
    if (q->get("lo")) {   // membership over a box, by the relation's own constraints
      auto lo = L(*q, "lo"), hi = L(*q, "hi"), p = lo;
      Array a;
      while (true) {
        if (r.containsPointNoLocal(p)) a.push_back(A(p));
        int i = (int)p.size() - 1;
        for (; i >= 0; --i) { if (++p[i] <= hi[i]) break; p[i] = lo[i]; }
        if (i < 0) break;
      }
      o["in"] = std::move(a);
    }
    if (Bo(*q, "range")) { PointCollector pc; getRangePoints(r, pc); o["range"] = AA(pc.points); }
    if (Bo(*q, "any")) o["any"] = A(anyRangePoint(r));
    if (q->get("comp")) { PointCollector pc; getCtComplementPoints(r, pc, T(*q, "comp")); o["comp"] = AA(pc.points); }
    if (Bo(*q, "size")) o["size"] = relationSize(r);
    if (q->get("dense")) o["dense"] = isDenseLayout(r, T(*q, "dense"));
    if (auto* t = q->getObject("rec")) {
      auto ty = T(*t, "shape");
      int64_t n = I(*t, "n");
      o["one"] = r.getNumRangeVars() == 2 ? isOneToOneSingleCiphertextPacking(r) : false;
      o["rm"] = isRelationRowMajor(ty, n, r);
      if (ty.getRank() == 2) { o["sq"] = isRelationSquatDiagonal(ty, n, r); o["pr"] = isRelationPerRow(ty, n, r); }
      o["bi"] = isRelationBicyclic(ty, n, r);
      o["tri"] = isRelationTricyclic(ty, n, r);
    }
    if (auto* t = q->getObject("crec"))
      o["cd"] = isRelationConvFilterDiagonalized(T(*t, "filter"), T(*t, "data"), I(*t, "pad"), I(*t, "n"), r);
    if (q->getObject("eq")) {
      auto r2 = sub(*q, "eq");
      o["eq"] = isRelationEqual(r, r2);
      o["uneq"] = succeeded(tryProveUnequalByVolume(r, r2));
      o["pts2"] = points(r2);
    }
    if (Bo(*q, "c")) {
      std::vector<int> sch = L<int>(*q, "sched");
      auto s = generateLoopNestAsCStr(r, sch);
      if (failed(s)) o["cfail"] = true; else o["code"] = *s;
    }
    if (auto* v = q->get("eval")) {   // domain is a vector or a matrix
      auto* a = v->getAsArray();
      (void)a;
      auto m = LL(*q, "eval");
      std::vector<std::vector<int64_t>> packed;
      std::optional<SmallVector<int64_t>> os;
      if (q->get("oshape")) os = SV(L(*q, "oshape"));
      if (r.getNumDomainVars() == 1) {
        packed = evaluateLayoutOnVector<int64_t>(r, m[0], os);
        o["unpacked"] = Array{A(unpackLayoutToVector<int64_t>(r, packed, {(int64_t)m[0].size()}))};
      } else {
        packed = evaluateLayoutOnMatrix<int64_t>(r, m);
        o["unpacked"] = AA(unpackLayoutToMatrix<int64_t>(r, packed, {(int64_t)m.size(), (int64_t)m[0].size()}));
      }
      o["packed"] = AA(packed);
    }
    return o;
  });
}
