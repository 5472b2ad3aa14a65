// Exports a module as JSON: the recording side of the conformance checks.
#ifndef VERIF_DUMP_JSON_H
#define VERIF_DUMP_JSON_H
#include "lib/Dialect/Mgmt/IR/MgmtAttributes.h"
#include "lib/Dialect/ModArith/IR/ModArithAttributes.h"
#include "lib/Dialect/ModArith/IR/ModArithTypes.h"
#include "lib/Dialect/Polynomial/IR/PolynomialAttributes.h"
#include "lib/Dialect/Polynomial/IR/PolynomialTypes.h"
#include "lib/Dialect/RNS/IR/RNSAttributes.h"
#include "lib/Dialect/RNS/IR/RNSTypes.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/TensorExt/IR/TensorExtAttributes.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/IntegerSet.h"
#include "mlir/Pass/Pass.h"

namespace verif {
using namespace mlir;
namespace json = llvm::json;

template <typename T>
std::string str(T t) {
  std::string s;
  llvm::raw_string_ostream os(s);
  t.print(os);
  return s;
}
inline json::Value num(const llvm::APInt& v) {
  if (v.isSignedIntN(31)) return v.getSExtValue();
  llvm::SmallString<40> s;
  v.toString(s, 10, true);
  return json::Object{{"big", s.str().str()}};
}
inline json::Value num(const llvm::APFloat& v) {
  llvm::SmallString<40> s;
  v.toString(s, 24);
  return json::Object{{"f", s.str().str()}};
}
inline json::Value poly(const heir::polynomial::IntPolynomial& p) {
  json::Array r;
  for (auto& m : p.getTerms()) r.push_back(json::Array{num(m.getCoefficient()), num(m.getExponent())});
  return r;
}
inline json::Value typ(Type t) {
  if (auto i = dyn_cast<IntegerType>(t)) return json::Object{{"k", "int"}, {"w", i.getWidth()}};
  if (isa<IndexType>(t)) return json::Object{{"k", "index"}};
  if (auto f = dyn_cast<FloatType>(t)) return json::Object{{"k", "float"}, {"w", f.getWidth()}};
  if (auto s = dyn_cast<heir::secret::SecretType>(t))
    return json::Object{{"k", "secret"}, {"e", typ(s.getValueType())}};
  if (auto m = dyn_cast<heir::mod_arith::ModArithType>(t))
    return json::Object{{"k", "mod"}, {"q", num(m.getModulus().getValue())}, {"w", m.getModulus().getValue().getBitWidth()}};
  if (auto r = dyn_cast<heir::rns::RNSType>(t)) {
    json::Array q;
    for (auto b : r.getBasisTypes()) q.push_back(typ(b));
    return json::Object{{"k", "rns"}, {"b", std::move(q)}};
  }
  if (auto p = dyn_cast<heir::polynomial::PolynomialType>(t)) {
    json::Object o{{"k", "poly"}, {"c", typ(p.getRing().getCoefficientType())},
                   {"form", p.getForm() == heir::polynomial::Form::EVAL ? "eval" : "coeff"}};
    if (auto m = p.getRing().getPolynomialModulus()) o["m"] = poly(m.getPolynomial());
    return o;
  }
  if (auto s = dyn_cast<ShapedType>(t)) {
    json::Array sh;
    if (s.hasRank())
      for (auto d : s.getShape()) sh.push_back(d < 0 ? -1 : d);
    json::Object o{{"k", isa<MemRefType>(t) ? "memref" : isa<VectorType>(t) ? "vector" : "tensor"},
                   {"sh", std::move(sh)}, {"e", typ(s.getElementType())}};
    if (auto rt = dyn_cast<RankedTensorType>(t))
      if (rt.getEncoding()) o["enc"] = str(rt.getEncoding());
    return o;
  }
  return json::Object{{"k", "other"}, {"s", str(t)}};
}
inline json::Value aff(AffineExpr e) {
  if (auto d = dyn_cast<AffineDimExpr>(e)) return json::Array{"d", (int64_t)d.getPosition()};
  if (auto d = dyn_cast<AffineSymbolExpr>(e)) return json::Array{"s", (int64_t)d.getPosition()};
  if (auto d = dyn_cast<AffineConstantExpr>(e)) return json::Array{"c", d.getValue()};
  auto b = cast<AffineBinaryOpExpr>(e);
  const char* k = e.getKind() == AffineExprKind::Add ? "+" : e.getKind() == AffineExprKind::Mul ? "*"
                : e.getKind() == AffineExprKind::Mod ? "mod" : e.getKind() == AffineExprKind::FloorDiv ? "fdiv" : "cdiv";
  return json::Array{k, aff(b.getLHS()), aff(b.getRHS())};
}
inline json::Value map(AffineMap m) {
  json::Array r;
  for (auto e : m.getResults()) r.push_back(aff(e));
  return json::Object{{"nd", m.getNumDims()}, {"ns", m.getNumSymbols()}, {"res", std::move(r)}};
}
inline json::Value attr(Attribute a) {
  if (auto b = dyn_cast<BoolAttr>(a)) return b.getValue() ? 1 : 0;
  if (auto i = dyn_cast<IntegerAttr>(a)) return num(i.getValue());
  if (auto f = dyn_cast<FloatAttr>(a)) return num(f.getValue());
  if (auto s = dyn_cast<StringAttr>(a)) return s.getValue().str();
  if (auto s = dyn_cast<SymbolRefAttr>(a)) return s.getLeafReference().str();
  if (auto s = dyn_cast<TypeAttr>(a)) return typ(s.getValue());
  if (isa<UnitAttr>(a)) return 1;
  if (auto m = dyn_cast<AffineMapAttr>(a)) return map(m.getValue());
  if (auto m = dyn_cast<IntegerSetAttr>(a)) {
    json::Array c, eq;
    auto s = m.getValue();
    for (unsigned i = 0; i < s.getNumConstraints(); ++i) {
      c.push_back(aff(s.getConstraint(i)));
      eq.push_back(s.isEq(i) ? 1 : 0);
    }
    return json::Object{{"nd", s.getNumDims()}, {"ns", s.getNumSymbols()}, {"con", std::move(c)}, {"eq", std::move(eq)}};
  }
  if (auto m = dyn_cast<heir::mod_arith::ModArithAttr>(a)) return num(m.getValue().getValue());
  if (auto m = dyn_cast<heir::rns::RNSAttr>(a)) {
    json::Array r;
    for (auto v : m.getValues()) r.push_back(attr(v));
    return r;
  }
  if (auto m = dyn_cast<heir::polynomial::TypedIntPolynomialAttr>(a)) return json::Object{{"poly", poly(m.getValue().getPolynomial())}};
  if (auto m = dyn_cast<heir::polynomial::IntPolynomialAttr>(a)) return json::Object{{"poly", poly(m.getPolynomial())}};
  if (auto m = dyn_cast<heir::polynomial::RNSPolynomialAttr>(a)) return json::Object{{"limbs", attr(m.getCoefficients())}};
  if (auto m = dyn_cast<heir::polynomial::PrimitiveRootAttr>(a)) return attr(m.getValue());
  if (auto l = dyn_cast<heir::tensor_ext::LayoutAttr>(a)) return json::Object{{"layout", l.getLayoutStr()}};
  if (auto x = dyn_cast<ArrayAttr>(a)) {
    json::Array r;
    for (auto e : x) r.push_back(attr(e));
    return r;
  }
  if (auto x = dyn_cast<DictionaryAttr>(a)) {
    json::Object r;
    for (auto e : x) r[e.getName().str()] = attr(e.getValue());
    return r;
  }
  if (auto x = dyn_cast<DenseI64ArrayAttr>(a)) { json::Array r; for (auto e : x.asArrayRef()) r.push_back(num(llvm::APInt(64, e, true))); return r; }
  if (auto x = dyn_cast<DenseI32ArrayAttr>(a)) { json::Array r; for (auto e : x.asArrayRef()) r.push_back((int64_t)e); return r; }
  if (auto x = dyn_cast<DenseBoolArrayAttr>(a)) { json::Array r; for (auto e : x.asArrayRef()) r.push_back(e ? 1 : 0); return r; }
  if (auto x = dyn_cast<DenseIntElementsAttr>(a)) {
    json::Array r;
    for (auto e : x.getValues<llvm::APInt>()) r.push_back(num(x.getElementType().isInteger(1) ? e.zext(8) : e));
    return json::Object{{"dense", std::move(r)}, {"type", typ(x.getType())}};
  }
  if (auto x = dyn_cast<DenseFPElementsAttr>(a)) {
    json::Array r;
    for (auto e : x.getValues<llvm::APFloat>()) r.push_back(num(e));
    return json::Object{{"dense", std::move(r)}, {"type", typ(x.getType())}};
  }
  return str(a);
}
struct Dumper {
  llvm::DenseMap<Value, int64_t> ids;
  int64_t id(Value v) { return ids.try_emplace(v, ids.size() + 1).first->second; }
  json::Value op(Operation& o) {
    json::Array in, out, t, rs;
    for (Value v : o.getOperands()) in.push_back(id(v));
    for (Value v : o.getResults()) { out.push_back(id(v)); t.push_back(typ(v.getType())); }
    for (Region& r : o.getRegions()) rs.push_back(region(r));
    json::Object at;
    for (auto a : o.getAttrDictionary()) at[a.getName().str()] = attr(a.getValue());
    if (auto l = dyn_cast<linalg::LinalgOp>(o)) {
      json::Array ms, rg;
      for (auto m : l.getIndexingMapsArray()) ms.push_back(map(m));
      for (auto n : l.getStaticLoopRanges()) rg.push_back(n < 0 ? -1 : n);
      at["dump_maps"] = std::move(ms);
      at["dump_ranges"] = std::move(rg);
    }
    json::Array it;
    for (Value v : o.getOperands()) it.push_back(typ(v.getType()));
    return json::Object{{"op", o.getName().getStringRef().str()}, {"in", std::move(in)}, {"it", std::move(it)},
                        {"out", std::move(out)}, {"t", std::move(t)}, {"a", std::move(at)}, {"r", std::move(rs)}};
  }
  json::Value region(Region& r) {
    json::Array bs;
    for (Block& b : r) {
      json::Array as, ts, ops;
      for (Value v : b.getArguments()) { as.push_back(id(v)); ts.push_back(typ(v.getType())); }
      for (Operation& o : b) ops.push_back(op(o));
      bs.push_back(json::Object{{"args", std::move(as)}, {"t", std::move(ts)}, {"ops", std::move(ops)}});
    }
    return bs;
  }
};
struct DumpJson : public PassWrapper<DumpJson, OperationPass<ModuleOp>> {
  MLIR_DEFINE_EXPLICIT_INTERNAL_INLINE_TYPE_ID(DumpJson)
  DumpJson() = default;
  DumpJson(const DumpJson& o) : PassWrapper(o) {}
  StringRef getArgument() const override { return "dump-json"; }
  StringRef getDescription() const override { return "record the module as JSON"; }
  Option<std::string> out{*this, "out", llvm::cl::desc("file"), llvm::cl::init("-")};
  void runOnOperation() override {
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec, llvm::sys::fs::OF_Append);
    Dumper d;
    json::Value m = d.op(*getOperation());
    json::Object mg;
    for (auto [v, n] : d.ids)
      if (auto a = heir::mgmt::findMgmtAttrAssociatedWith(v))
        mg[std::to_string(n)] = json::Array{a.getLevel(), a.getDimension(), a.getScale()};
    if (!mg.empty()) m.getAsObject()->insert({"mgmt", std::move(mg)});
    os << m << "\n";
    markAllAnalysesPreserved();
  }
};
}  // namespace verif
#endif
