#include <cstring>
#include "jsonio.h"
#include "lib/Utils/APIntUtils.h"
#include "lib/Utils/AffineMapUtils.h"
#include "lib/Utils/LogArithmetic.h"
#include "lib/Utils/MathUtils.h"
#include "lib/Utils/TensorUtils.h"
#include "mlir/include/mlir/IR/Builders.h"
#include "mlir/include/mlir/IR/BuiltinTypes.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
using namespace hv;
using namespace mlir::heir;
using llvm::APInt;
using llvm::APFloat;
static APInt ap(const Object& o, const char* k, unsigned w) { return APInt(w, S(o, k), 10); }
static std::string st(const APInt& x) { llvm::SmallString<40> s; x.toStringUnsigned(s); return std::string(s); }
static int64_t fx(double d) { return std::isfinite(d) ? (int64_t)std::llround(d * 1048576.0) : (d < 0 ? -2000000000 : 2000000000); }
static mlir::AffineExpr expr(const Value& v, mlir::MLIRContext* c) {
  auto& a = *v.getAsArray();
  std::string k = a[0].getAsString()->str();
  if (k == "d") return mlir::getAffineDimExpr(*a[1].getAsInteger(), c);
  if (k == "c") return mlir::getAffineConstantExpr(*a[1].getAsInteger(), c);
  auto l = expr(a[1], c), r = expr(a[2], c);
  if (k == "+") return l + r;
  if (k == "*") return l * r;
  if (k == "mod") return l % r;
  if (k == "fdiv") return l.floorDiv(r);
  return l.ceilDiv(r);
}
static mlir::AffineMap mapOf(const Object& o, mlir::MLIRContext* c) {
  llvm::SmallVector<mlir::AffineExpr> es;
  for (auto& e : *o.getArray("map")) es.push_back(expr(e, c));
  return mlir::AffineMap::get(I(o, "nd"), 0, es, c);
}
static Array points(mlir::AffineMap m, const std::vector<int64_t>& sh) {
  Array r;
  std::vector<int64_t> p(sh.size(), 0);
  while (true) {
    llvm::SmallVector<int64_t> out;
    evaluateStatic(m, p, out);
    r.push_back(A(out));
    int d = (int)sh.size() - 1;
    while (d >= 0 && ++p[d] == sh[d]) p[d--] = 0;
    if (d < 0) break;
  }
  return r;
}
int main() {
  mlir::MLIRContext ctx;
  return run([&](const Object& o) -> Value {
    std::string c = S(o, "c");
    unsigned w = I(o, "w", 64);
    Object r;
    auto ty = [&](const char* k) { auto s = L(o, k); return mlir::RankedTensorType::get(s, mlir::IndexType::get(&ctx)); };
    if (c == "inv") r["r"] = st(multiplicativeInverse(ap(o, "a", w), ap(o, "m", w)));
    else if (c == "mulmod") r["r"] = st(modularMultiplication(ap(o, "a", w), ap(o, "b", w), ap(o, "m", w)));
    else if (c == "pow") r["r"] = st(modularExponentiation(ap(o, "a", w), ap(o, "b", w), ap(o, "m", w)));
    else if (c == "prime") r["r"] = isPrime(ap(o, "a", w));
    else if (c == "factor") { Array a; for (auto& x : factorize(ap(o, "a", w))) a.push_back(st(x)); r["r"] = std::move(a); }
    else if (c == "root") { auto x = findPrimitiveRoot(ap(o, "m", w)); r["r"] = x ? st(*x) : "none"; }
    else if (c == "root2n") { auto x = findPrimitive2nthRoot(ap(o, "m", w), I(o, "n")); r["r"] = x ? st(*x) : "none"; }
    else if (c == "npow2") r["r"] = std::to_string(nextPowerOfTwo(std::stoull(S(o, "a"))));
    else if (c == "ispow2") r["r"] = isPowerOfTwo(std::stoll(S(o, "a")));
    else if (c == "fconv") {
      double x = std::ldexp((double)I(o, "m"), (int)I(o, "e"));
      std::string t = S(o, "to");
      const llvm::fltSemantics& s = t == "half" ? APFloat::IEEEhalf() : t == "bf16" ? APFloat::BFloat() : t == "f32" ? APFloat::IEEEsingle() : APFloat::IEEEdouble();
      APFloat y = convertFloatToSemantics(APFloat(x), s);
      bool lose;
      bool same = &y.getSemantics() == &s;
      APFloat z = y;
      z.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
      double d = z.convertToDouble();
      int e = 0;
      if (std::isinf(d)) { r["inf"] = 1; r["m"] = d < 0 ? -1 : 1; r["e"] = 0; }
      else { double f = std::frexp(d, &e); int64_t mm = (int64_t)std::ldexp(f, 30); bool exact = std::ldexp((double)mm, e - 30) == d;
             while (mm && mm % 2 == 0) { mm /= 2; e++; }
             r["inf"] = 0; r["m"] = mm; r["e"] = mm ? e - 30 : 0; r["exact"] = exact; }
      r["same"] = same;
    } else if (c == "log") {
      // a, b are non-negative integers scaled by 2^k
      double a = std::ldexp(D(o, "a"), I(o, "ka")), b = std::ldexp(D(o, "b"), I(o, "kb"));
      auto x = Log2Arithmetic::of(a), y = Log2Arithmetic::of(b);
      auto s = x + y, s2 = y + x, p = x * y, p2 = y * x;
      r["x"] = fx(x.getLog2Value()); r["y"] = fx(y.getLog2Value());
      r["s"] = fx(s.getLog2Value()); r["s2"] = fx(s2.getLog2Value());
      r["p"] = fx(p.getLog2Value()); r["p2"] = fx(p2.getLog2Value());
      auto rd = [](double d) { return std::fabs(d) < 2e9 ? (int64_t)std::llround(d) : (int64_t)-1; };
      r["vx"] = rd(x.getValue()); r["vy"] = rd(y.getValue()); r["vs"] = rd(s.getValue()); r["vp"] = rd(p.getValue());
      r["lt"] = x < y; r["gt"] = y < x; r["eq"] = x == y; r["seq"] = s == s2;
      r["zero"] = fx((x + Log2Arithmetic()).getLog2Value()); r["zp"] = fx((x * Log2Arithmetic()).getLog2Value());
    } else if (c == "rowmajor" || c == "diag") {
      auto in = ty("in"), out = ty("out");
      auto m = c == "diag" ? getDiagonalLayoutMap(in, out) : getRowMajorLayoutMap(in, out);
      r["nd"] = (int64_t)m.getNumDims(); r["nr"] = (int64_t)m.getNumResults();
      r["pts"] = points(m, L(o, "in"));
      r["is"] = c == "diag" ? isLayoutSquatDiagonal(in, out, m) : isLayoutRowMajor(in, out, m);
    } else if (c == "islayout") {
      auto in = ty("in"), out = ty("out");
      auto m = mapOf(o, &ctx);
      r["rm"] = isLayoutRowMajor(in, out, m);
      r["sq"] = isLayoutSquatDiagonal(in, out, m);
      r["pts"] = points(m, L(o, "in"));
    } else if (c == "perm") {
      auto p = L(o, "p");
      r["r"] = isPermutation(p);
      r["id"] = A(identity(I(o, "n")));
      r["idp"] = isPermutation(identity(I(o, "n")));
    } else if (c == "map1d") {
      llvm::SmallVector<int64_t> res;
      r["ok"] = mlir::succeeded(makeExplicit1DMapping(mapOf(o, &ctx), I(o, "n"), res));
      r["r"] = A(res);
    } else if (c == "flat") {
      auto sh = L(o, "sh"), ix = L(o, "ix");
      r["r"] = getFlattenedIndex(ty("sh"), llvm::SmallVector<int64_t>(ix.begin(), ix.end()));
      mlir::Builder b(&ctx);
      llvm::SmallVector<mlir::OpFoldResult> of;
      for (auto x : ix) of.push_back(b.getIndexAttr(x));
      auto f = getFlattenedIndex(ty("sh"), of);
      r["rf"] = mlir::succeeded(f) ? *f : -1;
      r["back"] = A(getIndicesFromRowMajorShape(I(o, "i"), llvm::SmallVector<int64_t>(sh.begin(), sh.end())));
    } else if (c == "reassoc") {
      auto p = L(o, "pos");
      Array a;
      for (auto& g : getReassociationForReshapeAtDim(I(o, "rank"), p)) a.push_back(A(g));
      r["r"] = std::move(a);
    } else exit(3);
    return r;
  });
}
