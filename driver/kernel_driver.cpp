#include <optional>
#include "dagio.h"
#include "lib/Analysis/RotationAnalysis/RotationEvalVisitor.h"
#include "lib/Kernel/EvalVisitor.h"
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Kernel/RotationCountVisitor.h"
#include "lib/Utils/RotationUtils.h"
using namespace hv;
using mlir::heir::evalRotations;

template <class T>
std::shared_ptr<ArithmeticDagNode<T>> kernel(const Object& o, const std::function<T(const char*)>& in) {
  using N = ArithmeticDagNode<T>;
  std::string k = S(o, "kernel");
  int64_t n = I(o, "slots");
  DagType ty = DagType::intTensor(32, {n});
  std::map<int, bool> zd;
  for (auto z : L(o, "zero")) zd[z] = true;
  bool unroll = Bo(o, "unroll", true);
  std::string red = S(o, "reduce").empty() ? "arith.addi" : S(o, "reduce");
  if (k == "matvec") return implementMatvec<T>(mlir::heir::KernelName::MatvecDiagonal, in("m"), in("v"));
  if (k == "rar") {
    std::optional<T> pt;
    if (o.get("m")) pt = in("m");
    return implementRotateAndReduce<T>(in("v"), pt, I(o, "period"), I(o, "steps"), ty, zd, red, unroll);
  }
  if (k == "hs") return implementHaleviShoup<T>(in("v"), in("m"), L(o, "shape"), ty, zd, unroll);
  if (k == "dot") return implementDot<T>(in("v"), in("w"), I(o, "steps"), ty);
  if (k == "bcast") {
    std::optional<std::shared_ptr<N>> mask;
    if (o.get("mask")) mask = N::leaf(in("mask"));
    return implementBroadcastedReduce<T>(N::leaf(in("v")), mask, I(o, "period"), I(o, "steps"), n, ty, red, unroll);
  }
  if (k == "bicyclic") return implementBicyclicMatmul<T>(in("v"), in("w"), I(o, "dm"), I(o, "dn"), I(o, "dp"), ty);
  if (k == "tricyclic") return implementTricyclicBatchMatmul<T>(in("v"), in("w"), I(o, "dh"), I(o, "dm"), I(o, "dn"), I(o, "dp"), ty);
  fprintf(stderr, "bad kernel %s\n", k.c_str());
  exit(3);
}

int main() {
  return run([](const Object& o) -> Value {
    std::string c = S(o, "c");
    if (c == "kernel") {
      auto in = [&](const char* k) -> LiteralValue {
        auto& a = *o.getArray(k);
        if (!a.empty() && a[0].getAsArray()) return LiteralValue(LL<int>(o, k));
        return LiteralValue(L<int>(o, k));
      };
      auto sy = [&](const char* k) -> SymbolicValue {
        auto& a = *o.getArray(k);
        bool pt = std::string(k) == "m" || std::string(k) == "mask";
        if (!a.empty() && a[0].getAsArray()) return SymbolicValue({(int64_t)a.size(), (int64_t)a[0].getAsArray()->size()}, !pt);
        return SymbolicValue({(int64_t)a.size()}, !pt);
      };
      auto dag = kernel<LiteralValue>(o, in);
      auto sdag = kernel<SymbolicValue>(o, sy);
      Object r{{"dag", dagJson(dag)}, {"sdag", dagJson(sdag)}};
      r["eval"] = lit(mlir::heir::kernel::evalKernel(dag)[0]);
      r["rots"] = A(evalRotations(kernel<LiteralValue>(o, in)));
      RotationCountVisitor rc;
      r["count"] = rc.process(sdag);
      return r;
    }
    if (c == "dag") {
      Object r;
      {
        DagIn<LiteralValue> d;
        d.leaf = [&](const Object& l) {
          auto* v = l.get("v");
          if (auto* a = v->getAsArray()) {
            if (!a->empty() && (*a)[0].getAsArray()) return ArithmeticDagNode<LiteralValue>::leaf(LiteralValue(LL<int>(l, "v")));
            return ArithmeticDagNode<LiteralValue>::leaf(LiteralValue(LI<int>(*v)));
          }
          return ArithmeticDagNode<LiteralValue>::leaf(LiteralValue((int)*v->getAsInteger()));
        };
        for (auto& n : *o.getArray("nodes")) d.add(*n.getAsObject());
        std::vector<std::shared_ptr<ArithmeticDagNode<LiteralValue>>> roots;
        for (auto x : L(o, "roots")) roots.push_back(d.at.at(x));
        r["dag"] = DagOut<LiteralValue>().out(roots);
        Array ev;
        for (auto& e : multiEvalKernel(roots)) { Array a; for (auto& x : e) a.push_back(lit(x)); ev.push_back(std::move(a)); }
        r["eval"] = std::move(ev);
        if (Bo(o, "rots")) { r["rdag"] = dagJson(roots[0]); r["rots"] = A(evalRotations(roots[0])); }
      }
      if (Bo(o, "count")) {
        DagIn<SymbolicValue> d;
        d.leaf = [&](const Object& l) { return ArithmeticDagNode<SymbolicValue>::leaf(SymbolicValue(L(l, "sh"), Bo(l, "secret"))); };
        for (auto& n : *o.getArray("nodes")) d.add(*n.getAsObject());
        auto root = d.at.at(L(o, "roots")[0]);
        r["sdag"] = dagJson(root);
        RotationCountVisitor rc;
        r["count"] = rc.process(root);
        r["again"] = rc.process(root);
      }
      return r;
    }
    if (c == "rotidx") {
      Object r;
      r["idx"] = A(mlir::heir::rotateAndReduceRotationIndices(I(o, "period"), I(o, "steps"), Bo(o, "pt")));
      return r;
    }
    if (c == "lintrans") {
      auto d = L<int32_t>(o, "diags");
      Object r;
      r["idx"] = A(mlir::heir::lintransRotationIndices(d, I(o, "slots"), I(o, "log")));
      r["n1"] = mlir::heir::findBestBSGSRatio(d, I(o, "slots"), I(o, "log"));
      return r;
    }
    if (c == "normrot") return Object{{"r", mlir::heir::normalizeRotation(I(o, "a"), I(o, "n"))}};
    exit(3);
  });
}
