// Mappings, shift schemes and the shift network's DAG.
#include "dagio.h"
#include "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.h"
#include "lib/Dialect/TensorExt/Transforms/RotationGroupKernel.h"
#include "lib/Dialect/TensorExt/Transforms/ShiftScheme.h"
using namespace hv;
using namespace mlir::heir;
using namespace mlir::heir::tensor_ext;
static Array cs(const CtSlot& c) { return Array{c.ct, c.slot}; }
int main() {
  VosVosErkinShiftNetworks shared;   // one cache for the whole history
  return run([&](const Object& c) -> Value {
    std::string k = S(c, "c");
    int64_t n = I(c, "n"), cts = I(c, "cts");
    Object o;
    if (k == "order") { o["r"] = A(defaultShiftOrder(n)); return o; }
    Mapping m(n, cts);
    for (auto& e : LL(c, "map")) m.add(CtSlot{e[0], e[1]}, CtSlot{e[2], e[3]});
    Array mp;
    for (const auto& [t, s] : m.getTargetToSource()) mp.push_back(Array{s.ct, s.slot, t.ct, t.slot});
    o["map"] = std::move(mp);
    o["size"] = (int64_t)m.size();
    auto order = L(c, "order");
    llvm::SmallVector<int64_t> ord(order.begin(), order.end());
    if (k == "strategy") {
      ShiftStrategy s(n, cts, ord);
      s.evaluate(m);
      Array rs;
      for (auto& r : s.getRounds()) {
        Array ps;
        for (const auto& [ss, p] : r.positions) ps.push_back(Array{ss.source.ct, ss.source.slot, ss.shift, p.ct, p.slot});
        rs.push_back(Object{{"a", r.rotationAmount}, {"p", std::move(ps)}});
      }
      o["rounds"] = std::move(rs);
      return o;
    }
    VosVosErkinShiftNetworks fresh;
    VosVosErkinShiftNetworks& net = Bo(c, "shared") ? shared : fresh;
    ShiftScheme sch = I(c, "tries") > 0 ? net.findBestShiftScheme(m, I(c, "seed"), I(c, "tries")) : net.findShiftScheme(m, ord);
    Array gs, am;
    for (auto& g : sch.rotationGroups) {
      Array a;
      for (auto& s : g) a.push_back(cs(s));
      gs.push_back(std::move(a));
    }
    for (auto& r : sch.strategy.getRounds()) am.push_back(r.rotationAmount);
    o["groups"] = std::move(gs);
    o["amounts"] = std::move(am);
    auto in = LL(c, "in");
    llvm::SmallVector<LiteralValue> vals;
    for (auto& v : in) vals.push_back(LiteralValue(std::vector<int>(v.begin(), v.end())));
    auto roots = implementShiftNetwork<LiteralValue>(vals, m, sch, n, DagType::integer(32));
    DagOut<LiteralValue> d;
    std::vector<std::shared_ptr<ArithmeticDagNode<LiteralValue>>> rs(roots.begin(), roots.end());
    o["dag"] = d.out(rs);
    return o;
  });
}
