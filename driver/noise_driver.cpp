// Noise models of BGV and BFV along histories of operations; parameter generation.
#include <cmath>
#include "jsonio.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.h"
#include "lib/Analysis/NoiseAnalysis/Noise.h"
#include "lib/Parameters/BGV/Params.h"
#include "lib/Parameters/CKKS/Params.h"
#include "lib/Parameters/RLWEParams.h"
#include "lib/Parameters/RLWESecurityParams.h"
using namespace hv;
using namespace mlir::heir;
// 2^x as limbs of 12 bits times a power of 4096
static Value flt(double x) {
  Object r;
  if (std::isnan(x)) { r["m"] = "nan"; r["e"] = 0; return r; }
  if (std::isinf(x)) { r["m"] = x < 0 ? Value(Array()) : Value("inf"); r["e"] = 0; return r; }
  int e = (int)std::floor(x / 12) - 3;
  uint64_t m = (uint64_t)std::llround(std::exp2(x - 12.0 * e));
  Array a;
  while (m) { a.push_back((int64_t)(m & 4095)); m >>= 12; }
  r["m"] = std::move(a);
  r["e"] = e;
  return r;
}
static std::vector<int64_t> strs(const Object& o, const char* k) {
  std::vector<int64_t> r;
  if (auto* a = o.getArray(k)) for (auto& x : *a) r.push_back((int64_t)std::stoull(x.getAsString()->str()));
  return r;
}
static Array lg(const std::vector<double>& v) { Array a; for (double d : v) a.push_back(flt(d)); return a; }
static Array st(const std::vector<int64_t>& v) { Array a; for (auto x : v) a.push_back(std::to_string(x)); return a; }
template <class M> static Value play(const M& m, const typename M::SchemeParamType& sp, const Object& o) {
  using LP = typename M::LocalParamType;
  constexpr bool bgv = std::is_base_of_v<mlir::heir::bgv::NoiseCanEmbModel, M> || std::is_same_v<M, mlir::heir::bgv::NoiseByBoundCoeffModel> ||
                       std::is_same_v<M, mlir::heir::bgv::NoiseByVarianceCoeffModel>;
  std::vector<NoiseState> ss;
  Array out;
  for (auto& x : *o.getArray("steps")) {
    auto& s = *x.getAsObject();
    std::string op = S(s, "op");
    LP lp(&sp, I(s, "lvl"), 2);
    auto a = [&]() -> NoiseState& { return ss[I(s, "a") - 1]; };
    auto b = [&]() -> NoiseState& { return ss[I(s, "b") - 1]; };
    NoiseState r;
    if (op == "enc") r = m.evalEncrypt(lp);
    else if (op == "const") r = m.evalConstant(lp);
    else if (op == "add") r = m.evalAdd(a(), b());
    else if (op == "mul") r = m.evalMul(lp, a(), b());
    else if (op == "relin") r = m.evalRelinearize(lp, a());
    else if (op == "modred") { if constexpr (bgv) r = m.evalModReduce(lp, a()); else r = a(); }
    else if (op == "join") r = NoiseState::join(a(), b());
    else r = NoiseState::join(NoiseState::uninitialized(), a());
    ss.push_back(r);
    Object j;
    j["v"] = flt(r.getValue());
    j["d"] = r.getDegree();
    j["bound"] = flt(m.toLogBound(lp, r));
    j["total"] = flt(m.toLogTotal(lp));
    j["budget"] = flt(m.toLogBudget(lp, r));
    out.push_back(std::move(j));
  }
  return out;
}
int main() {
  return run([&](const Object& o) -> Value {
    std::string c = S(o, "c");
    Object r;
    auto put = [&](const RLWESchemeParam& p) {
      r["n"] = p.getRingDim(); r["level"] = p.getLevel(); r["dnum"] = p.getDnum();
      r["logqi"] = lg(p.getLogqi()); r["logpi"] = lg(p.getLogpi());
      r["qi"] = st(p.getQi()); r["pi"] = st(p.getPi());
      r["pk"] = (int)p.getUsePublicKey(); r["ext"] = (int)p.isEncryptionTechniqueExtended();
    };
    if (c == "noise") {
      auto qi = strs(o, "qi"), pi = strs(o, "pi");
      std::vector<double> lq, lp;
      for (auto q : qi) lq.push_back(std::log2((double)(uint64_t)q));
      for (auto q : pi) lp.push_back(std::log2((double)(uint64_t)q));
      bool known = I(o, "known");
      RLWESchemeParam rp = known ? RLWESchemeParam(I(o, "n"), (int)qi.size() - 1, lq, qi, I(o, "dnum"), lp, pi, I(o, "pk"), I(o, "ext"))
                                 : RLWESchemeParam(I(o, "n"), (int)qi.size() - 1, lq, I(o, "dnum"), lp, I(o, "pk"), I(o, "ext"));
      int64_t t = std::stoll(S(o, "t"));
      std::string m = S(o, "m");
      bool g = S(o, "sch") == "bgv";
      bgv::SchemeParam sg(rp, t);
      auto v = m == "worst" ? NoiseModelVariant::WORST_CASE : NoiseModelVariant::AVERAGE_CASE;
      if (m == "worst" || m == "average") {
        if (g) r["out"] = play(bgv::NoiseByBoundCoeffModel(v), sg, o); else r["out"] = play(bfv::NoiseByBoundCoeffModel(v), sg, o);
      } else if (m == "variance") {
        if (g) r["out"] = play(bgv::NoiseByVarianceCoeffModel(), sg, o); else r["out"] = play(bfv::NoiseByVarianceCoeffModel(), sg, o);
      } else {
        if (g) r["out"] = play(bgv::NoiseCanEmbModel(), sg, o); else r["out"] = play(bfv::NoiseCanEmbModel(), sg, o);
      }
    } else if (c == "ringdim") { r["r"] = computeRingDim(I(o, "log"), I(o, "min")); }
    else if (c == "dnum") { r["r"] = computeDnum(I(o, "level")); }
    else if (c == "prime") { r["r"] = std::to_string(findPrime(I(o, "bits"), I(o, "n"), strs(o, "have"))); }
    else if (c == "cons") { put(bgv::SchemeParam::getConservativeSchemeParam(I(o, "level"), I(o, "t"), I(o, "slots"), I(o, "pk"), I(o, "ext"))); }
    else if (c == "conc") { auto p = bgv::SchemeParam::getConcreteSchemeParam(L<double>(o, "logqi"), I(o, "t"), I(o, "slots"), I(o, "pk"), I(o, "ext")); put(p); r["t"] = std::to_string(p.getPlaintextModulus()); }
    else if (c == "ckks") { auto p = ckks::SchemeParam::getConcreteSchemeParam(I(o, "first"), I(o, "scale"), I(o, "levels"), I(o, "slots"), I(o, "pk"), I(o, "ext"), I(o, "red")); put(p); r["scale"] = p.getLogDefaultScale(); }
    return r;
  });
}
