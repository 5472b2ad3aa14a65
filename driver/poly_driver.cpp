#include "dagio.h"
#include "lib/Utils/Approximation/CaratheodoryFejer.h"
#include "lib/Utils/Approximation/Chebyshev.h"
#include "lib/Utils/Polynomial/ChebyshevDecomposition.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/NTT.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Polynomial.h"
#include "lib/Utils/Polynomial/RNSPolynomial.h"
using namespace hv;
using namespace mlir::heir;
using namespace mlir::heir::polynomial;
using llvm::APFloat;
using namespace mlir::heir::approximation;
static IntPolynomial ip(const Value& v) {
  std::vector<IntMonomial> m;
  for (auto& t : *v.getAsArray()) { auto x = LI(t); m.emplace_back(x[0], (uint64_t)x[1]); }
  return IntPolynomial(m);
}
static FloatPolynomial fp(const Value& v) {
  std::vector<FloatMonomial> m;
  for (auto& t : *v.getAsArray()) { auto x = LI(t); m.emplace_back((double)x[0], (uint64_t)x[1]); }
  return FloatPolynomial(m);
}
static Value out(const IntPolynomial& p) {
  Array r;
  for (auto& t : p.getTerms()) r.push_back(Array{t.getCoefficient().getSExtValue(), (int64_t)t.getExponent().getZExtValue()});
  return r;
}
static Value out(const FloatPolynomial& p) {
  Array r;
  for (auto& t : p.getTerms()) r.push_back(Array{num(t.getCoefficient().convertToDouble()), (int64_t)t.getExponent().getZExtValue()});
  return r;
}
static std::vector<uint64_t> U(const Object& o, const char* k) {
  std::vector<uint64_t> r;
  for (auto& x : *o.getArray(k)) r.push_back(x.getAsString() ? std::stoull(x.getAsString()->str()) : (uint64_t)*x.getAsInteger());
  return r;
}
template <class C>
static Array su(const C& c) { Array r; for (uint64_t x : c) r.push_back(std::to_string(x)); return r; }
template <class C>
static Array fx(const C& c, double s) { Array r; for (auto& x : c) { double d = x.convertToDouble() * s; r.push_back((int64_t)std::llround(std::isfinite(d) ? std::max(-2e9, std::min(2e9, d)) : 2e9)); } return r; }
static std::vector<APFloat> af(const std::vector<double>& v) { std::vector<APFloat> r; for (double d : v) r.push_back(APFloat(d)); return r; }
template <class P>
static void ops(const Object& o, Object& r, P p, P q) {
  r["add"] = out(p.add(q)); r["sub"] = out(p.sub(q));
  r["mul"] = out(p.naiveMul(q));
  r["mm"] = out(p.monomialMul(I(o, "k")));
  if (!p.isZero()) r["comp"] = out(p.compose(q));
  r["eq"] = p == q; r["ne"] = p != q; r["same"] = p == p;
  r["zero"] = p.isZero();
  r["deg"] = p.isZero() ? -1 : (int64_t)p.getDegree();
  P c = p; c.canonicalize(); r["canon"] = out(c);
  r["str"] = p.toIdentifier();
  std::string s; llvm::raw_string_ostream os(s); p.print(os); r["print"] = os.str();
}
int main() {
  return run([](const Object& o) -> Value {
    std::string c = S(o, "c");
    Object r;
    if (c == "int") {
      auto p = ip(*o.get("p")), q = ip(*o.get("q"));
      ops(o, r, p, q);
      r["scale"] = out(p.scale(llvm::APInt(64, I(o, "s"), true)));
      Array d; for (auto& x : p.getDenseCoefficientVector()) d.push_back(x.getSExtValue());
      r["dense"] = std::move(d);
      r["fromc"] = out(IntPolynomial::fromCoefficients(L(o, "coef")));
      std::vector<IntMonomial> ms; for (auto& x : LL(o, "mono")) ms.emplace_back(x[0], (uint64_t)x[1]);
      auto f = IntPolynomial::fromMonomials(ms);
      r["fromm"] = mlir::succeeded(f) ? out(*f) : Value(Array{Array{0, -1}});
    } else if (c == "float") {
      auto p = fp(*o.get("p")), q = fp(*o.get("q"));
      ops(o, r, p, q);
      r["scale"] = out(p.scale(APFloat((double)I(o, "s"))));
      r["fromc"] = out(FloatPolynomial::fromCoefficients(L<double>(o, "coef")));
    } else if (c == "ntt" || c == "intt" || c == "rt") {
      auto v = U(o, "v");
      uint64_t q = std::stoull(S(o, "q")), w = std::stoull(S(o, "w"));
      if (c != "intt") nttInPlace(v, q, w);
      if (c == "rt") r["mid"] = su(v);
      if (c != "ntt") inttInPlace(v, q, w);
      r["r"] = su(v);
    } else if (c == "rev") r["r"] = (int64_t)reverseBits(I(o, "n"), I(o, "b"));
    else if (c == "rns") {
      auto v = U(o, "a"), w = U(o, "b"), m = U(o, "m"), s = U(o, "s");
      RNSPolynomial a(llvm::SmallVector<uint64_t>(v.begin(), v.end()), llvm::SmallVector<uint64_t>(m.begin(), m.end()));
      RNSPolynomial b(llvm::SmallVector<uint64_t>(w.begin(), w.end()), llvm::SmallVector<uint64_t>(m.begin(), m.end()));
      auto op = [&](const char* k, const std::optional<RNSPolynomial>& x) { Object e{{"ok", x.has_value()}, {"r", Array{}}}; if (x) { e["r"] = su(x->getData()); e["ntt"] = x->isNtt(); e["m"] = su(x->getModuli()); } r[k] = std::move(e); };
      op("add", a.add(b)); op("sub", a.sub(b)); op("mul", a.mul(b)); op("smul", a.scalarMul(s));
      auto n = a.toNtt(); op("ntt", n);
      if (n) { op("back", n->toCoefficient()); auto nb = b.toNtt(); op("emul", n->mul(*nb)); op("eadd", n->add(*nb)); op("emulback", n->mul(*nb)->toCoefficient()); op("eaddback", n->add(*nb).toCoefficient()); }
      op("slice", a.slice(I(o, "from"), I(o, "size")));
      r["eq"] = a == b; r["same"] = a == a;
      r["nl"] = (int64_t)a.getNumLimbs(); r["nc"] = (int64_t)a.getNumCoeffs();
      Array el; for (size_t i = 0; i < a.getNumLimbs(); ++i) for (size_t j = 0; j < a.getNumCoeffs(); ++j) el.push_back(std::to_string(a.getElement(i, j)));
      r["el"] = std::move(el);
    } else if (c == "eval") {
      auto sh = L(o, "sh");
      DagType ty = sh.empty() ? DagType::floatTy(64) : DagType::floatTensor(64, sh);
      std::string k = S(o, "k");
      std::shared_ptr<ArithmeticDagNode<LiteralDouble>> d;
      LiteralDouble x(1.0);
      std::map<int64_t, double> co;
      for (auto& t : LL(o, "co")) co[t[1]] = t[0];
      auto xn = ArithmeticDagNode<LiteralDouble>::leaf(x);
      std::vector<double> cv = L<double>(o, "cc");
      if (k == "horner") d = hornerMonomialPolynomialEvaluation<LiteralDouble>(xn, co, ty);
      else if (k == "ps") d = patersonStockmeyerMonomialPolynomialEvaluation<LiteralDouble>(xn, co, ty);
      else if (k == "pscheb") d = patersonStockmeyerChebyshevPolynomialEvaluation<LiteralDouble>(x, cv, D(o, "min", kMinCoeffs), ty);
      else if (k == "powers") { auto v = computePowers<LiteralDouble>(xn, I(o, "n"), ty); r["dag"] = DagOut<LiteralDouble>().out(v); return r; }
      else if (k == "chebs") { auto v = computeChebyshevPolynomialValues<LiteralDouble>(x, I(o, "n"), ty); r["dag"] = DagOut<LiteralDouble>().out(v); return r; }
      else if (k == "chebrec") {
        auto m = genChebyshevPowersRecursive<LiteralDouble>(xn, I(o, "n"), ty);
        std::vector<std::shared_ptr<ArithmeticDagNode<LiteralDouble>>> v;
        for (int64_t i = 0; i <= I(o, "n"); ++i) v.push_back(m.at(i));
        r["dag"] = DagOut<LiteralDouble>().out(v);
        return r;
      }
      if (d) r["dag"] = dagJson(d); else r["dag"] = Object{{"n", Array{}}, {"s", Array{}}, {"r", Array{}}};
    } else if (c == "decomp") {
      auto d = decompose(L<double>(o, "cc"), I(o, "k"));
      Array a;
      for (auto& x : d.coeffs) { Array b; for (double y : x) b.push_back(num(y)); a.push_back(std::move(b)); }
      r["r"] = std::move(a); r["g"] = (int64_t)d.generatorDegree;
    } else if (c == "split") {
      auto [a, b] = splitDegree(I(o, "n"));
      r["a"] = (int64_t)a; r["b"] = (int64_t)b;
    } else if (c == "tostd") {
      ChebyshevPolynomial p(L<double>(o, "cc"));
      r["std"] = out(p.toStandardBasis());
      r["deg"] = (int64_t)p.getDegree(); r["zero"] = p.isZero();
      llvm::SmallVector<FloatPolynomial> ts;
      ChebyshevPolynomial::getChebyshevPolynomials(I(o, "n"), ts);
      Array t; for (auto& x : ts) t.push_back(out(x));
      r["T"] = std::move(t);
    } else if (c == "compose") {
      ChebyshevPolynomial p(L<double>(o, "cc"));
      auto q = p.compose(fp(*o.get("lin")));
      Array t; for (auto& x : q.getTerms()) t.push_back(num(x.convertToDouble()));
      r["r"] = std::move(t);
    } else if (c == "interp") {
      // values of a polynomial given in the Chebyshev basis (integers) at the Chebyshev points
      auto cc = L<double>(o, "cc");
      auto T = [&](double x) { double a = 1, b = x, s = 0; for (size_t i = 0; i < cc.size(); ++i) { s += cc[i] * (i == 0 ? 1 : b); if (i >= 1) { double n = 2 * x * b - a; a = b; b = n; } } return s; };
      llvm::SmallVector<APFloat> pts, ev, co;
      getChebyshevPoints(I(o, "n"), pts);
      for (auto& p : pts) ev.push_back(APFloat(T(p.convertToDouble())));
      interpolateChebyshev(ev, co);
      r["pts"] = fx(pts, 1e6); r["r"] = fx(co, 1e5);
      std::vector<double> vals = L<double>(o, "vals");   // arbitrary data at the points
      llvm::SmallVector<APFloat> co2;
      interpolateChebyshev(af(vals), co2);
      r["vc"] = fx(co2, 1e5);
      ChebyshevPolynomial ip2(co2);
      Array back;
      for (auto& p : pts) { double x = p.convertToDouble(), a = 1, b = x, s = 0; for (size_t i = 0; i < co2.size(); ++i) { double t = i == 0 ? 1 : b; s += co2[i].convertToDouble() * t; if (i >= 1) { double n = 2 * x * b - a; a = b; b = n; } } back.push_back((int64_t)std::llround(s * 1e5)); }
      r["back"] = std::move(back);
    } else if (c == "approx") {
      auto cc = L<double>(o, "cc");
      double lo = D(o, "lo", -1), up = D(o, "up", 1);
      std::string fn = S(o, "fn");
      auto cheb = [](const std::vector<double>& cc, double x) { double a = 1, b = x, s = 0; for (size_t i = 0; i < cc.size(); ++i) { s += cc[i] * (i == 0 ? 1 : b); if (i >= 1) { double n = 2 * x * b - a; a = b; b = n; } } return s; };
      double scale = std::ldexp(1.0, (int)I(o, "e"));
      auto f = [&](APFloat xx) {
        double x = xx.convertToDouble(), u = (x - (lo + up) / 2) / ((up - lo) / 2), y;
        if (fn == "poly") y = cheb(cc, u);
        else if (fn == "exp") y = std::exp(x);
        else if (fn == "cos") y = std::cos(x);
        else if (fn == "sin") y = std::sin(x);
        else if (fn == "abs") y = std::fabs(x);
        else if (fn == "relu") y = std::max(0.0, x);
        else if (fn == "runge") y = 1 / (1 + 5 * x * x);
        else if (fn == "sigmoid") y = 1 / (1 + std::exp(-4 * x));
        else exit(3);
        return APFloat(scale * y);
      };
      auto dv = [](auto&& t) { std::vector<double> r; for (auto& x : t) r.push_back(x.convertToDouble()); return r; };
      // largest error over a grid of the domain, in units of 1e-7 of the scale
      auto err = [&](const std::vector<double>& co) { double e = 0; for (int i = 0; i <= 400; ++i) { double u = -1 + i / 200.0, x = (lo + up) / 2 + u * (up - lo) / 2; e = std::max(e, std::fabs(cheb(co, u) - f(APFloat(x)).convertToDouble())); } return (int64_t)std::ceil(std::min(1.2e9, e / scale * 1e7)); };
      auto cf = dv(caratheodoryFejerApproximation(f, I(o, "deg"), lo, up).getTerms());
      llvm::SmallVector<APFloat> co;
      interpolateChebyshevWithSmartDegreeSelection([&](const APFloat& u) { return f(APFloat((lo + up) / 2 + u.convertToDouble() * (up - lo) / 2)); }, co);
      auto cv = dv(co);
      r["r"] = fx(co, 1e5 / scale); r["n"] = (int64_t)cv.size(); r["err"] = err(cv);
      auto one = scale; scale = 1;
      llvm::SmallVector<APFloat> co1;
      interpolateChebyshevWithSmartDegreeSelection([&](const APFloat& u) { return f(APFloat((lo + up) / 2 + u.convertToDouble() * (up - lo) / 2)); }, co1);
      scale = one;
      r["n1"] = (int64_t)co1.size();
      Array cfa; for (double x : cf) cfa.push_back((int64_t)std::llround(std::max(-2e9, std::min(2e9, x / scale * 1e5))));
      r["cf"] = std::move(cfa); r["cferr"] = err(cf);
      auto tr = cv; if ((int64_t)tr.size() > I(o, "deg") + 1) tr.resize(I(o, "deg") + 1);
      r["trerr"] = err(tr);
    } else exit(3);
    return r;
  });
}
