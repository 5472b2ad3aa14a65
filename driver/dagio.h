// Arithmetic DAGs of lib/Kernel to and from JSON.
#ifndef VERIF_DAGIO_H
#define VERIF_DAGIO_H
#include <cmath>
#include <map>
#include <set>
#include "jsonio.h"
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
namespace hv {
using namespace mlir::heir::kernel;
inline Value num(double d) {
  if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) < 1e9) return Value((int64_t)d);
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return Value(Object{{"f", std::string(b)}});
}
inline Value lit(const LiteralValue& v) {
  return std::visit([](auto&& t) -> Value {
    using U = std::decay_t<decltype(t)>;
    if constexpr (std::is_same_v<U, int>) return Object{{"k", 0}, {"v", (int64_t)t}};
    else if constexpr (std::is_same_v<U, std::vector<int>>) return Object{{"k", 1}, {"v", A(t)}};
    else return Object{{"k", 2}, {"v", AA(t)}};
  }, v.get());
}
inline Value leafJson(const LiteralValue& v) { return lit(v); }
inline Value leafJson(const LiteralDouble& v) { return Object{{"k", 0}, {"v", num(v.getValue())}}; }
inline Value leafJson(const SymbolicValue& v) { return Object{{"sh", A(v.getShape())}, {"secret", v.isSecret() ? 1 : 0}}; }

template <class T>
struct DagOut {
  using N = ArithmeticDagNode<T>;
  using P = std::shared_ptr<N>;
  std::map<const N*, int64_t> id;
  Array nodes;
  std::set<const N*> done;  // emitted
  Array seqOf(const P& root) {
    std::set<const N*> seen;
    Array seq;
    walk(root, seen, seq);
    return seq;
  }
  int64_t idOf(const P& p) { return id[p.get()]; }
  // post-order over what is evaluated unconditionally for p
  void walk(const P& p, std::set<const N*>& seen, Array& seq) {
    if (seen.count(p.get())) return;
    seen.insert(p.get());
    Object o;
    auto kids = [&](std::vector<P> ks) {
      for (auto& k : ks) walk(k, seen, seq);
      Array a;
      for (auto& k : ks) a.push_back(idOf(k));
      return a;
    };
    std::visit([&](auto&& n) {
      using U = std::decay_t<decltype(n)>;
      if constexpr (std::is_same_v<U, ConstantScalarNode>) { o["o"] = "const"; o["v"] = num(n.value); }
      else if constexpr (std::is_same_v<U, ConstantTensorNode>) { o["o"] = "ctensor"; Array a; for (double d : n.value) a.push_back(num(d)); o["v"] = std::move(a); }
      else if constexpr (std::is_same_v<U, SplatNode>) { o["o"] = "splat"; o["v"] = num(n.value); o["sh"] = A(n.type.getShape()); }
      else if constexpr (std::is_same_v<U, EmptyNode>) { o["o"] = "empty"; o["sh"] = A(n.shape); }
      else if constexpr (std::is_same_v<U, LeafNode<T>>) { o["o"] = "leaf"; o["v"] = leafJson(n.value); }
      else if constexpr (std::is_same_v<U, AddNode<T>>) { o["i"] = kids({n.left, n.right}); o["o"] = "add"; }
      else if constexpr (std::is_same_v<U, SubtractNode<T>>) { o["i"] = kids({n.left, n.right}); o["o"] = "sub"; }
      else if constexpr (std::is_same_v<U, MultiplyNode<T>>) { o["i"] = kids({n.left, n.right}); o["o"] = "mul"; }
      else if constexpr (std::is_same_v<U, FloorDivNode<T>>) { o["i"] = kids({n.left}); o["o"] = "fdiv"; o["k"] = (int64_t)n.divisor; }
      else if constexpr (std::is_same_v<U, PowerNode<T>>) { o["i"] = kids({n.base}); o["o"] = "pow"; o["k"] = (int64_t)n.exponent; }
      else if constexpr (std::is_same_v<U, LeftRotateNode<T>>) { o["i"] = kids({n.operand, n.shift}); o["o"] = "rot"; }
      else if constexpr (std::is_same_v<U, LeftRotateBulkNode<T>>) { std::vector<P> k{n.operand}; k.insert(k.end(), n.shifts.begin(), n.shifts.end()); o["i"] = kids(k); o["o"] = "rotb"; }
      else if constexpr (std::is_same_v<U, ExtractNode<T>>) { o["i"] = kids({n.operand, n.index}); o["o"] = "ext"; }
      else if constexpr (std::is_same_v<U, InsertNode<T>>) { o["i"] = kids({n.scalar, n.dest, n.index}); o["o"] = "ins"; }
      else if constexpr (std::is_same_v<U, ComparisonNode<T>>) {
        static const char* nm[] = {"lt", "le", "gt", "ge", "eq", "ne"};
        o["i"] = kids({n.left, n.right}); o["o"] = "cmp"; o["f"] = nm[(int)n.predicate];
      } else if constexpr (std::is_same_v<U, IfElseNode<T>>) {
        o["i"] = kids({n.condition}); o["o"] = "ite";
        o["T"] = seqOf(n.thenBody); o["t"] = idOf(n.thenBody);
        o["E"] = seqOf(n.elseBody); o["e"] = idOf(n.elseBody);
      } else if constexpr (std::is_same_v<U, VariableNode<T>>) { o["o"] = "var"; o["sh"] = A(n.type.getShape()); }
      else if constexpr (std::is_same_v<U, YieldNode<T>>) { o["i"] = kids(n.elements); o["o"] = "yield"; }
      else if constexpr (std::is_same_v<U, ResultAtNode<T>>) { o["i"] = kids({n.operand}); o["o"] = "res"; o["k"] = (int64_t)n.index + 1; }
      else if constexpr (std::is_same_v<U, ForLoopNode<T>>) {
        o["i"] = kids(n.inits); o["o"] = "for";
        Array as;
        std::set<const N*> s2; Array dummy;
        walk(n.inductionVar, s2, dummy);
        for (auto& a : n.iterArgs) { walk(a, s2, dummy); as.push_back(idOf(a)); }
        o["iv"] = idOf(n.inductionVar); o["args"] = std::move(as);
        o["B"] = seqOf(n.body); o["b"] = idOf(n.body);
        o["lo"] = (int64_t)n.lower; o["up"] = (int64_t)n.upper; o["st"] = (int64_t)n.step;
      }
    }, p->node_variant);
    if (!done.count(p.get())) {
      done.insert(p.get());
      nodes.push_back(std::move(o));
      id[p.get()] = nodes.size();
    }
    seq.push_back(idOf(p));
  }
  Object out(const std::vector<P>& roots) {
    std::set<const N*> seen;
    Array seq, rs;
    for (auto& r : roots) walk(r, seen, seq);
    for (auto& r : roots) rs.push_back(idOf(r));
    return Object{{"n", std::move(nodes)}, {"s", std::move(seq)}, {"r", std::move(rs)}};
  }
};
template <class T>
Object dagJson(const std::shared_ptr<ArithmeticDagNode<T>>& r) { return DagOut<T>().out({r}); }

inline DagType tyOf(const Object& o) {
  auto sh = L(o, "sh");
  if (sh.empty()) return DagType::index();
  return DagType::intTensor(32, sh);
}
// Build a DAG from a topologically ordered node list (loops carry their body).
template <class T>
struct DagIn {
  using N = ArithmeticDagNode<T>;
  using P = std::shared_ptr<N>;
  std::map<int64_t, P> at;
  std::function<P(const Object&)> leaf;
  void add(const Object& o) {
    std::string k = S(o, "o");
    auto i = L(o, "i");
    auto in = [&](int n) { return at.at(i[n]); };
    P r;
    if (k == "const") r = N::constantScalar(D(o, "v"), DagType::index());
    else if (k == "ctensor") r = N::constantTensor(L<double>(o, "v"), DagType::intTensor(32, {(int64_t)L(o, "v").size()}));
    else if (k == "splat") r = N::splat(D(o, "v"), tyOf(o));
    else if (k == "empty") r = N::empty(L(o, "sh"), tyOf(o));
    else if (k == "leaf") r = leaf(o);
    else if (k == "add") r = N::add(in(0), in(1));
    else if (k == "sub") r = N::sub(in(0), in(1));
    else if (k == "mul") r = N::mul(in(0), in(1));
    else if (k == "fdiv") r = N::floorDiv(in(0), I(o, "k"));
    else if (k == "pow") r = N::power(in(0), I(o, "k"));
    else if (k == "rot") r = N::leftRotate(in(0), in(1));
    else if (k == "rotb") { std::vector<P> s; for (size_t n = 1; n < i.size(); ++n) s.push_back(in(n)); r = N::leftRotateBulk(in(0), s); }
    else if (k == "ext") r = N::extract(in(0), in(1));
    else if (k == "ins") r = N::insert(in(0), in(1), in(2));
    else if (k == "cmp") {
      static const std::map<std::string, ComparisonPredicate> m = {{"lt", ComparisonPredicate::LT}, {"le", ComparisonPredicate::LE}, {"gt", ComparisonPredicate::GT}, {"ge", ComparisonPredicate::GE}, {"eq", ComparisonPredicate::EQ}, {"ne", ComparisonPredicate::NE}};
      r = N::comparison(in(0), in(1), m.at(S(o, "f")));
    } else if (k == "ite") r = N::ifElse(in(0), N::yield({in(1)}), N::yield({in(2)}));
    else if (k == "res") r = N::resultAt(in(0), I(o, "k") - 1);
    else if (k == "yield") { std::vector<P> s; for (size_t n = 0; n < i.size(); ++n) s.push_back(in(n)); r = N::yield(s); }
    else if (k == "for") {
      std::vector<P> inits;
      std::vector<DagType> tys;
      for (auto x : i) inits.push_back(at.at(x));
      for (auto& t : LL(o, "tys")) tys.push_back(t.empty() ? DagType::index() : DagType::intTensor(32, t));
      auto args = L(o, "args");
      r = N::loop(inits, tys, I(o, "lo"), I(o, "up"), I(o, "st"), [&](P iv, const std::vector<P>& ia) {
        at[I(o, "iv")] = iv;
        for (size_t n = 0; n < args.size(); ++n) at[args[n]] = ia[n];
        for (auto& b : *o.getArray("body")) add(*b.getAsObject());
        std::vector<P> ys;
        for (auto y : L(o, "y")) ys.push_back(at.at(y));
        return N::yield(ys);
      });
    } else { fprintf(stderr, "bad node %s\n", k.c_str()); exit(3); }
    at[I(o, "id")] = r;
  }
};
}  // namespace hv
#endif
