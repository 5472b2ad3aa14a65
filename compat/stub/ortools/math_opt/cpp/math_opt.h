// Stand-in for OR-tools MathOpt (not installed): the modelling API HEIR's
// analyses use, with Solve() backed by z3's optimiser.  Only the solver is
// replaced; the model is built by HEIR's unmodified code.
#ifndef COMPAT_MATH_OPT_H
#define COMPAT_MATH_OPT_H
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <unordered_map>
#include <vector>
#include "absl/status/statusor.h"
#include "absl/time/time.h"

namespace operations_research::math_opt {
struct VarData { int id; double lo, hi; bool integer; std::string nm; };
struct ModelData { std::vector<std::shared_ptr<VarData>> vars; };
class Variable {
 public:
  Variable() = default;
  explicit Variable(std::shared_ptr<VarData> d) : d(std::move(d)) {}
  int id() const { return d->id; }
  const std::string& name() const { return d->nm; }
  std::shared_ptr<VarData> d;
};
class LinearExpression {
 public:
  LinearExpression() = default;
  LinearExpression(double c) : off(c) {}
  LinearExpression(const Variable& v) { t[v.id()] += 1; }
  LinearExpression& operator+=(const LinearExpression& o) {
    for (auto& [k, x] : o.t) t[k] += x;
    off += o.off;
    return *this;
  }
  LinearExpression& operator-=(const LinearExpression& o) {
    for (auto& [k, x] : o.t) t[k] -= x;
    off -= o.off;
    return *this;
  }
  LinearExpression& operator*=(double c) {
    for (auto& [k, x] : t) x *= c;
    off *= c;
    return *this;
  }
  std::map<int, double> t;
  double off = 0;
};
inline LinearExpression operator+(LinearExpression a, const LinearExpression& b) { return a += b; }
inline LinearExpression operator-(LinearExpression a, const LinearExpression& b) { return a -= b; }
inline LinearExpression operator-(LinearExpression a) { return a *= -1; }
inline LinearExpression operator*(double c, LinearExpression a) { return a *= c; }
inline LinearExpression operator*(LinearExpression a, double c) { return a *= c; }
struct Constraint {
  LinearExpression e;  // e (rel) 0
  int rel;             // 0: ==, 1: <=, 2: >=
  bool same = false;   // both sides one and the same variable
  operator bool() const { return same; }
};
inline Constraint operator<=(LinearExpression a, const LinearExpression& b) { return {a -= b, 1}; }
inline Constraint operator>=(LinearExpression a, const LinearExpression& b) { return {a -= b, 2}; }
inline Constraint operator==(LinearExpression a, const LinearExpression& b) { return {a -= b, 0}; }
inline Constraint operator==(const Variable& a, const Variable& b) {
  return {LinearExpression(a) - LinearExpression(b), 0, a.id() == b.id()};
}
class Model {
 public:
  explicit Model(std::string = "") {}
  Variable AddBinaryVariable(const std::string& n) { return add(0, 1, true, n); }
  Variable AddIntegerVariable(double l, double h, const std::string& n) { return add(l, h, true, n); }
  Variable AddContinuousVariable(double l, double h, const std::string& n) { return add(l, h, false, n); }
  void AddLinearConstraint(const Constraint& c, const std::string& = "") { cons.push_back(c); }
  void Minimize(const LinearExpression& e) { obj = e; }
  std::vector<std::shared_ptr<VarData>> vars;
  std::vector<Constraint> cons;
  LinearExpression obj;

 private:
  Variable add(double l, double h, bool i, const std::string& n) {
    vars.push_back(std::make_shared<VarData>(VarData{(int)vars.size(), l, h, i, n}));
    return Variable(vars.back());
  }
};
inline std::ostream& operator<<(std::ostream& os, const Model&) { return os; }
template <typename V>
class VariableMap {
 public:
  V at(const Variable& v) const { return m.at(v.id()); }
  V operator[](const Variable& v) const { return m.at(v.id()); }
  std::map<int, V> m;
  std::vector<std::pair<Variable, V>> l;
  auto begin() const { return l.begin(); }
  auto end() const { return l.end(); }
};
enum class SolverType { kGscip };
enum class TerminationReason { kOptimal = 1, kInfeasible, kFeasible };
struct SolveParameters { double relative_gap_tolerance = 0; };
struct SolveArguments { SolveParameters parameters; };
struct Termination { TerminationReason reason; };
struct SolveResult {
  Termination termination;
  VariableMap<double> vm;
  double obj = 0;
  absl::Duration solve_time() const { return absl::ZeroDuration(); }
  double objective_value() const { return obj; }
  const VariableMap<double>& variable_values() const { return vm; }
};
inline absl::StatusOr<SolveResult> Solve(const Model& m, SolverType,
                                         const SolveArguments& = {}) {
  z3::context c;
  z3::optimize s(c);
  std::vector<z3::expr> x;
  auto num = [&](double d) {  // coefficients are decimals with few digits
    return c.real_val(std::to_string((long long)std::llround(d * 1e6)).c_str()) /
           c.real_val(1000000);
  };
  for (auto& v : m.vars) {
    std::string n = "v" + std::to_string(v->id);
    z3::expr e = v->integer ? z3::expr(z3::to_real(c.int_const(n.c_str())))
                            : z3::expr(c.real_const(n.c_str()));
    x.push_back(e);
    s.add(e >= num(v->lo) && e <= num(v->hi));
  }
  auto lin = [&](const LinearExpression& e) {
    z3::expr r = num(e.off);
    for (auto& [k, q] : e.t)
      if (q != 0) r = r + num(q) * x[k];
    return r;
  };
  for (auto& k : m.cons) {
    z3::expr e = lin(k.e), z = c.real_val(0);
    s.add(k.rel == 0 ? e == z : k.rel == 1 ? e <= z : e >= z);
  }
  s.minimize(lin(m.obj));
  SolveResult r;
  if (s.check() != z3::sat) {
    r.termination.reason = TerminationReason::kInfeasible;
    return r;
  }
  z3::model md = s.get_model();
  for (auto& v : m.vars) {
    z3::expr val = md.eval(x[v->id], true);
    double d = std::stod(val.get_decimal_string(12));
    r.vm.m[v->id] = d;
    r.vm.l.push_back({Variable(v), d});
  }
  r.termination.reason = TerminationReason::kOptimal;
  return r;
}
}  // namespace operations_research::math_opt
#endif
