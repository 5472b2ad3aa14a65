// Stand-in for OR-tools CP-SAT (not installed), backed by z3's optimiser.
#ifndef COMPAT_CP_MODEL_H
#define COMPAT_CP_MODEL_H
#include <z3++.h>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>
namespace operations_research::sat {
class BoolVar {
 public:
  int id = -1;
  bool neg = false;
  BoolVar Not() const { return {id, !neg}; }
  BoolVar() = default;
  BoolVar(int i, bool n) : id(i), neg(n) {}
};
class LinearExpr {
 public:
  LinearExpr() = default;
  LinearExpr(BoolVar v) { t.push_back(v); }
  LinearExpr(int64_t k) : off(k) {}
  LinearExpr& operator+=(const LinearExpr& o) {
    t.insert(t.end(), o.t.begin(), o.t.end());
    off += o.off;
    return *this;
  }
  std::vector<BoolVar> t;
  int64_t off = 0;
};
struct CpModelProto {
  int n = 0;
  std::vector<std::vector<BoolVar>> clauses;
  LinearExpr obj;
};
class CpModelBuilder {
 public:
  CpModelProto p;
  BoolVar NewBoolVar() { return {p.n++, false}; }
  void AddBoolOr(std::initializer_list<BoolVar> l) { p.clauses.push_back(l); }
  void AddImplication(BoolVar a, BoolVar b) { p.clauses.push_back({a.Not(), b}); }
  void AddEquality(BoolVar a, BoolVar b) {
    p.clauses.push_back({a.Not(), b});
    p.clauses.push_back({a, b.Not()});
  }
  void AddEquality(BoolVar a, int k) { p.clauses.push_back({k ? a : a.Not()}); }
  void Minimize(const LinearExpr& e) { p.obj = e; }
  CpModelProto Build() const { return p; }
};
enum class CpSolverStatus { UNKNOWN, OPTIMAL, FEASIBLE, INFEASIBLE };
class CpSolverResponse {
 public:
  CpSolverStatus st = CpSolverStatus::UNKNOWN;
  std::vector<bool> val;
  CpSolverStatus status() const { return st; }
};
inline bool SolutionBooleanValue(const CpSolverResponse& r, BoolVar v) {
  return r.val.at(v.id) != v.neg;
}
inline CpSolverResponse Solve(const CpModelProto& p) {
  z3::context c;
  z3::optimize s(c);
  std::vector<z3::expr> x;
  for (int i = 0; i < p.n; ++i) x.push_back(c.bool_const(("b" + std::to_string(i)).c_str()));
  auto lit = [&](BoolVar v) { return v.neg ? !x[v.id] : x[v.id]; };
  for (auto& cl : p.clauses) {
    z3::expr e = c.bool_val(false);
    for (auto& v : cl) e = e || lit(v);
    s.add(e);
  }
  z3::expr o = c.int_val(0);
  for (auto& v : p.obj.t) o = o + z3::ite(lit(v), c.int_val(1), c.int_val(0));
  s.minimize(o);
  CpSolverResponse r;
  if (s.check() != z3::sat) {
    r.st = CpSolverStatus::INFEASIBLE;
    return r;
  }
  z3::model m = s.get_model();
  for (auto& e : x) r.val.push_back(m.eval(e, true).is_true());
  r.st = CpSolverStatus::OPTIMAL;
  return r;
}
}  // namespace operations_research::sat
#endif
