// One JSON command per input line, one JSON answer per output line.
#ifndef VERIF_JSONIO_H
#define VERIF_JSONIO_H
#include <cstdio>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
namespace hv {
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
inline int64_t I(const Object& o, const char* k, int64_t d = 0) {
  auto v = o.getInteger(k);
  return v ? *v : d;
}
inline std::string S(const Object& o, const char* k) {
  auto v = o.getString(k);
  return v ? v->str() : "";
}
inline bool Bo(const Object& o, const char* k, bool d = false) {
  auto v = o.getBoolean(k);
  return v ? *v : d;
}
inline double D(const Object& o, const char* k, double d = 0) {
  auto v = o.getNumber(k);
  return v ? *v : d;
}
template <class T = int64_t>
std::vector<T> L(const Object& o, const char* k) {
  std::vector<T> r;
  if (auto* a = o.getArray(k))
    for (auto& x : *a) r.push_back((T)x.getAsNumber().value_or(0));
  return r;
}
template <class T = int64_t>
std::vector<T> LI(const Value& v) {
  std::vector<T> r;
  if (auto* a = v.getAsArray())
    for (auto& x : *a) r.push_back((T)x.getAsInteger().value_or(0));
  return r;
}
template <class T = int64_t>
std::vector<std::vector<T>> LL(const Object& o, const char* k) {
  std::vector<std::vector<T>> r;
  if (auto* a = o.getArray(k))
    for (auto& x : *a) r.push_back(LI<T>(x));
  return r;
}
template <class C>
Array A(const C& c) {
  Array r;
  for (auto x : c) r.push_back((int64_t)x);
  return r;
}
template <class C>
Array AA(const C& c) {
  Array r;
  for (auto& x : c) r.push_back(A(x));
  return r;
}
inline int run(const std::function<Value(const Object&)>& f) {
  std::string line;
  while (std::getline(std::cin, line)) {
    auto v = llvm::json::parse(line);
    if (!v || !v->getAsObject()) { fprintf(stderr, "bad command\n"); return 3; }
    Value r = f(*v->getAsObject());
    std::string s;
    llvm::raw_string_ostream os(s);
    os << r;
    os.flush();
    fwrite(s.data(), 1, s.size(), stdout);
    fputc('\n', stdout);
    fflush(stdout);
  }
  return 0;
}
}  // namespace hv
#endif
