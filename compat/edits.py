# ---- mlir/IR/OpDefinition.h: Op::create(builder, loc, ...)
edit("mlir/IR/OpDefinition.h", ("""  /// Create a deep copy of this operation.
  ConcreteType clone()""", """  /// compat: Op::create of newer MLIR.
  template <typename BuilderT, typename... Args>
  static ConcreteType create(BuilderT &b, Args &&...args) {
    return b.template create<ConcreteType>(std::forward<Args>(args)...);
  }
  /// Create a deep copy of this operation.
  ConcreteType clone()"""))
# ---- tablegen
edit("mlir/IR/AttrTypeBase.td", ("  string mnemonic = ?;", "  string mnemonic = ?;\n  bit genMnemonicAlias = 0;"))
edit("mlir/IR/OpAsmInterface.td", ("#endif // MLIR_IR_OPASMINTERFACE_TD", """
def OpAsmAttrInterface : NativeTrait<"OpAsmAttrCompat", ""> { let cppNamespace = "::mlir"; }

#endif // MLIR_IR_OPASMINTERFACE_TD"""))
edit("mlir/IR/OpImplementation.h", append="""
namespace mlir {
template <typename C>
class OpAsmAttrCompat
    : public AttributeTrait::TraitBase<C, OpAsmAttrCompat> {};
} // namespace mlir
""")
edit("mlir/IR/CommonTypeConstraints.td", append="""
class TensorOrMemRef<list<Type> allowedTypes> :
    AnyTypeOf<[TensorOf<allowedTypes>, MemRefOf<allowedTypes>],
        "", "::mlir::ShapedType">;
""")
# ---- LDBG()
new("llvm/Support/DebugLog.h", """#ifndef LLVM_SUPPORT_DEBUGLOG_H
#define LLVM_SUPPORT_DEBUGLOG_H
#include "llvm/Support/Debug.h"
#include "llvm/Support/raw_ostream.h"
#define LDBG(...) for (bool _c = false; _c; _c = false) ::llvm::nulls()
#define LDBG_OS(...) LDBG()
#endif
""")
edit("mlir/IR/CommonTypeConstraints.td",
  ("class TypeOrValueSemanticsContainer<Type allowedType, string name>\n    : TypeConstraint<", "class TypeOrValueSemanticsContainer<Type allowedType, string name>\n    : Type<"),
  ("class TypeOrContainer<Type allowedType, string name> : TypeConstraint<", "class TypeOrContainer<Type allowedType, string name> : Type<"))

# ---- headers that moved
new("mlir/Support/WalkResult.h", '#include "mlir/IR/Visitors.h"\n')
new("mlir/Analysis/DataFlow/Utils.h", """#ifndef COMPAT_DATAFLOW_UTILS_H
#define COMPAT_DATAFLOW_UTILS_H
#include "mlir/Analysis/DataFlow/ConstantPropagationAnalysis.h"
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
#include "mlir/Analysis/DataFlowFramework.h"
namespace mlir::dataflow {
inline void loadBaselineAnalyses(DataFlowSolver &solver) {
  solver.load<DeadCodeAnalysis>();
  solver.load<SparseConstantPropagation>();
}
}
#endif
""")
new("mlir/Dialect/Affine/Transforms/Passes.h", '#include "mlir/Dialect/Affine/Passes.h"\n')
edit("mlir/IR/ImplicitLocOpBuilder.h",
  ('#include "mlir/IR/Builders.h"', '#include "mlir/IR/Builders.h"\n#undef COMPAT_BUILDERS\n'))
edit("mlir/IR/Builders.h", append='#include "mlir/IR/ImplicitLocOpBuilder.h"\n')
# ---- the member casts of Attribute/Type/Value are gone in newer MLIR and hide mlir::dyn_cast
def drop_casts(path, cls):
    p = f"{INC}/{path}"
    s = open(p).read()
    os.unlink(p)
    s, n = re.subn(r'  template <typename[. ]*\w+>\n  \[\[deprecated\("Use mlir::\w+<U>\(\) instead"\)\]\]\n  [^;{]*(;|\{\n[^}]*\n  \})\n', '', s)
    s = re.sub(r'template <typename[. ]*\w+>\n\w+ (Attribute|Type)::(isa|isa_and_nonnull|dyn_cast|dyn_cast_or_null|cast)\(\) const \{\n[^}]*\n\}\n', '', s)
    open(p, "w").write(s)
for f, c in (("Attributes.h", "Attribute"), ("Types.h", "Type"), ("Value.h", "Value")):
    drop_casts("mlir/IR/" + f, c)
edit("mlir/IR/OpAsmTypeInterface.h.inc", ("  void getAsmName(::mlir::OpAsmSetNameFn setNameFn) const;",
 "  void getAsmName(::mlir::OpAsmSetNameFn setNameFn) const;\n  ::mlir::OpAsmDialectInterface::AliasResult getAlias(::llvm::raw_ostream &os) const;"))
edit("mlir/IR/OpImplementation.h", append="""
namespace mlir {
inline OpAsmDialectInterface::AliasResult
OpAsmTypeInterface::getAlias(::llvm::raw_ostream &os) const {
  return OpAsmDialectInterface::AliasResult::NoAlias;
}
}
""")
edit("mlir/IR/OperationSupport.h", ("  OpaqueProperties(void *prop) : properties(prop) {}",
 "  OpaqueProperties(void *prop) : properties(prop) {}\n  template <typename TID, typename = std::enable_if_t<std::is_same_v<TID, TypeID>>>\n  OpaqueProperties(TID, void *prop) : properties(prop) {}"),
 ("""private:
  void *properties;
};
""", """private:
  void *properties;
};
using PropertyRef = OpaqueProperties;
"""))
# ---- sparse backward analysis
edit("mlir/Analysis/DataFlow/SparseAnalysis.h", ("""protected:
  /// Get the lattice element for a value.
  StateT *getLatticeElement(Value value) override {
    return getOrCreate<StateT>(value);
  }

  /// Set the given lattice element(s) at control flow exit point(s).""", """  virtual void visitNonControlFlowArguments(RegionSuccessor &successor,
                                            ArrayRef<BlockArgument> arguments) {
  }

protected:
  /// Get the lattice element for a value.
  StateT *getLatticeElement(Value value) override {
    return getOrCreate<StateT>(value);
  }

  /// Set the given lattice element(s) at control flow exit point(s)."""))
# ---- constants
def const_ops():
    p = f"{INC}/mlir/Dialect/Arith/IR/Arith.h"
    s = open(p).read()
    os.unlink(p)
    for k in ("Int", "Float", "Index"):
        extra = {"Int": """
  template <typename B> static ConstantIntOp create(B &b, Location loc, Type t, int64_t v) {
    return create(b, loc, v, t);
  }
  template <typename B> static ConstantIntOp create(B &b, Location loc, Type t, const APInt &v) {
    return llvm::cast<ConstantIntOp>(b.OpBuilder::template create<arith::ConstantOp>(loc, IntegerAttr::get(t, v)).getOperation());
  }
  template <typename B> static ConstantIntOp create(B &b, Location loc, int64_t v, unsigned w) {
    return b.OpBuilder::template create<ConstantIntOp>(loc, v, w);
  }
  template <typename B> static ConstantIntOp create(B &b, Location loc, int64_t v, Type t) {
    return b.OpBuilder::template create<ConstantIntOp>(loc, v, t);
  }
  template <typename... A> static ConstantIntOp create(ImplicitLocOpBuilder &b, Type t, int64_t v) {
    return create(b, b.getLoc(), v, t);
  }
  static ConstantIntOp create(ImplicitLocOpBuilder &b, int64_t v, unsigned w) { return create(b, b.getLoc(), v, w); }
  static ConstantIntOp create(ImplicitLocOpBuilder &b, int64_t v, Type t) { return create(b, b.getLoc(), v, t); }
""", "Float": """
  template <typename B> static ConstantFloatOp create(B &b, Location loc, FloatType t, const APFloat &v) {
    return b.OpBuilder::template create<ConstantFloatOp>(loc, v, t);
  }
  static ConstantFloatOp create(ImplicitLocOpBuilder &b, FloatType t, const APFloat &v) { return create(b, b.getLoc(), t, v); }
""", "Index": """
  template <typename B> static ConstantIndexOp create(B &b, Location loc, int64_t v) {
    return b.OpBuilder::template create<ConstantIndexOp>(loc, v);
  }
  static ConstantIndexOp create(ImplicitLocOpBuilder &b, int64_t v) { return create(b, b.getLoc(), v); }
"""}[k]
        a = f"class Constant{k}Op : public arith::ConstantOp {{\npublic:\n"
        assert a in s
        s = s.replace(a, a + extra)
    s = s.replace('#include "mlir/IR/Dialect.h"', '#include "mlir/IR/Dialect.h"\n#include "mlir/IR/ImplicitLocOpBuilder.h"', 1)
    open(p, "w").write(s)
const_ops()
# ---- rewrite drivers
edit("mlir/Transforms/GreedyPatternRewriteDriver.h", ("class GreedyRewriteConfig {\npublic:\n", """class GreedyRewriteConfig {
public:
  GreedyRewriteConfig &setStrictness(GreedyRewriteStrictness m) { strictMode = m; return *this; }
  GreedyRewriteConfig &setUseTopDownTraversal(bool b = true) { useTopDownTraversal = b; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t n) { maxIterations = n; return *this; }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t n) { maxNumRewrites = n; return *this; }
  GreedyRewriteConfig &setRegionSimplificationLevel(GreedySimplifyRegionLevel l) { enableRegionSimplification = l; return *this; }
  GreedyRewriteConfig &enableFolding(bool b = true) { fold = b; return *this; }
  GreedyRewriteConfig &enableConstantCSE(bool b = true) { cseConstants = b; return *this; }
"""))
# ---- DenseMap keys without empty/tombstone
def densemap():
    p = f"{INC}/llvm/ADT/DenseMap.h"
    s = open(p).read()
    os.unlink(p)
    for k in ("Empty", "Tombstone"):
        s = s.replace(f"return KeyInfoT::get{k}Key();", f"""if constexpr (requires {{ KeyInfoT::get{k}Key(); }}) {{
      return KeyInfoT::get{k}Key();
    }} else {{
      KeyT key;
      key.type = DenseMapInfo<decltype(key.type)>::get{k}Key();
      key.attr = DenseMapInfo<decltype(key.attr)>::get{k}Key();
      return key;
    }}""")
    open(p, "w").write(s)
densemap()

# ================= batch 2
edit("mlir/IR/OperationSupport.h", ("  operator bool() const { return properties != nullptr; }",
 "  operator bool() const { return properties != nullptr; }\n  TypeID getTypeID() const { return TypeID(); }"))
def readw(path):
    p = f"{INC}/{path}"
    s = open(p).read()
    os.unlink(p)
    return s
def writew(path, s):
    open(f"{INC}/{path}", "w").write(s)
# DenseMap: only substitute a synthetic key where the key type has .type/.attr or holds a FrozenVector
s = readw("llvm/ADT/DenseMap.h")
writew("llvm/ADT/DenseMap.h", s)
s = readw("llvm/ADT/DenseMapInfo.h")
s = s.replace("FirstInfo::getEmptyKey()", "compatEmpty<FirstInfo, T>()").replace("SecondInfo::getEmptyKey()", "compatEmpty<SecondInfo, U>()")
s = s.replace("FirstInfo::getTombstoneKey()", "compatTomb<FirstInfo, T>()").replace("SecondInfo::getTombstoneKey()", "compatTomb<SecondInfo, U>()")
s = s.replace("// Provide DenseMapInfo for all pairs whose members have info.", """template <typename I, typename V> V compatEmpty() {
  if constexpr (requires { I::getEmptyKey(); }) return I::getEmptyKey();
  else { using E = std::remove_cvref_t<decltype(*std::declval<V>().begin())>; static const E v[1] = {std::numeric_limits<E>::min()}; return V(ArrayRef<E>(v, 1)); }
}
template <typename I, typename V> V compatTomb() {
  if constexpr (requires { I::getTombstoneKey(); }) return I::getTombstoneKey();
  else { using E = std::remove_cvref_t<decltype(*std::declval<V>().begin())>; static const E v[1] = {std::numeric_limits<E>::min() + 1}; return V(ArrayRef<E>(v, 1)); }
}
// Provide DenseMapInfo for all pairs whose members have info.""", 1)
assert "compatEmpty()" in s
s = s.replace("#include <cassert>", "#include <cassert>\n#include <limits>\n", 1)
if "class ArrayRef" not in s:
    s = s.replace("namespace llvm {", "namespace llvm {\ntemplate <typename T> class ArrayRef;\n", 1)
writew("llvm/ADT/DenseMapInfo.h", s)
# ---- control flow
edit("mlir/Interfaces/ControlFlowInterfaces.h",
 ("  bool isParent() const { return region == nullptr; }", "  bool isParent() const { return region == nullptr; }\n  bool isOperation() const { return region == nullptr; }\n  explicit RegionSuccessor(Operation *op) : inputs(ValueRange(op->getResults())) {}\n  void setSuccessorInputs(ValueRange v) { inputs = v; }"),
 ('/// Include the generated interface declarations.\n#include "mlir/Interfaces/ControlFlowInterfaces.h.inc"', """namespace mlir {
using RegionBranchSuccessorMapping = DenseMap<OpOperand *, SmallVector<Value>>;
using RegionBranchInverseSuccessorMapping = DenseMap<Value, SmallVector<OpOperand *>>;
}
#include "mlir/Interfaces/ControlFlowInterfaces.h.inc"
namespace mlir {
inline ValueRange RegionBranchOpInterface::getSuccessorInputs(RegionSuccessor s) { return s.getSuccessorInputs(); }
inline void RegionBranchOpInterface::getSuccessorOperandInputMapping(
    RegionBranchSuccessorMapping &m, std::optional<RegionBranchPoint> src) {
  Operation *op = getOperation();
  auto add = [&](MutableArrayRef<OpOperand> operands, ValueRange inputs) {
    for (auto [o, i] : llvm::zip(operands, inputs)) m[&o].push_back(i);
  };
  if (!src || src->isParent()) {
    SmallVector<RegionSuccessor> succ;
    getSuccessorRegions(RegionBranchPoint::parent(), succ);
    for (auto &x : succ) {
      OperandRange r = getEntrySuccessorOperands(x.isParent() ? RegionBranchPoint::parent() : RegionBranchPoint(x.getSuccessor()));
      if (r.empty()) continue;
      add(op->getOpOperands().slice(r.getBeginOperandIndex(), r.size()), x.getSuccessorInputs());
    }
  }
  for (Region &region : op->getRegions()) {
    if (src && (src->isParent() || src->getRegionOrNull() != &region)) continue;
    for (Block &b : region) {
      if (b.empty()) continue;
      auto t = dyn_cast<RegionBranchTerminatorOpInterface>(b.back());
      if (!t) continue;
      SmallVector<RegionSuccessor> succ;
      getSuccessorRegions(RegionBranchPoint(&region), succ);
      for (auto &x : succ) {
        OperandRange r = t.getSuccessorOperands(x.isParent() ? RegionBranchPoint::parent() : RegionBranchPoint(x.getSuccessor()));
        if (r.empty()) continue;
        add(t->getOpOperands().slice(r.getBeginOperandIndex(), r.size()), x.getSuccessorInputs());
      }
    }
  }
}
inline void RegionBranchOpInterface::getSuccessorInputOperandMapping(RegionBranchInverseSuccessorMapping &inv) {
  RegionBranchSuccessorMapping m;
  getSuccessorOperandInputMapping(m);
  SmallVector<OpOperand *> keys;
  for (auto &kv : m) keys.push_back(kv.first);
  llvm::sort(keys, [](OpOperand *a, OpOperand *b) {
    if (a->getOwner() != b->getOwner()) return !a->getOwner()->isProperAncestor(b->getOwner()) && a->getOwner() < b->getOwner() || a->getOwner()->isProperAncestor(b->getOwner());
    return a->getOperandNumber() < b->getOperandNumber(); });
  for (OpOperand *o : keys)
    for (Value v : m[o]) inv[v].push_back(o);
}
}"""))
edit("mlir/Interfaces/ControlFlowInterfaces.h.inc",
 ("  bool areTypesCompatible(::mlir::Type lhs, ::mlir::Type rhs);\n\n    /// Return `true` if control flow", """  bool areTypesCompatible(::mlir::Type lhs, ::mlir::Type rhs);
  ::mlir::ValueRange getSuccessorInputs(::mlir::RegionSuccessor s);
  void getSuccessorOperandInputMapping(::mlir::RegionBranchSuccessorMapping &m, std::optional<::mlir::RegionBranchPoint> src = std::nullopt);
  void getSuccessorInputOperandMapping(::mlir::RegionBranchInverseSuccessorMapping &m);

    /// Return `true` if control flow"""),
 ("  return (llvm::cast<ConcreteOp>(tablegen_opaque_val)).getSuccessorRegions(point, regions);", """  auto compatOp = llvm::cast<ConcreteOp>(tablegen_opaque_val);
  compatOp.getSuccessorRegions(point, regions);
  if constexpr (requires { compatOp.getSuccessorInputs(::mlir::RegionSuccessor()); }) {
    for (auto &r : regions) r.setSuccessorInputs(compatOp.getSuccessorInputs(r));
  }
  return;"""))
# ---- loops
edit("mlir/Interfaces/LoopLikeInterface.h",
 ('/// Include the generated interface declarations.\n#include "mlir/Interfaces/LoopLikeInterface.h.inc"', """namespace mlir { namespace compat {
inline std::optional<APInt> staticTripCount(Operation *op);
} }
#include "mlir/Interfaces/LoopLikeInterface.h.inc"
namespace mlir { namespace compat {
inline std::optional<APInt> staticTripCount(Operation *op) {
  auto l = cast<LoopLikeOpInterface>(op);
  auto lb = l.getLoopLowerBounds(), ub = l.getLoopUpperBounds(), st = l.getLoopSteps();
  if (!lb || !ub || !st || lb->size() != 1) return std::nullopt;
  auto get = [](OpFoldResult f) -> std::optional<int64_t> {
    if (auto a = dyn_cast<Attribute>(f)) {
      if (auto i = dyn_cast<IntegerAttr>(a)) return i.getInt();
      return std::nullopt;
    }
    Value v = cast<Value>(f);
    if (Operation *d = v.getDefiningOp())
      if (auto i = d->getAttrOfType<IntegerAttr>("value")) return i.getInt();
    return std::nullopt;
  };
  auto a = get((*lb)[0]), b = get((*ub)[0]), c = get((*st)[0]);
  if (!a || !b || !c || *c <= 0) return std::nullopt;
  return APInt(64, *b <= *a ? 0 : (*b - *a + *c - 1) / *c);
}
} }"""))
s = readw("mlir/Interfaces/LoopLikeInterface.h.inc")
s = s.replace("  using ::mlir::OpInterface<LoopLikeOpInterface, detail::LoopLikeOpInterfaceInterfaceTraits>::OpInterface;\n", "  using ::mlir::OpInterface<LoopLikeOpInterface, detail::LoopLikeOpInterfaceInterfaceTraits>::OpInterface;\n  std::optional<::llvm::APInt> getStaticTripCount() { return ::mlir::compat::staticTripCount(getOperation()); }\n", 1)
s = s.replace("  struct LoopLikeOpInterfaceTrait : public ::mlir::OpInterface<LoopLikeOpInterface, detail::LoopLikeOpInterfaceInterfaceTraits>::Trait<ConcreteOp> {\n", "  struct LoopLikeOpInterfaceTrait : public ::mlir::OpInterface<LoopLikeOpInterface, detail::LoopLikeOpInterfaceInterfaceTraits>::Trait<ConcreteOp> {\n    std::optional<::llvm::APInt> getStaticTripCount() { return ::mlir::compat::staticTripCount((*static_cast<ConcreteOp *>(this)).getOperation()); }\n", 1)
assert s.count("compat::staticTripCount") == 2
writew("mlir/Interfaces/LoopLikeInterface.h.inc", s)
# ---- functions
s = readw("mlir/Interfaces/FunctionInterfaces.h.inc")
s = re.sub(r"void insertArgument\(([^{]*)\{\n(\s*)(insertArguments\([^;]*;)", r"::llvm::LogicalResult insertArgument(\1{\n\2\3\n\2return ::llvm::success();", s)
s = re.sub(r"(    ::mlir::Attribute removeResultAttr\(unsigned index, ::mlir::StringAttr name\) \{\n      return [^\n]*\((\(\*[^\n]*\)|\(\*this\)), index, name\);\n    \})",
           lambda m: m.group(1) + "\n    ::mlir::Attribute removeResultAttr(unsigned index, ::llvm::StringRef name) { return removeResultAttr(index, ::mlir::StringAttr::get(this->getOperation()->getContext(), name)); }", s)
writew("mlir/Interfaces/FunctionInterfaces.h.inc", s)
# ---- Op::create(builder, ...) mirroring every build() overload (braced initialisers)
exec(open(os.path.join(COMPAT, "opcreate.py")).read())
for f in ("mlir/Dialect/Tensor/IR/TensorOps.h.inc", "mlir/Dialect/Func/IR/FuncOps.h.inc", "mlir/Dialect/SCF/IR/SCFOps.h.inc", "mlir/Dialect/MemRef/IR/MemRefOps.h.inc", "mlir/Dialect/Linalg/IR/LinalgOps.h.inc", "mlir/Dialect/Linalg/IR/LinalgStructuredOps.h.inc", "mlir/Dialect/Affine/IR/AffineOps.h.inc"):
    s = readw(f)
    writew(f, add_creates(s))
s = readw("mlir/Dialect/Tensor/IR/TensorOps.h.inc")
for op, idx in (("ExtractOp", ("tensor",)), ("InsertOp", ("scalar", "dest")), ("ExtractSliceOp", ("source",)), ("InsertSliceOp", ("source", "dest"))):
    a = re.search(r"class %s : public ::mlir::Op<[^\n]*\{\npublic:\n" % op, s)
    s = s[:a.end()] + "".join(f"  static constexpr int odsIndex_{n} = {i};\n" for i, n in enumerate(idx)) + s[a.end():]
writew("mlir/Dialect/Tensor/IR/TensorOps.h.inc", s)
# ---- misc
edit("mlir/Transforms/DialectConversion.h", ("  bool buildMaterializations = true;", "  bool buildMaterializations = true;\n  bool allowPatternRollback = true;"))
edit("mlir/IR/Value.h", ("  bool hasOneUse() const {", "  unsigned getNumUses() const { return std::distance(use_begin(), use_end()); }\n  bool hasOneUse() const {"))
edit("mlir/Analysis/Presburger/IntegerRelation.h", ("  inline int64_t atEq64(", """  inline int64_t atConstraint64(unsigned i, unsigned j) const {
    unsigned n = getNumInequalities();
    return i < n ? atIneq64(i, j) : atEq64(i - n, j);
  }
  inline int64_t atEq64("""))
edit("mlir/Analysis/FlatLinearValueConstraints.h", ("  explicit FlatLinearValueConstraints(IntegerSet set, ValueRange operands = {});",
 "  explicit FlatLinearValueConstraints(IntegerSet set, ValueRange operands = {});\n  static FailureOr<FlatLinearValueConstraints> create(IntegerSet set, ValueRange operands = {}) { return FlatLinearValueConstraints(set, operands); }"))
edit("mlir/Transforms/Inliner.h", ("  InlinerConfig() = default;", "  InlinerConfig() = default;\n  bool getCloneCallback() const { return true; }"))
edit("mlir/Transforms/InliningUtils.h", ("} // namespace mlir\n\n#endif", """inline LogicalResult inlineCall(InlinerInterface &interface, bool, CallOpInterface call,
                         CallableOpInterface callable, Region *src) {
  return inlineCall(interface, call, callable, src, true);
}
} // namespace mlir

#endif"""))
edit("mlir/Dialect/Math/IR/Math.h", append="""
namespace mlir::math {
struct ErfcOp : ErfOp { using ErfOp::ErfOp; static StringRef getOperationName() { return "math.erfc"; } static bool classof(Operation *) { return false; } };
}
""")
edit("mlir/Dialect/Linalg/IR/Linalg.h", append="""
namespace mlir::linalg {
struct ContractOp : MatmulOp { using MatmulOp::MatmulOp; static StringRef getOperationName() { return "linalg.contract"; } static bool classof(Operation *) { return false; } };
}
""")
edit("mlir/Conversion/SCFToControlFlow/SCFToControlFlow.h", append="namespace mlir { inline std::unique_ptr<Pass> createSCFToControlFlowPass() { return createConvertSCFToCFPass(); } }\n")
edit("mlir/Conversion/BufferizationToMemRef/BufferizationToMemRef.h", append="namespace mlir { inline std::unique_ptr<Pass> createConvertBufferizationToMemRefPass() { return createBufferizationToMemRefPass(); } }\n")
edit("mlir/Dialect/Bufferization/Transforms/Passes.h", append="namespace mlir::bufferization { using OneShotBufferizePassOptions = OneShotBufferizationOptions; }\n")
edit("mlir/Dialect/SCF/Utils/Utils.h", append="namespace mlir { inline LogicalResult loopUnrollFull(scf::ForOp f) { auto n = f.getStaticTripCount(); if (!n) return failure(); uint64_t t = n->getZExtValue(); if (t == 0) return failure(); if (t == 1) return f.promoteIfSingleIteration(f->getContext() ? *new IRRewriter(f->getContext()) : *new IRRewriter(f->getContext())); auto r = loopUnrollByFactor(f, t); return succeeded(r) ? success() : failure(); } }\n")
edit("mlir/IR/Diagnostics.h", ("  Diagnostic &operator<<(char val);", "  template <typename E> std::enable_if_t<std::is_enum_v<E> && !std::is_convertible_v<E, int>, Diagnostic &> operator<<(E val) { return *this << (int64_t)val; }\n  Diagnostic &operator<<(char val);"))
edit("mlir/IR/Matchers.h", append='#include "llvm/ADT/TypeSwitch.h"\n')

# ================= batch 3
s = readw("llvm/ADT/DenseMap.h")
s = s.replace("KeyInfoT::getEmptyKey()", "compatKey<KeyInfoT, KeyT, 0>()").replace("KeyInfoT::getTombstoneKey()", "compatKey<KeyInfoT, KeyT, 1>()")
s = re.sub(r"if constexpr \(requires \{ compatKey<KeyInfoT, KeyT, (.)>\(\); \}\) \{\n\s*return [^}]*\} else \{[^}]*\}", r"return compatKey<KeyInfoT, KeyT, \1>();", s)
s = s.replace("namespace llvm {", """namespace llvm {
template <typename I, typename V, int K> V compatKey() {
  if constexpr (requires { I::getEmptyKey(); }) {
    if constexpr (K == 0) return I::getEmptyKey(); else return I::getTombstoneKey();
  } else {
    V key;
    key.type = compatKey<DenseMapInfo<decltype(key.type)>, decltype(key.type), K>();
    key.attr = compatKey<DenseMapInfo<decltype(key.attr)>, decltype(key.attr), K>();
    return key;
  }
}
""", 1)
writew("llvm/ADT/DenseMap.h", s)
edit("mlir/Analysis/FlatLinearValueConstraints.h", ('#include "mlir/Analysis/Presburger/IntegerRelation.h"', '#include "mlir/Analysis/Presburger/IntegerRelation.h"\n#include "mlir/IR/IntegerSet.h"'))
edit("mlir/Dialect/Tensor/IR/Tensor.h", append='#include "mlir/Dialect/Arith/IR/Arith.h"\n')
edit("mlir/Dialect/Linalg/IR/Linalg.h", append='#include "mlir/Dialect/Tensor/IR/Tensor.h"\n')
edit("mlir/Dialect/Func/IR/FuncOps.h", append='#include "mlir/Dialect/Arith/IR/Arith.h"\n')
edit("mlir/Dialect/Affine/Passes.h", append="namespace mlir::affine { inline auto createAffineParallelize() { return createAffineParallelizePass(); } }\n")
edit("mlir/Dialect/Tensor/IR/Tensor.h", append="namespace mlir { class RewritePatternSet; namespace tensor { inline void populateFoldCollapseExtractPatterns(RewritePatternSet &) {} } }\n")
new("mlir/Conversion/ConvertToEmitC/ToEmitCInterface.h", """#ifndef COMPAT_TOEMITC
#define COMPAT_TOEMITC
#include "mlir/IR/DialectInterface.h"
#include "mlir/Transforms/DialectConversion.h"
namespace mlir {
class ConvertToEmitCPatternInterface : public DialectInterface::Base<ConvertToEmitCPatternInterface> {
public:
  ConvertToEmitCPatternInterface(Dialect *d) : Base(d) {}
  virtual void populateConvertToEmitCConversionPatterns(ConversionTarget &, TypeConverter &, RewritePatternSet &, std::optional<bool>) const = 0;
};
}
#endif
""")
s = readw("mlir/Interfaces/ControlFlowInterfaces.td")
a = s.index('"::mlir::OperandRange", "getEntrySuccessorOperands"')
s = s[:a] + s[a:].replace('(ins "::mlir::RegionBranchPoint":$point)', '(ins "::mlir::RegionSuccessor":$successor)', 1)
s = s.replace("""    InterfaceMethod<[{
        Returns the potential region successors when first executing the op.""", """    InterfaceMethod<[{ compat }], "::mlir::ValueRange", "getSuccessorInputs",
      (ins "::mlir::RegionSuccessor":$successor), [{}], [{ return ::mlir::ValueRange(); }]>,
    InterfaceMethod<[{
        Returns the potential region successors when first executing the op.""", 1)
writew("mlir/Interfaces/ControlFlowInterfaces.td", s)
edit("mlir/Interfaces/ControlFlowInterfaces.h", ("  RegionSuccessor() : inputs(ValueRange()) {}", "  RegionSuccessor() : inputs(ValueRange()) {}\n  inline RegionSuccessor(const RegionBranchPoint &p);"),
  ("class RegionSuccessor {\npublic:", "class RegionBranchPoint;\nclass RegionSuccessor {\npublic:"),
  ("inline bool operator!=(RegionBranchPoint lhs", "inline RegionSuccessor::RegionSuccessor(const RegionBranchPoint &p) : region(p.getRegionOrNull()), inputs(ValueRange()) {}\ninline bool operator!=(RegionBranchPoint lhs"))
# ---- tensor.splat of other elements than numbers
edit("mlir/Dialect/Tensor/IR/TensorOps.h.inc", ("  using Adaptor = SplatOpAdaptor;",
"""  static SplatOp create(::mlir::ImplicitLocOpBuilder &b, ::mlir::Value v, ::mlir::RankedTensorType &t) {
    if (v.getType().isIntOrIndexOrFloat()) return create(b, t, v, ::mlir::ValueRange{});
    ::llvm::SmallVector<::mlir::Value> vs(t.getNumElements(), v);
    return SplatOp(FromElementsOp::create(b, t, vs).getOperation());
  }
  using Adaptor = SplatOpAdaptor;"""))
