#include "mlir/include/mlir/IR/BuiltinOps.h"
#include "mlir/include/mlir/IR/PatternMatch.h"
#include "mlir/include/mlir/Pass/PassManager.h"
#include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/include/mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/include/mlir/Transforms/DialectConversion.h"
#include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "mlir/include/mlir/Analysis/DataFlow/SparseAnalysis.h"
#include "mlir/include/mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
#include "mlir/include/mlir/Dialect/Math/IR/Math.h"
#include "mlir/include/mlir/Interfaces/FunctionInterfaces.h"
#include "mlir/include/mlir/Transforms/WalkPatternRewriteDriver.h"
#include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"
#include "mlir/include/mlir/IR/DialectImplementation.h"
#include "mlir/include/mlir/IR/IRMapping.h"
#include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"
#include "mlir/include/mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "llvm/include/llvm/ADT/TypeSwitch.h"
#include <map>
#include <set>
#include <functional>
#include <random>
#include <sstream>
