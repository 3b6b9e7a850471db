// The attribute classes that RNSPolynomial.cpp refers to, without their dialects.
#include "lib/Dialect/ModArith/IR/ModArithAttributes.h"
#include "lib/Dialect/RNS/IR/RNSAttributes.h"
#include "llvm/include/llvm/ADT/TypeSwitch.h"
#include "mlir/include/mlir/IR/DialectImplementation.h"

namespace mlir::heir::rns {
ArrayRef<Attribute> RNSAttr::getValues() const { llvm_unreachable("not used"); }
}  // namespace mlir::heir::rns
namespace mlir::heir::mod_arith {
IntegerAttr ModArithAttr::getValue() const { llvm_unreachable("not used"); }
}  // namespace mlir::heir::mod_arith
MLIR_DEFINE_EXPLICIT_TYPE_ID(mlir::heir::mod_arith::ModArithAttr)
