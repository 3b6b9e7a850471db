// MLIR 20 has no math.erfc.
#include "mlir/include/mlir/Dialect/Math/IR/Math.h"
namespace mlir::math {
struct ErfcOp : public Op<ErfcOp, OpTrait::OneOperand, OpTrait::OneResult> {
  using Op::Op;
  static StringRef getOperationName() { return "math.erfc"; }
  static ArrayRef<StringRef> getAttributeNames() { return {}; }
};
}  // namespace mlir::math
#include "lib/Transforms/PolynomialApproximation/PolynomialApproximation.cpp"
