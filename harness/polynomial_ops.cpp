// MLIR 20's diagnostics do not print enums by themselves.
#include "lib/Dialect/Polynomial/IR/PolynomialEnums.h"
#include "mlir/include/mlir/IR/Diagnostics.h"
namespace mlir {
inline Diagnostic &operator<<(Diagnostic &d, heir::polynomial::Form f) { return d << stringifyForm(f); }
}  // namespace mlir
#include "lib/Dialect/Polynomial/IR/PolynomialOps.cpp"
