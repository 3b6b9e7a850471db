// PolynomialAttributes.cpp calls the free dyn_cast and cast inside an
// attribute's member functions, where MLIR 20 still has (deprecated) members of
// that name, and asks types for aliases, which MLIR 20's types do not have.
#include "lib/Dialect/Polynomial/IR/PolynomialAttributes.h"
#include "lib/Dialect/ModArith/IR/ModArithTypes.h"
#include "lib/Dialect/Polynomial/IR/PolynomialTypes.h"
#include "lib/Dialect/RNS/IR/RNSTypes.h"
#include "llvm/include/llvm/ADT/TypeSwitch.h"
#include "mlir/include/mlir/IR/BuiltinTypes.h"
#include "mlir/include/mlir/IR/DialectImplementation.h"
#include "mlir/include/mlir/IR/OpImplementation.h"
#include "mlir/include/mlir/Support/LLVM.h"
namespace vt {
struct NoAliases {
  explicit operator bool() const { return false; }
  mlir::OpAsmDialectInterface::AliasResult getAlias(llvm::raw_ostream &) const { return {}; }
};
}  // namespace vt
template <typename T, typename V>
auto vt_dyn_cast(V &&v) {
  if constexpr (std::is_same_v<T, vt::NoAliases>) return vt::NoAliases();
  else return llvm::dyn_cast<T>(std::forward<V>(v));
}
template <typename T, typename V>
auto vt_cast(V &&v) { return llvm::cast<T>(std::forward<V>(v)); }
namespace mlir { using ::vt_cast; using ::vt_dyn_cast; }
namespace llvm { using ::vt_cast; using ::vt_dyn_cast; }
#define dyn_cast vt_dyn_cast
#define cast vt_cast
#define OpAsmTypeInterface vt::NoAliases
#include "lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp"
