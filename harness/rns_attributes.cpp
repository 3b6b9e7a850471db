// RNSAttributes.cpp calls the free dyn_cast and cast inside an attribute's
// member functions, where MLIR 20 still has (deprecated) members of that name.
#include "lib/Dialect/RNS/IR/RNSAttributes.h"
#include "lib/Dialect/RNS/IR/RNSOps.h"
#include "lib/Dialect/RNS/IR/RNSTypes.h"
#include "mlir/include/mlir/IR/Attributes.h"
#include "mlir/include/mlir/IR/Diagnostics.h"
#include "mlir/include/mlir/IR/DialectImplementation.h"
#include "mlir/include/mlir/IR/OpImplementation.h"
#include "mlir/include/mlir/Support/LLVM.h"
#define dyn_cast llvm::dyn_cast
#define cast llvm::cast
#include "lib/Dialect/RNS/IR/RNSAttributes.cpp"
