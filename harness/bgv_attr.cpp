// The BGV scheme parameter attribute, with a dialect that holds nothing else.
#include "lib/Dialect/BGV/IR/BGVAttributes.h"
#include "llvm/include/llvm/ADT/TypeSwitch.h"
#include "mlir/include/mlir/IR/Builders.h"
#include "mlir/include/mlir/IR/DialectImplementation.h"

#include "lib/Dialect/BGV/IR/BGVDialect.cpp.inc"
#include "lib/Dialect/BGV/IR/BGVEnums.cpp.inc"
#define GET_ATTRDEF_CLASSES
#include "lib/Dialect/BGV/IR/BGVAttributes.cpp.inc"

void mlir::heir::bgv::BGVDialect::initialize() {
  addAttributes<
#define GET_ATTRDEF_LIST
#include "lib/Dialect/BGV/IR/BGVAttributes.cpp.inc"
      >();
}
