// The CKKS scheme parameter attribute, with a dialect that holds nothing else.
#include "lib/Dialect/CKKS/IR/CKKSAttributes.h"
#include "llvm/include/llvm/ADT/TypeSwitch.h"
#include "mlir/include/mlir/IR/Builders.h"
#include "mlir/include/mlir/IR/DialectImplementation.h"

#include "lib/Dialect/CKKS/IR/CKKSDialect.cpp.inc"
#define GET_ATTRDEF_CLASSES
#include "lib/Dialect/CKKS/IR/CKKSAttributes.cpp.inc"

void mlir::heir::ckks::CKKSDialect::initialize() {
  addAttributes<
#define GET_ATTRDEF_LIST
#include "lib/Dialect/CKKS/IR/CKKSAttributes.cpp.inc"
      >();
}
