// Names that newer MLIR has: OpAsmAttrInterface (compat/overlay_td makes it a
// trait without behaviour) and PropertyRef.
#ifndef COMPAT_MLIR_IR_DIALECT_H
#define COMPAT_MLIR_IR_DIALECT_H
#include "mlir/IR/Attributes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/OperationSupport.h"
namespace mlir::AttributeTrait {
template <typename ConcreteType>
class OpAsmAttrInterface : public TraitBase<ConcreteType, OpAsmAttrInterface> {};
}  // namespace mlir::AttributeTrait
namespace mlir {
using PropertyRef = OpaqueProperties;
}
#endif
