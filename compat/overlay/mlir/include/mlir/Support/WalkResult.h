// Not in MLIR 20: WalkResult lives in Visitors.h there.
#pragma once
#include "mlir/include/mlir/IR/Visitors.h"
