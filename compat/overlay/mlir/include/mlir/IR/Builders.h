// HEIR's MLIR declares ImplicitLocOpBuilder in Builders.h; MLIR 20 has it in a
// header of its own.
#pragma once
#include "mlir/IR/Builders.h"
#include "mlir/IR/ImplicitLocOpBuilder.h"
