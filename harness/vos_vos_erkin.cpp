// Compiles the shift network search against LLVM 20, whose DenseMap still needs
// reserved keys for FrozenVector.
#include "vos_vos_erkin.h"
#include "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.cpp"
