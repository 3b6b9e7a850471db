#include "mlir/Interfaces/ControlFlowInterfaces.h"
