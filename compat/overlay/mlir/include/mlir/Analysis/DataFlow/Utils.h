// Newer MLIR's mlir/Analysis/DataFlow/Utils.h, for MLIR 20.
#ifndef VERIF_MLIR_DATAFLOW_UTILS_H_
#define VERIF_MLIR_DATAFLOW_UTILS_H_
#include "mlir/Analysis/DataFlow/ConstantPropagationAnalysis.h"
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
#include "mlir/Analysis/DataFlowFramework.h"
namespace mlir::dataflow {
inline void loadBaselineAnalyses(DataFlowSolver &solver) {
  solver.load<DeadCodeAnalysis>();
  solver.load<SparseConstantPropagation>();
}
}  // namespace mlir::dataflow
#endif
