// MLIR 20's sparse analyses, with the member newer ones let a backward analysis override.
#ifndef VERIF_MLIR_SPARSE_ANALYSIS_H_
#define VERIF_MLIR_SPARSE_ANALYSIS_H_
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
#include "mlir/Interfaces/ControlFlowInterfaces.h"
#define SparseBackwardDataFlowAnalysis SparseBackwardDataFlowAnalysis20
#include "mlir/Analysis/DataFlow/SparseAnalysis.h"
#undef SparseBackwardDataFlowAnalysis
namespace mlir::dataflow {
template <typename StateT>
class SparseBackwardDataFlowAnalysis : public SparseBackwardDataFlowAnalysis20<StateT> {
 public:
  using SparseBackwardDataFlowAnalysis20<StateT>::SparseBackwardDataFlowAnalysis20;
  virtual void visitNonControlFlowArguments(RegionSuccessor &successor, ArrayRef<BlockArgument> arguments) {}
};
}  // namespace mlir::dataflow
#endif
