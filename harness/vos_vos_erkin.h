#pragma once
#include "lib/Dialect/TensorExt/Transforms/ShiftScheme.h"
#include "lib/Utils/ADT/FrozenVector.h"
namespace llvm {
template <>
struct DenseMapInfo<mlir::heir::FrozenVector<int64_t, 4>> {
  using V = mlir::heir::FrozenVector<int64_t, 4>;
  static V getEmptyKey() { return V(SmallVector<int64_t, 4>{-1, -1, -1}); }
  static V getTombstoneKey() { return V(SmallVector<int64_t, 4>{-1, -1, -2}); }
  static unsigned getHashValue(const V &v) { return hash_combine_range(v.begin(), v.end()); }
  static bool isEqual(const V &l, const V &r) { return l == r; }
};
}  // namespace llvm
#include "lib/Dialect/TensorExt/Transforms/ImplementShiftNetwork.h"
