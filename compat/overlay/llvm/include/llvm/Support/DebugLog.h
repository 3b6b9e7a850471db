// LLVM 20 has no DebugLog.h; LDBG() logging is a no-op here.
#pragma once
#include "llvm/Support/raw_ostream.h"
#ifndef LDBG
#define LDBG(...) \
  if (true)       \
    ;             \
  else            \
    ::llvm::nulls()
#endif
