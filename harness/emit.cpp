// A server for the Python checks: one JSON request per line on stdin
//   {"kind": emitter, "mlir": text}  ->  {"ok": bool, "text": output, "diag": diagnostics}
#include <iostream>

#include "lib/Dialect/Preprocessing/IR/PreprocessingDialect.h"
#include "lib/Dialect/TfheRust/IR/TfheRustDialect.h"
#include "lib/Dialect/TfheRustBool/IR/TfheRustBoolDialect.h"
#include "lib/Target/Metadata/MetadataEmitter.h"
#include "lib/Target/TfheRust/TfheRustEmitter.h"
#include "lib/Target/TfheRustBool/TfheRustBoolEmitter.h"
#include "lib/Target/TfheRustHL/TfheRustHLEmitter.h"
#include "llvm/include/llvm/Support/JSON.h"
#include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/include/mlir/IR/BuiltinOps.h"
#include "mlir/include/mlir/IR/Diagnostics.h"
#include "mlir/include/mlir/IR/MLIRContext.h"
#include "mlir/include/mlir/Parser/Parser.h"
using namespace mlir;
namespace json = llvm::json;

static LogicalResult emitAs(llvm::StringRef kind, Operation *op, llvm::raw_ostream &os) {
  if (kind == "tfhe") return heir::tfhe_rust::translateToTfheRust(op, os, false);
  if (kind == "tfhe-levels") return heir::tfhe_rust::translateToTfheRust(op, os, true);
  if (kind == "bool") return heir::tfhe_rust_bool::translateToTfheRustBool(op, os, false);
  if (kind == "packed") return heir::tfhe_rust_bool::translateToTfheRustBool(op, os, true);
  if (kind == "hl") return heir::tfhe_rust::translateToTfheRustHL(op, os);
  if (kind == "metadata") return heir::emitMetadata(op, os);
  return failure();
}

int main() {
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, memref::MemRefDialect, tensor::TensorDialect,
             heir::tfhe_rust::TfheRustDialect, heir::tfhe_rust_bool::TfheRustBoolDialect, heir::preprocessing::PreprocessingDialect>();
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    json::Object res;
    auto req = json::parse(line);
    std::string diag, text;
    bool ok = false;
    if (!req) {
      llvm::consumeError(req.takeError());
      diag = "bad request";
    } else {
      MLIRContext ctx(reg, MLIRContext::Threading::DISABLED);
      ctx.loadAllAvailableDialects();
      ScopedDiagnosticHandler h(&ctx, [&](Diagnostic &d) { diag += d.str() + "\n"; return success(); });
      auto *o = req->getAsObject();
      auto m = parseSourceString<ModuleOp>(*o->getString("mlir"), ParserConfig(&ctx));
      res["parsed"] = bool(m);
      if (m) {
        llvm::raw_string_ostream os(text);
        ok = succeeded(emitAs(*o->getString("kind"), *m, os));
      }
    }
    res["ok"] = ok;
    res["diag"] = diag;
    res["text"] = text;
    std::string s;
    llvm::raw_string_ostream os(s);
    os << json::Value(std::move(res));
    std::cout << s << std::endl;
  }
}
