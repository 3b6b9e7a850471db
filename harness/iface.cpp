// A server for the interface checks: reads one JSON request per line ({"kind", "mlir", "include", "module", "import"}),
// emits with the repository's emitters, answers one JSON line.
#include <iostream>
#include <optional>
#include "lib/Dialect/Openfhe/IR/OpenfheDialect.h"
#include "lib/Dialect/Openfhe/IR/OpenfheTypes.h"
#include "lib/Dialect/FuncUtils.h"
#include "lib/Target/Metadata/MetadataEmitter.h"
#include "lib/Target/OpenFhePke/OpenFheUtils.h"
#include "lib/Target/OpenFhePke/OpenFhePkeDebugHeaderEmitter.h"
#include "lib/Target/OpenFhePke/OpenFhePkeHeaderEmitter.h"
#include "lib/Target/OpenFhePke/OpenFhePkePybindEmitter.h"
#include "lib/Transforms/EmitCInterface/EmitCInterface.h"
#include "llvm/ADT/TypeSwitch.h"
#include "llvm/Support/JSON.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"

// The dialect with its types alone (its operations do not build against MLIR 20).
#include "lib/Dialect/Openfhe/IR/OpenfheDialect.cpp.inc"
#define GET_TYPEDEF_CLASSES
#include "lib/Dialect/Openfhe/IR/OpenfheTypes.cpp.inc"

void mlir::heir::openfhe::OpenfheDialect::initialize() {
  addTypes<
#define GET_TYPEDEF_LIST
#include "lib/Dialect/Openfhe/IR/OpenfheTypes.cpp.inc"
      >();
}

using namespace mlir;
namespace json = llvm::json;

static LogicalResult emit(StringRef kind, const json::Object &o, ModuleOp op, llvm::raw_ostream &os) {
  auto imp = heir::openfhe::OpenfheImportType(o.getInteger("import").value_or(0));
  std::string inc = o.getString("include").value_or("").str(), mod = o.getString("module").value_or("").str();
  if (kind == "metadata") return heir::emitMetadata(op, os);
  if (kind == "header") return heir::openfhe::translateToOpenFhePkeHeader(op, os, imp, inc);
  if (kind == "pybind") return heir::openfhe::translateToOpenFhePkePybind(op, os, inc, mod);
  if (kind == "debugheader") return heir::openfhe::translateToOpenFhePkeDebugHeaderEmitter(op, os, imp);
  if (kind == "cinterface") {
    PassManager pm(op.getContext());
    pm.addPass(heir::createEmitCInterface());
    if (failed(pm.run(op))) return failure();
    op.print(os, OpPrintingFlags().printGenericOpForm());
    return success();
  }
  return failure();
}

int main() {
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, memref::MemRefDialect, tensor::TensorDialect, scf::SCFDialect, heir::openfhe::OpenfheDialect>();
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    json::Object res;
    auto req = json::parse(line);
    std::string diag, text;
    bool ok = false;
    if (!req) {
      llvm::consumeError(req.takeError());
      diag = "bad request";
    } else {
      auto *o = req->getAsObject();
      if (o->getString("kind") == "sanitize") {
        SmallString<16> buf;
        text = heir::sanitizeIdentifier(*o->getString("mlir"), buf).str();
        ok = true;
      } else {
        MLIRContext ctx(reg, MLIRContext::Threading::DISABLED);
        ctx.loadAllAvailableDialects();
        ScopedDiagnosticHandler h(&ctx, [&](Diagnostic &d) { diag += d.str() + "\n"; return success(); });
        auto m = parseSourceString<ModuleOp>(*o->getString("mlir"), ParserConfig(&ctx));
        res["parsed"] = bool(m);
        if (m) {
          llvm::raw_string_ostream os(text);
          ok = succeeded(emit(*o->getString("kind"), *o, *m, os));
        }
      }
    }
    res["ok"] = ok;
    res["diag"] = diag;
    res["text"] = text;
    std::string s;
    llvm::raw_string_ostream(s) << json::Value(std::move(res));
    std::cout << s << std::endl;
  }
}
