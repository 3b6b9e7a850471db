// A server for the Python checks: one JSON request per line on stdin
//   {"mlir": text, "fn": name, "runs": [[arg, ...], ...]}
// parses and verifies the module, runs the function on the reference
// interpreter, and answers with one JSON line
//   {"error": diagnostics}  or  {"args": [types], "runs": [{"r":[..]} | {"ub":msg} | {"unsupported":msg}]}
#include <iostream>

#include "../harness/mlir_interp.h"
#include "llvm/include/llvm/Support/JSON.h"
#include "mlir/include/mlir/IR/Diagnostics.h"
using namespace mlir;
namespace json = llvm::json;

static bool toVal(const json::Value &j, Type t, mi::Val &out) {
  if (auto st = dyn_cast<ShapedType>(t)) {
    auto *arr = j.getAsArray();
    if (!arr || !isa<RankedTensorType>(t)) return false;
    mi::Ints sizes;
    // dynamic sizes come from the data
    const json::Value *cur = &j;
    for (int64_t d = 0; d < st.getRank(); ++d) {
      auto *a = cur->getAsArray();
      if (!a || a->empty()) return false;
      sizes.push_back(a->size());
      cur = &(*a)[0];
    }
    out = mi::makeShaped(mi::Val::Tensor, sizes);
    for (int64_t i = 0; i < out.numel(); ++i) {
      auto idx = mi::unflat(sizes, i);
      const json::Value *e = &j;
      for (auto k : idx) {
        auto *a = e->getAsArray();
        if (!a || (size_t)k >= a->size()) return false;
        e = &(*a)[k];
      }
      if (!toVal(*e, st.getElementType(), out.buf->data[i])) return false;
    }
    return true;
  }
  if (isa<IntegerType, IndexType>(t)) {
    auto v = j.getAsInteger();
    if (!v) return false;
    out = mi::Val::I(*v, isa<IndexType>(t) ? 64 : cast<IntegerType>(t).getWidth());
    return true;
  }
  if (isa<Float32Type, Float64Type>(t)) {
    auto v = j.getAsNumber();
    if (auto text = j.getAsString()) v = strtod(text->str().c_str(), nullptr);  // JSON has no infinities
    if (!v) return false;
    out = mi::Val::F(*v, isa<Float32Type>(t));
    return true;
  }
  return false;
}
static json::Value fromVal(const mi::Val &v) {
  switch (v.k) {
    case mi::Val::Int: return json::Value((int64_t)v.s());
    case mi::Val::Float: {
      char b[64];
      snprintf(b, sizeof b, "%a", v.f);
      return json::Value(std::string(b));
    }
    case mi::Val::Tensor: {
      json::Array a;
      for (auto &e : mi::elems(v)) a.push_back(fromVal(e));
      return a;
    }
    default: return nullptr;
  }
}

int main() {
  DialectRegistry reg;
  reg.insert<affine::AffineDialect, arith::ArithDialect, func::FuncDialect, linalg::LinalgDialect, math::MathDialect, memref::MemRefDialect,
             scf::SCFDialect, tensor::TensorDialect>();
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    json::Object res;
    auto req = json::parse(line);
    std::string diag;
    if (!req) {
      llvm::consumeError(req.takeError());
      res["error"] = "bad request";
    } else {
      MLIRContext ctx(reg, MLIRContext::Threading::DISABLED);
      ctx.allowUnregisteredDialects();
      ctx.loadAllAvailableDialects();
      ScopedDiagnosticHandler h(&ctx, [&](Diagnostic &d) { diag += d.str() + "\n"; return success(); });
      auto *o = req->getAsObject();
      auto m = mi::parse(o->getString("mlir")->str(), &ctx);
      if (!m) res["error"] = diag.empty() ? "does not parse" : diag;
      else {
        auto fn = m->lookupSymbol<func::FuncOp>(*o->getString("fn"));
        if (!fn) res["error"] = "no such function";
        else {
          json::Array types, rtypes, runs;
          for (auto t : fn.getArgumentTypes()) { std::string s; llvm::raw_string_ostream os(s); os << t; types.push_back(s); }
          for (auto t : fn.getResultTypes()) { std::string s; llvm::raw_string_ostream os(s); os << t; rtypes.push_back(s); }
          res["args"] = std::move(types);
          res["results"] = std::move(rtypes);
          json::Array attrs;
          for (unsigned i = 0; i < fn.getNumArguments(); ++i) {
            json::Object named;
            if (auto d = fn.getArgAttrDict(i))
              for (auto a : d) { std::string t; llvm::raw_string_ostream os(t); os << a.getValue(); named[a.getName().str()] = t; }
            attrs.push_back(std::move(named));
          }
          res["attrs"] = std::move(attrs);
          if (auto *rs = o->getArray("runs"))
            for (auto &r : *rs) {
              json::Object one;
              std::vector<mi::Val> in;
              bool ok = r.getAsArray() && r.getAsArray()->size() == fn.getNumArguments();
              if (ok)
                for (unsigned i = 0; i < fn.getNumArguments() && ok; ++i) {
                  mi::Val v;
                  ok = toVal((*r.getAsArray())[i], fn.getArgumentTypes()[i], v);
                  in.push_back(v);
                }
              if (!ok) one["unsupported"] = "argument";
              else try {
                mi::Interp it(*m);
                json::Array outs;
                for (auto &v : it.call(o->getString("fn")->str(), in)) outs.push_back(fromVal(v));
                one["r"] = std::move(outs);
              } catch (mi::UB &u) { one["ub"] = u.msg;
              } catch (mi::Unsupported &u) { one["unsupported"] = u.msg; }
              runs.push_back(std::move(one));
            }
          res["runs"] = std::move(runs);
        }
      }
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    os << json::Value(std::move(res));
    std::cout << s << std::endl;
  }
}
