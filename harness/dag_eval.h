// An evaluator for ArithmeticDag written independently of the repository's
// visitors: int64 arithmetic, environment-free memoisation per loop iteration.
#pragma once
#include <set>
#include <unordered_map>

#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "pbt.h"

namespace hk {
using namespace mlir::heir::kernel;

template <class N>
struct Val {
  std::vector<int64_t> shape;  // {} scalar, {n}, {r, n}
  std::vector<N> data;
};

template <class T, class N>
struct DagEval {
  using Node = ArithmeticDagNode<T>;
  using Ptr = std::shared_ptr<Node>;
  using V = Val<N>;
  std::function<V(const T &)> leaf;
  std::set<int64_t> shifts;     // normalised rotation amounts executed
  uint64_t rotations = 0;
  bool divTrunc = true;

  std::vector<std::unordered_map<const Node *, std::vector<V>>> memo{1};
  std::unordered_map<const Node *, V> vars;

  [[noreturn]] static void bad(const std::string &m) {
    throw pbt::Failure{"ill-formed circuit: " + m};
  }
  V one(const Ptr &p) {
    auto r = eval(p);
    if (r.empty()) bad("empty result");
    return r[0];
  }
  static int64_t asIndex(const V &v) {
    if (!v.shape.empty() || v.data.size() != 1) bad("index is not a scalar");
    return (int64_t)v.data[0];
  }
  template <class F>
  static V zip(const V &a, const V &b, F f) {
    if (a.shape != b.shape) bad("operand shapes " + pbt::str(a.shape) + " and " + pbt::str(b.shape) + " differ");
    V r{a.shape, {}};
    for (size_t i = 0; i < a.data.size(); ++i) r.data.push_back(f(a.data[i], b.data[i]));
    return r;
  }
  V rot(const V &o, int64_t s) {
    if (o.shape.empty()) bad("rotating a scalar");
    int64_t d = o.shape.back();
    int64_t k = ((s % d) + d) % d;
    shifts.insert(k);
    rotations++;
    V r = o;
    int64_t rows = o.data.size() / d;
    for (int64_t q = 0; q < rows; ++q)
      for (int64_t i = 0; i < d; ++i) r.data[q * d + i] = o.data[q * d + (i + k) % d];
    return r;
  }
  static V fill(const DagType &t, double v) {
    V r;
    r.shape = t.getShape();
    int64_t n = 1;
    for (auto x : r.shape) n *= x;
    r.data.assign(n, (N)v);
    return r;
  }
  std::vector<V> eval(const Ptr &p) {
    if (!p) bad("null node");
    for (size_t i = memo.size(); i-- > 0;) {
      auto it = memo[i].find(p.get());
      if (it != memo[i].end()) return it->second;
    }
    auto r = compute(p);
    memo.back()[p.get()] = r;
    return r;
  }
  std::vector<V> compute(const Ptr &p) {
    auto &v = p->node_variant;
    if (auto *n = std::get_if<ConstantScalarNode>(&v)) {
      // constants of tensor type broadcast
      return {fill(n->type, n->value)};
    }
    if (auto *n = std::get_if<ConstantTensorNode>(&v)) {
      V r;
      r.shape = n->type.getShape();
      for (double d : n->value) r.data.push_back((N)d);
      return {r};
    }
    if (auto *n = std::get_if<LeafNode<T>>(&v)) return {leaf(n->value)};
    if (auto *n = std::get_if<AddNode<T>>(&v))
      return {zip(one(n->left), one(n->right), [](N a, N b) { return a + b; })};
    if (auto *n = std::get_if<SubtractNode<T>>(&v))
      return {zip(one(n->left), one(n->right), [](N a, N b) { return a - b; })};
    if (auto *n = std::get_if<MultiplyNode<T>>(&v))
      return {zip(one(n->left), one(n->right), [](N a, N b) { return a * b; })};
    if (auto *n = std::get_if<FloorDivNode<T>>(&v)) {
      V r = one(n->left);
      for (auto &x : r.data) x = x / n->divisor;
      return {r};
    }
    if (auto *n = std::get_if<PowerNode<T>>(&v)) {
      V b = one(n->base), r = b;
      for (auto &x : r.data) x = 1;
      for (size_t i = 0; i < n->exponent; ++i) r = zip(r, b, [](N a, N c) { return a * c; });
      return {r};
    }
    if (auto *n = std::get_if<LeftRotateNode<T>>(&v)) {
      V o = one(n->operand);
      return {rot(o, asIndex(one(n->shift)))};
    }
    if (auto *n = std::get_if<ExtractNode<T>>(&v)) {
      V t = one(n->operand);
      int64_t i = asIndex(one(n->index));
      if (t.shape.empty() || i < 0 || i >= t.shape[0])
        bad("extract index " + std::to_string(i) + " out of range of " + pbt::str(t.shape));
      V r;
      r.shape.assign(t.shape.begin() + 1, t.shape.end());
      int64_t w = t.data.size() / t.shape[0];
      r.data.assign(t.data.begin() + i * w, t.data.begin() + (i + 1) * w);
      return {r};
    }
    if (auto *n = std::get_if<InsertNode<T>>(&v)) {
      V s = one(n->scalar), d = one(n->dest);
      int64_t i = asIndex(one(n->index));
      if (d.shape.empty() || i < 0 || i >= d.shape[0]) bad("insert index out of range");
      int64_t w = d.data.size() / d.shape[0];
      if ((int64_t)s.data.size() != w) bad("insert size mismatch");
      std::copy(s.data.begin(), s.data.end(), d.data.begin() + i * w);
      return {d};
    }
    if (auto *n = std::get_if<ComparisonNode<T>>(&v)) {
      N a = one(n->left).data.at(0), b = one(n->right).data.at(0);
      bool r = false;
      switch (n->predicate) {
        case ComparisonPredicate::LT: r = a < b; break;
        case ComparisonPredicate::LE: r = a <= b; break;
        case ComparisonPredicate::GT: r = a > b; break;
        case ComparisonPredicate::GE: r = a >= b; break;
        case ComparisonPredicate::EQ: r = a == b; break;
        case ComparisonPredicate::NE: r = a != b; break;
      }
      return {V{{}, {(N)r}}};
    }
    if (auto *n = std::get_if<IfElseNode<T>>(&v)) {
      return one(n->condition).data.at(0) != 0 ? eval(n->thenBody) : eval(n->elseBody);
    }
    if (std::get_if<VariableNode<T>>(&v)) {
      auto it = vars.find(p.get());
      if (it == vars.end()) bad("unbound variable");
      return {it->second};
    }
    if (auto *n = std::get_if<ForLoopNode<T>>(&v)) {
      std::vector<V> it;
      for (auto &i : n->inits) it.push_back(one(i));
      if (n->step <= 0) bad("loop step");
      for (int64_t i = n->lower; i < n->upper; i += n->step) {
        memo.emplace_back();
        vars[n->inductionVar.get()] = V{{}, {(N)i}};
        if (it.size() != n->iterArgs.size()) bad("iter arg count");
        for (size_t j = 0; j < it.size(); ++j) vars[n->iterArgs[j].get()] = it[j];
        auto r = eval(n->body);
        memo.pop_back();
        it = r;
      }
      return it;
    }
    if (auto *n = std::get_if<YieldNode<T>>(&v)) {
      std::vector<V> r;
      for (auto &e : n->elements) r.push_back(one(e));
      return r;
    }
    if (auto *n = std::get_if<ResultAtNode<T>>(&v)) {
      auto r = eval(n->operand);
      if (n->index >= r.size()) bad("result index");
      return {r[n->index]};
    }
    if (auto *n = std::get_if<SplatNode>(&v)) return {fill(n->type, n->value)};
    if (auto *n = std::get_if<EmptyNode>(&v)) {
      V r;
      r.shape = n->shape;
      int64_t k = 1;
      for (auto x : r.shape) k *= x;
      r.data.assign(k, N(0));
      return {r};
    }
    bad("unhandled node");
  }
};

inline Val<int64_t> litVal(const LiteralValue &l) {
  Val<int64_t> r;
  r.shape = l.getShape();
  auto &v = l.get();
  if (auto *i = std::get_if<int>(&v)) r.data = {*i};
  if (auto *i = std::get_if<std::vector<int>>(&v)) r.data.assign(i->begin(), i->end());
  if (auto *i = std::get_if<std::vector<std::vector<int>>>(&v))
    for (auto &row : *i) r.data.insert(r.data.end(), row.begin(), row.end());
  return r;
}
using LitEval = DagEval<LiteralValue, int64_t>;
}  // namespace hk
