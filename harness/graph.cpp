// C08: the graph algorithms the compiler schedules and places values with,
// against a set-of-edges model.
#include <limits>
#include <set>

#include "lib/Utils/Graph/Graph.h"
#include "pbt.h"

using namespace mlir;
using namespace mlir::heir::graph;
using pbt::Case;

struct Model {
  std::set<int> v;
  std::set<std::pair<int, int>> e;
  std::map<std::pair<int, int>, uint64_t> w;
  std::vector<int> out(int a) const {
    std::vector<int> r;
    for (auto &p : e) if (p.first == a) r.push_back(p.second);
    return r;
  }
  std::vector<int> in(int a) const {
    std::vector<int> r;
    for (auto &p : e) if (p.second == a) r.push_back(p.first);
    return r;
  }
  // transitive closure, reflexive
  std::map<int, std::set<int>> reach() const {
    std::map<int, std::set<int>> r;
    for (int s : v) {
      std::vector<int> st{s};
      r[s].insert(s);
      while (!st.empty()) {
        int a = st.back();
        st.pop_back();
        for (auto it = e.lower_bound({a, std::numeric_limits<int>::min()}); it != e.end() && it->first == a; ++it)
          if (r[s].insert(it->second).second) st.push_back(it->second);
      }
    }
    return r;
  }
  bool acyclic() const {
    std::map<int, int> deg;
    for (auto &p : e) deg[p.second]++;
    std::vector<int> st;
    for (int a : v) if (!deg[a]) st.push_back(a);
    size_t n = 0;
    while (!st.empty()) {
      int a = st.back();
      st.pop_back();
      ++n;
      for (int b : out(a)) if (!--deg[b]) st.push_back(b);
    }
    return n == v.size();
  }
};
using G = Graph<int>;

static std::string showE(const Model &m) {
  std::ostringstream o;
  o << "vertices " << pbt::str(std::vector<int>(m.v.begin(), m.v.end())) << " edges";
  for (auto &p : m.e) {
    o << " " << p.first << "->" << p.second;
    auto it = m.w.find(p);
    if (it != m.w.end()) o << "(" << it->second << ")";
  }
  return o.str();
}

// shape: 0 any, 1 acyclic
static void gen(Case &c, G &g, Model &m, bool dag, bool selfLoops, int maxN) {
  int n = (int)c.sized(1, maxN);
  std::vector<int> names;
  for (int i = 0; i < n; ++i) names.push_back(i);
  // vertex names in an order unrelated to the topological order
  if (c.chance(70)) {
    int stride = (int)c.range(1, 5), off = (int)c.sint(20);
    for (auto &x : names) x = x * stride + off;
    c.shuffle(names);
  }
  for (int x : names) { g.addVertex(x); m.v.insert(x); }
  int edges = (int)c.range(0, std::min(n * n, (int)(n * c.pickOf<int>({1, 2, 4}))));
  for (int k = 0; k < edges; ++k) {
    int a = (int)c.draw(n), b = (int)c.draw(n);
    if (a == b && (dag || !selfLoops)) continue;
    if (dag && a > b) std::swap(a, b);
    bool ok;
    if (c.chance(20)) ok = g.addEdge(names[a], names[b], (int)c.draw(9));
    else ok = g.addEdge(names[a], names[b]);
    c.check(ok, "addEdge between known vertices returned false");
    m.e.insert({names[a], names[b]});
  }
}

// Every observer of the graph agrees with the model.
static void sameGraph(Case &c, G &g, const Model &m, const std::string &when) {
  c.check(g.getVertices() == m.v, when, ": vertices are ", pbt::str(std::vector<int>(g.getVertices().begin(), g.getVertices().end())), ", expected ", pbt::str(std::vector<int>(m.v.begin(), m.v.end())));
  std::set<std::pair<int, int>> got(g.getEdges().begin(), g.getEdges().end());
  if (got != m.e) {
    Model t;
    t.v = m.v;
    t.e = got;
    c.fail(when + ": graph is " + showE(t) + ", expected " + showE(m));
  }
  std::set<int> src, snk;
  for (int a : m.v) {
    auto o = m.out(a), i = m.in(a);
    c.check(g.edgesOutOf(a) == o, when, ": edgesOutOf(", a, ") = ", pbt::str(g.edgesOutOf(a)), ", expected ", pbt::str(o));
    c.check(g.edgesInto(a) == i, when, ": edgesInto(", a, ") = ", pbt::str(g.edgesInto(a)), ", expected ", pbt::str(i));
    c.eq(g.getInDegree(a), (uint64_t)i.size(), when, ": in-degree of ", a);
    c.eq(g.getOutDegree(a), (uint64_t)o.size(), when, ": out-degree of ", a);
    if (i.empty()) src.insert(a);
    if (o.empty()) snk.insert(a);
  }
  c.check(g.getSources() == src, when, ": wrong sources");
  c.check(g.getSinks() == snk, when, ": wrong sinks");
}

PROP(C08, mutation_history, "at least one vertex was merged away by contraction and edges remain", 25000, 500000) {
  G g;
  Model m;
  int n = (int)c.sized(2, 9);
  int steps = (int)c.range(1, 25);
  bool contracted = false;
  for (int s = 0; s < steps; ++s) {
    int a = (int)c.draw(n), b = (int)c.draw(n);
    switch (c.weighted({4, 6, 2, 2, 1})) {
      case 0:
        c.desc << "addVertex " << a << "; ";
        g.addVertex(a);
        m.v.insert(a);
        break;
      case 1: {
        bool known = m.v.count(a) && m.v.count(b);
        if (a == b) continue;
        c.desc << "addEdge " << a << " " << b << "; ";
        bool r = c.chance(30) ? g.addEdge(a, b, (int)c.draw(5)) : g.addEdge(a, b);
        c.eq(r, known, "addEdge(", a, ",", b, ")");
        if (known) m.e.insert({a, b});
        break;
      }
      case 2: {
        // bias to an existing edge
        if (!m.e.empty() && c.chance(80)) {
          auto it = m.e.begin();
          std::advance(it, c.draw(m.e.size()));
          a = it->first, b = it->second;
        }
        if (a == b) continue;
        c.desc << "contract " << a << " " << b << "; ";
        bool has = m.e.count({a, b});
        std::vector<std::pair<int, int>> merged;
        bool r = g.contractEdge(a, b, [&](int &x, const int &y) { merged.push_back({x, y}); });
        c.eq(r, has, "contractEdge(", a, ",", b, ")");
        c.check(merged == (has ? std::vector<std::pair<int, int>>{{a, b}} : std::vector<std::pair<int, int>>{}), "the merge callback ran ", merged.size(), " times or on other vertices");
        if (has) {
          contracted = true;
          Model k;
          k.v = m.v;
          k.v.erase(b);
          for (auto [x, y] : m.e) {
            if (x == b) x = a;
            if (y == b) y = a;
            if (x != y) k.e.insert({x, y});
          }
          m = k;
        }
        break;
      }
      case 3:
        c.eq(g.hasEdge(a, b), m.e.count({a, b}) > 0, "hasEdge(", a, ",", b, ")");
        c.eq(g.contains(a), m.v.count(a) > 0, "contains(", a, ")");
        break;
      default:
        sameGraph(c, g, m, "after " + std::to_string(s) + " operations");
    }
  }
  c.eq(g.empty(), m.v.empty(), "empty()");
  sameGraph(c, g, m, "at the end");
  if (contracted && !m.e.empty()) c.nontrivial();
}

PROP(C08, topological_order, "the graph has at least 4 edges", 25000, 500000) {
  G g;
  Model m;
  gen(c, g, m, c.chance(70), true, c.thorough ? 40 : 20);
  c.desc << showE(m);
  bool ac = m.acyclic();
  if (m.e.size() >= 4) c.nontrivial();
  c.label(ac ? "acyclic" : "cyclic");
  auto r = g.topologicalSort();
  c.check(succeeded(r) == ac, "topologicalSort ", succeeded(r) ? "succeeded" : "failed", " on a graph that is ", ac ? "acyclic" : "cyclic");
  auto lv = g.sortGraphByLevels();
  c.check(succeeded(lv) == ac, "sortGraphByLevels ", succeeded(lv) ? "succeeded" : "failed");
  if (!ac) return;
  std::map<int, size_t> pos;
  for (size_t i = 0; i < r->size(); ++i) {
    c.check(m.v.count((*r)[i]), "unknown vertex in the order");
    c.check(pos.emplace((*r)[i], i).second, "vertex ", (*r)[i], " appears twice in the order ", pbt::str(*r));
  }
  c.eq(pos.size(), m.v.size(), "number of ordered vertices");
  for (auto &[a, b] : m.e) c.check(pos[a] < pos[b], "edge ", a, "->", b, " goes backwards in ", pbt::str(*r));
  // Levels: a partition; an edge leads to a strictly later level; there are
  // as many levels as vertices on the longest path.
  std::map<int, int> level;
  for (size_t i = 0; i < lv->size(); ++i)
    for (int a : (*lv)[i]) c.check(level.emplace(a, (int)i).second, "vertex ", a, " is in two levels");
  c.eq(level.size(), m.v.size(), "number of levelled vertices");
  for (auto &[a, b] : m.e) c.check(level[a] < level[b], "edge ", a, "->", b, " goes from level ", level[a], " to ", level[b]);
  std::map<int, int> longest;
  int most = 0;
  for (int a : *r) {
    most = std::max(most, ++longest[a]);
    for (int b : m.out(a)) longest[b] = std::max(longest[b], longest[a]);
  }
  c.eq((int)lv->size(), most, "number of levels");
}

PROP(C08, components, "some component has at least 2 vertices and the graph has several components", 25000, 500000) {
  G g;
  Model m;
  bool self = c.chance(40);
  gen(c, g, m, false, self, c.thorough ? 30 : 14);
  c.desc << showE(m);
  auto reach = m.reach();
  auto got = g.getStronglyConnectedComponents();
  std::map<int, int> comp;
  for (size_t i = 0; i < got.size(); ++i)
    for (int a : got[i]) c.check(m.v.count(a) && comp.emplace(a, (int)i).second, "vertex ", a, " is in two components");
  c.eq(comp.size(), m.v.size(), "number of vertices in components");
  bool big = false;
  for (int a : m.v)
    for (int b : m.v) {
      bool same = reach[a].count(b) && reach[b].count(a);
      if (same && a != b) big = true;
      c.check((comp[a] == comp[b]) == same, "vertices ", a, " and ", b, same ? " reach each other but are in different components" : " are in one component but do not reach each other");
    }
  if (big && got.size() > 1) c.nontrivial();
  // Condensation keeps one representative of each component, merges every
  // other vertex into one of its own component exactly once, is acyclic, and
  // preserves reachability between components.
  std::vector<std::pair<int, int>> merges;
  g.condenseGraph([&](int &a, const int &b) { merges.push_back({a, b}); });
  c.eq(g.getVertices().size(), got.size(), "vertices after condensation");
  c.eq(merges.size(), m.v.size() - got.size(), "number of merges");
  std::set<int> gone;
  for (auto &[a, b] : merges) {
    c.check(comp[a] == comp[b], "merged ", b, " into ", a, " of another component");
    c.check(!gone.count(a), "merged into ", a, ", which was already merged away");
    c.check(gone.insert(b).second, "merged ", b, " twice");
  }
  Model k;
  for (int a : g.getVertices()) {
    c.check(m.v.count(a) && !gone.count(a), "vertex ", a, " should have been merged away");
    k.v.insert(a);
  }
  std::map<int, int> rep;
  for (int a : k.v) rep[comp[a]] = a;
  for (auto &[a, b] : m.e)
    if (comp[a] != comp[b]) k.e.insert({rep[comp[a]], rep[comp[b]]});
  std::set<std::pair<int, int>> have;
  for (auto &p : g.getEdges()) if (p.first != p.second) have.insert(p);
  if (have != k.e) {
    Model t = k;
    t.e = have;
    c.fail("condensed graph is " + showE(t) + ", expected " + showE(k));
  }
  for (int a : k.v) {
    std::vector<int> in, out;
    for (int b : g.edgesInto(a)) if (b != a) in.push_back(b);
    for (int b : g.edgesOutOf(a)) if (b != a) out.push_back(b);
    c.check(in == k.in(a) && out == k.out(a), "adjacency of ", a, " after condensation is inconsistent with the edge set");
  }
  if (!self) c.check(succeeded(g.topologicalSort()), "the condensed graph is cyclic");
}

PROP(C08, shortest_path, "the end is reachable, at distance at least 2", 25000, 500000) {
  G g;
  Model m;
  gen(c, g, m, c.chance(30), true, c.thorough ? 40 : 16);
  std::vector<int> vs(m.v.begin(), m.v.end());
  int s = c.pick(vs), t = c.pick(vs);
  bool weighted = c.chance(60);
  const uint64_t INF = std::numeric_limits<uint64_t>::max();
  for (auto &p : m.e) m.w[p] = !weighted ? 1 : (c.chance(8) ? INF : c.draw(c.chance(80) ? 12 : 1000000));
  c.desc << showE(m) << " from " << s << " to " << t << (weighted ? " weighted" : "");
  // Bellman-Ford
  std::map<int, uint64_t> d;
  for (int a : m.v) d[a] = INF;
  d[s] = 0;
  for (size_t i = 0; i < m.v.size(); ++i)
    for (auto &[e, w] : m.w)
      if (d[e.first] != INF && w != INF) d[e.second] = std::min(d[e.second], d[e.first] + w);
  auto r = weighted ? g.getShortestPath(s, t, [&](int a, int b) -> uint64_t { auto it = m.w.find({a, b}); return it == m.w.end() ? INF : it->second; })
                    : g.getShortestPath(s, t);
  c.check(succeeded(r) == (d[t] != INF), "search ", succeeded(r) ? "succeeded" : "failed", " but the end is ", d[t] == INF ? "not reachable" : "reachable");
  if (failed(r)) return;
  c.check(!r->empty() && r->front() == s && r->back() == t, "path ", pbt::str(*r), " does not lead from ", s, " to ", t);
  uint64_t len = 0;
  for (size_t i = 0; i + 1 < r->size(); ++i) {
    auto it = m.w.find({(*r)[i], (*r)[i + 1]});
    c.check(it != m.w.end() && it->second != INF, "path ", pbt::str(*r), " uses the missing edge ", (*r)[i], "->", (*r)[i + 1]);
    len += it->second;
  }
  c.eq(len, d[t], "length of path ", pbt::str(*r));
  if (r->size() >= 3) c.nontrivial();
}

PROP(C08, critical_path, "the graph is acyclic and has an inner vertex", 10000, 200000) {
  G g;
  Model m;
  gen(c, g, m, c.chance(85), true, 14);
  c.desc << showE(m);
  auto r = g.findApproximateCriticalPath();
  bool ac = m.acyclic();
  if (!ac) {
    c.check(failed(r), "a critical path was found in a cyclic graph");
    return;
  }
  c.check(succeeded(r), "no critical path in an acyclic graph");
  auto src = g.getSources(), snk = g.getSinks();
  std::map<int, size_t> pos;
  for (size_t i = 0; i < r->size(); ++i) c.check(m.v.count((*r)[i]) && pos.emplace((*r)[i], i).second, "bad path ", pbt::str(*r));
  for (auto &[a, b] : m.e)
    if (pos.count(a) && pos.count(b)) c.check(pos[a] < pos[b], "edge ", a, "->", b, " goes backwards in ", pbt::str(*r));
  bool inner = false;
  // every vertex that is neither source nor sink is on it
  if (m.v.size() >= 3) {
    for (int a : m.v)
      if (!src.count(a) && !snk.count(a)) {
        inner = true;
        c.check(pos.count(a), "inner vertex ", a, " is missing from ", pbt::str(*r));
      }
    c.check(snk.count(r->back()), "the path ", pbt::str(*r), " does not end in a sink");
  }
  if (inner) c.nontrivial();
}

PROP(C08, longest_source_sink_path, "several source/sink pairs are connected", 10000, 200000) {
  G g;
  Model m;
  gen(c, g, m, c.chance(80), false, 12);
  c.desc << showE(m);
  size_t want = 0;
  int pairs = 0;
  for (int s : m.v) {
    if (!m.in(s).empty()) continue;
    std::map<int, size_t> d{{s, 1}};
    std::vector<int> q{s};
    for (size_t i = 0; i < q.size(); ++i)
      for (int b : m.out(q[i])) if (d.emplace(b, d[q[i]] + 1).second) q.push_back(b);
    for (auto &[t, len] : d)
      if (t != s && m.out(t).empty()) want = std::max(want, len), ++pairs;
  }
  if (pairs >= 2) c.nontrivial();
  auto r = g.getLongestSourceToSinkPath();
  c.check(succeeded(r), "failed");
  c.eq(r->size(), want, "length of ", pbt::str(*r));
  for (size_t i = 0; i + 1 < r->size(); ++i) c.check(m.e.count({(*r)[i], (*r)[i + 1]}), "path ", pbt::str(*r), " uses a missing edge");
  if (want) c.check(m.in(r->front()).empty() && m.out(r->back()).empty(), "path ", pbt::str(*r), " does not lead from a source to a sink");
}

PROP(C08, colouring, "the graph needs at least 3 colours or was coloured with a reused object", 25000, 500000) {
  GreedyGraphColoring<int> col;
  int rounds = (int)c.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    UndirectedGraph<int> g;
    int n = (int)c.sized(0, c.thorough ? 40 : 18);
    std::vector<std::set<int>> adj(n);
    int stride = (int)c.range(1, 4);
    for (int i = 0; i < n; ++i) g.addVertex(i * stride);
    int edges = n < 2 ? 0 : (int)c.range(0, n * c.pickOf<int>({1, 2, 5}));
    bool bip = c.chance(25);
    std::ostringstream es;
    for (int k = 0; k < edges; ++k) {
      int a = (int)c.draw(n), b = (int)c.draw(n);
      if (a == b || (bip && (a ^ b) % 2 == 0)) continue;
      c.check(g.addEdge(a * stride, b * stride), "addEdge between known vertices returned false");
      adj[a].insert(b);
      adj[b].insert(a);
      es << " " << a * stride << "-" << b * stride;
    }
    c.desc << "round " << round << ": vertices 0.." << n - 1 << " times " << stride << ", edges" << es.str() << "; ";
    c.check(!g.addEdge(n * stride + 1, 0), "addEdge accepted an unknown vertex");
    for (int a = 0; a < n; ++a) {
      std::vector<int> want;
      for (int b : adj[a]) want.push_back(b * stride);
      c.check(g.edgesIncidentTo(a * stride) == want, "edgesIncidentTo(", a * stride, ")");
      for (int b = 0; b < n; ++b) c.eq(g.hasEdge(a * stride, b * stride), adj[a].count(b) > 0, "hasEdge");
    }
    auto r = col.color(g);
    c.eq(r.size(), (size_t)n, "number of coloured vertices");
    size_t maxDeg = 0;
    int used = -1;
    for (int a = 0; a < n; ++a) {
      maxDeg = std::max(maxDeg, adj[a].size());
      c.check(r.count(a * stride), "vertex ", a * stride, " has no colour");
      int k = r.at(a * stride);
      c.check(k >= 0, "negative colour");
      used = std::max(used, k);
      for (int b : adj[a]) c.check(r.at(b * stride) != k, "neighbours ", a * stride, " and ", b * stride, " share colour ", k);
      c.check(k <= (int)adj[a].size(), "vertex ", a * stride, " of degree ", adj[a].size(), " has colour ", k);
    }
    c.check(used <= (int)maxDeg, "colour ", used, " exceeds the maximal degree ", maxDeg);
    // DSatur is exact on bipartite graphs.
    if (bip && n) c.check(used <= 1, "a bipartite graph was coloured with ", used + 1, " colours");
    if (used >= 2 || (round && n >= 3)) c.nontrivial();
  }
}
