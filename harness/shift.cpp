// C15: shift networks move every slot where the mapping says.
#include "dag_eval.h"
#include "vos_vos_erkin.h"
#include "lib/Dialect/TensorExt/Transforms/RotationGroupKernel.h"
#include "lib/Kernel/EvalVisitor.h"

using namespace hk;
using namespace mlir::heir;
using namespace mlir::heir::tensor_ext;
using pbt::Case;
using mlir::ArrayRef;
using mlir::SmallVector;
using Slot = std::pair<int64_t, int64_t>;
using Ptr = std::shared_ptr<ArithmeticDagNode<LiteralValue>>;

static std::string show(const Slot &s) { return "(" + std::to_string(s.first) + "," + std::to_string(s.second) + ")"; }

struct Task {
  int64_t slots, cts;
  std::map<Slot, Slot> map;  // target -> source
  Mapping mapping;
};
static Task genTask(Case &c, int maxLog = 4) {
  Task t;
  t.slots = 1ll << c.range(0, maxLog);
  t.cts = c.weighted({5, 4, 2, 2, 1}) + 1;
  int64_t n = t.slots * t.cts;
  auto at = [&](int64_t v) { return Slot{v / t.slots, v % t.slots}; };
  switch (c.weighted({3, 3, 2, 2, 2})) {
    case 0: {  // permutation
      std::vector<int64_t> p(n);
      for (int64_t i = 0; i < n; ++i) p[i] = i;
      c.shuffle(p);
      for (int64_t i = 0; i < n; ++i) t.map[at(i)] = at(p[i]);
      break;
    }
    case 1: {  // arbitrary partial mapping, sources may repeat
      for (int64_t i = 0; i < n; ++i)
        if (c.chance(60)) t.map[at(i)] = at(c.draw(n));
      break;
    }
    case 2: {  // few sources, many targets
      int64_t k = c.range(1, 3);
      std::vector<int64_t> src;
      for (int64_t i = 0; i < k; ++i) src.push_back(c.draw(n));
      for (int64_t i = 0; i < n; ++i)
        if (c.chance(80)) t.map[at(i)] = at(c.pick(src));
      break;
    }
    case 3: {  // one virtual rotation of some slots
      int64_t r = c.draw(n);
      for (int64_t i = 0; i < n; ++i)
        if (c.chance(85)) t.map[at(i)] = at((i + r) % n);
      break;
    }
    default: {  // exchange of whole ciphertexts, or a transpose of the slots
      int64_t k = c.draw(t.cts);
      int64_t rows = 1ll << c.range(0, 3);
      for (int64_t i = 0; i < n; ++i) {
        Slot s = at(i);
        s.first = (s.first + k) % t.cts;
        if (t.slots % rows == 0) s.second = (s.second % rows) * (t.slots / rows) + s.second / rows;
        t.map[at(i)] = s;
      }
    }
  }
  if (t.map.empty()) t.map[at(c.draw(n))] = at(c.draw(n));
  t.mapping = Mapping(t.slots, t.cts);
  std::vector<std::pair<Slot, Slot>> order(t.map.begin(), t.map.end());
  if (c.chance(50)) c.shuffle(order);
  for (auto &[to, from] : order) t.mapping.add(CtSlot(from.first, from.second), CtSlot(to.first, to.second));
  c.desc << t.cts << " ciphertexts of " << t.slots << " slots; target<-source:";
  for (auto &[to, from] : t.map) c.desc << " " << show(to) << "<-" << show(from);
  c.desc << "\n";
  return t;
}
static std::vector<int64_t> genOrder(Case &c, const Task &t) {
  int64_t n = t.slots * t.cts;
  std::vector<int64_t> o;
  for (int64_t k = 1; k < n; k *= 2) o.push_back(k);
  if (c.chance(50)) c.shuffle(o);
  return o;
}
static bool twoWay(const Task &t) {  // some source has several targets, or ciphertexts exchange slots
  std::set<Slot> src;
  for (auto &[to, from] : t.map)
    if (!src.insert(from).second || to.first != from.first) return true;
  return false;
}
static void checkNetwork(Case &c, const Task &t, const ShiftScheme &scheme) {
  SmallVector<LiteralValue> in;
  std::vector<std::vector<int>> data(t.cts, std::vector<int>(t.slots));
  for (auto &row : data) {
    for (auto &x : row) x = (int)c.range(1, 90);
    in.push_back(LiteralValue(row));
  }
  auto dag = implementShiftNetwork(in, t.mapping, scheme, t.slots, DagType::integer(32));
  c.eq((int64_t)dag.size(), t.cts, "number of result ciphertexts");
  LitEval e;
  e.leaf = [](const LiteralValue &l) {
    auto v = litVal(l);
    v.shape.insert(v.shape.begin(), 1);
    return v;
  };
  for (int64_t k = 0; k < t.cts; ++k) {
    auto got = e.one(dag[k]).data;
    c.eq((int64_t)got.size(), t.slots, "slots of result ", k);
    for (int64_t s = 0; s < t.slots; ++s) {
      auto it = t.map.find({k, s});
      int64_t want = it == t.map.end() ? 0 : data[it->second.first][it->second.second];
      c.eq(got[s], want, "slot ", s, " of ciphertext ", k);
    }
  }
}
static std::map<Slot, int> groupsOf(Case &c, const Task &t, const SmallVector<RotationGroup> &groups) {
  std::map<Slot, int> of;
  for (size_t g = 0; g < groups.size(); ++g)
    for (auto &s : groups[g]) c.check(of.emplace(Slot{s.ct, s.slot}, (int)g).second, "slot ", show({s.ct, s.slot}), " is in two rotation groups");
  std::set<Slot> src;
  for (auto &[to, from] : t.map) src.insert(from);
  c.eq(of.size(), src.size(), "slots in rotation groups");
  for (auto &s : src) c.check(of.count(s) > 0, "source ", show(s), " is in no rotation group");
  return of;
}

// Where slots are after each power-of-two rotation, computed here.
struct Track { Slot source; int64_t shift; };
static std::vector<std::vector<int64_t>> positions(const Task &t, const std::vector<Track> &tr, const std::vector<int64_t> &order) {
  int64_t n = t.slots * t.cts;
  std::vector<std::vector<int64_t>> r;
  std::vector<int64_t> cur;
  for (auto &x : tr) cur.push_back(x.source.first * t.slots + x.source.second);
  r.push_back(cur);
  for (auto o : order) {
    for (size_t i = 0; i < tr.size(); ++i)
      if (tr[i].shift & o) cur[i] = ((cur[i] - o) % n + n) % n;
    r.push_back(cur);
  }
  return r;
}
static std::vector<Track> tracks(const Task &t) {
  int64_t n = t.slots * t.cts;
  std::vector<Track> r;
  for (auto &[to, from] : t.map)
    r.push_back({from, (((from.first - to.first) * t.slots + from.second - to.second) % n + n) % n});
  return r;
}

PROP(C15, strategy_rounds, "at least 3 rounds, and a slot that moves to another ciphertext or to several targets", 150000, 1500000) {
  Task t = genTask(c);
  auto order = genOrder(c, t);
  c.desc << "order " << pbt::str(order) << "\n";
  bool dflt = std::is_sorted(order.begin(), order.end()) && c.chance(50);
  ShiftStrategy st(t.slots, t.cts, dflt ? ArrayRef<int64_t>() : ArrayRef<int64_t>(order));
  auto tr = tracks(t);
  size_t k = 0;
  for (auto &[to, from] : t.map)
    c.eq(st.getVirtualShift(CtSlot(from.first, from.second), CtSlot(to.first, to.second)), tr[k++].shift, "left shift from ", show(from), " to ", show(to));
  st.evaluate(t.mapping);
  auto rounds = st.getRounds();
  c.eq(rounds.size(), order.size() + 1, "number of rounds");
  auto pos = positions(t, tr, order);
  for (size_t r = 0; r < rounds.size(); ++r) {
    c.eq(rounds[r].rotationAmount, r ? order[r - 1] : int64_t(0), "rotation of round ", r);
    for (size_t i = 0; i < tr.size(); ++i) {
      auto it = rounds[r].positions.find(SourceShift{CtSlot(tr[i].source.first, tr[i].source.second), tr[i].shift});
      c.check(it != rounds[r].positions.end(), "round ", r, " does not know slot ", show(tr[i].source), " shifted by ", tr[i].shift);
      c.eq(it->second.ct * t.slots + it->second.slot, pos[r][i], "position of ", show(tr[i].source), " shifted by ", tr[i].shift, " after round ", r);
      c.check(it->second.slot >= 0 && it->second.slot < t.slots, "slot out of range");
    }
  }
  // Everything has arrived.
  size_t i = 0;
  for (auto &[to, from] : t.map) c.eq(pos.back()[i++], to.first * t.slots + to.second, "oracle");
  if (order.size() >= 3 && twoWay(t)) c.nontrivial(c.desc.str());
}

// Any conflict-free grouping of the sources gives a correct network.
PROP(C15, network_of_any_grouping, "at least 2 groups, and a slot that moves to another ciphertext or to several targets", 60000, 600000) {
  Task t = genTask(c);
  auto order = genOrder(c, t);
  c.desc << "order " << pbt::str(order) << "\n";
  auto tr = tracks(t);
  auto pos = positions(t, tr, order);
  std::map<Slot, std::set<Slot>> conflict;
  for (auto &row : pos) {
    std::map<int64_t, std::set<Slot>> here;
    for (size_t i = 0; i < tr.size(); ++i) here[row[i]].insert(tr[i].source);
    for (auto &[p, s] : here)
      for (auto &a : s)
        for (auto &b : s)
          if (a != b) conflict[a].insert(b);
  }
  std::vector<Slot> src;
  for (auto &x : tr) src.push_back(x.source);
  std::sort(src.begin(), src.end());
  src.erase(std::unique(src.begin(), src.end()), src.end());
  c.shuffle(src);
  std::vector<std::set<Slot>> groups;
  int split = c.chance(30) ? 25 : 0;
  for (auto &s : src) {
    size_t g = 0;
    for (; g < groups.size(); ++g) {
      bool ok = !c.chance(split);
      for (auto &x : groups[g]) ok &= !conflict[s].count(x);
      if (ok) break;
    }
    if (g == groups.size()) groups.push_back({});
    groups[g].insert(s);
  }
  SmallVector<RotationGroup> rg;
  for (auto &g : groups) {
    RotationGroup r;
    for (auto &s : g) r.insert(CtSlot(s.first, s.second));
    rg.push_back(r);
  }
  ShiftStrategy st(t.slots, t.cts, order);
  st.evaluate(t.mapping);
  checkNetwork(c, t, ShiftScheme(rg, st));
  if (groups.size() >= 2 && twoWay(t)) c.nontrivial(c.desc.str());
}

// The search: groups partition the sources without conflicts, and the network
// it describes is correct, also when one search object answers many queries.
PROP(C15, searched_networks, "several mappings were asked of one object, one with at least 2 groups", 25000, 300000) {
  VosVosErkinShiftNetworks search;
  int64_t queries = c.range(1, 4);
  std::vector<Task> tasks;
  bool multi = false;
  for (int64_t q = 0; q < queries; ++q) {
    if (!tasks.empty() && c.chance(30)) {
      Task t = c.pick(tasks);
      // The same slots in a container of another size.
      if (c.chance(50)) {
        t.cts += c.range(1, 2);
        t.mapping = Mapping(t.slots, t.cts);
        for (auto &[to, from] : t.map) t.mapping.add(CtSlot(from.first, from.second), CtSlot(to.first, to.second));
        c.desc << "previous mapping again, in " << t.cts << " ciphertexts\n";
      } else {
        c.desc << "previous mapping again: " << t.cts << "x" << t.slots << ", " << t.map.size() << " targets\n";
      }
      tasks.push_back(t);
    } else {
      tasks.push_back(genTask(c, 3));
    }
    Task &t = tasks.back();
    auto order = genOrder(c, t);
    int how = (int)c.weighted({3, 3, 2});
    ShiftScheme scheme;
    if (how == 2 && t.slots * t.cts > 1) {
      scheme = search.findBestShiftScheme(t.mapping, c.draw(1000), (unsigned)c.range(1, 5));
      c.desc << "best of several orders\n";
      auto rounds = scheme.strategy.getRounds();
      order.clear();
      for (size_t i = 1; i < rounds.size(); ++i) order.push_back(rounds[i].rotationAmount);
      auto sorted = order;
      std::sort(sorted.begin(), sorted.end());
      std::vector<int64_t> want;
      for (int64_t k = 1; k < t.slots * t.cts; k *= 2) want.push_back(k);
      c.check(sorted == want, "the rotations of the scheme are ", pbt::str(order));
    } else if (how == 1) {
      c.desc << "order " << pbt::str(order) << "\n";
      scheme = search.findShiftScheme(t.mapping, order);
    } else {
      order.clear();
      for (int64_t k = 1; k < t.slots * t.cts; k *= 2) order.push_back(k);
      scheme = search.findShiftScheme(t.mapping);
    }
    auto of = groupsOf(c, t, scheme.rotationGroups);
    auto tr = tracks(t);
    for (auto &row : positions(t, tr, order)) {
      std::map<int64_t, std::map<int, Slot>> here;
      for (size_t i = 0; i < tr.size(); ++i) {
        auto [it, fresh] = here[row[i]].emplace(of[tr[i].source], tr[i].source);
        c.check(fresh || it->second == tr[i].source, "slots ", show(it->second), " and ", show(tr[i].source), " collide although they share a rotation group");
      }
    }
    checkNetwork(c, t, scheme);
    multi |= scheme.rotationGroups.size() >= 2;
  }
  if (queries >= 2 && multi) c.nontrivial(c.desc.str());
}

// Of several sources offered for a target, the mapping keeps a closest one.
PROP(C15, mapping_choice, "a target was offered at least 3 sources", 100000, 1000000) {
  int64_t slots = 1ll << c.range(0, 5), cts = c.range(1, 4);
  Mapping m(slots, cts);
  std::map<Slot, std::vector<Slot>> offers;
  int64_t k = c.range(1, 30), targets = c.range(1, 6);
  std::vector<Slot> ts;
  for (int64_t i = 0; i < targets; ++i) ts.push_back({(int64_t)c.draw(cts), (int64_t)c.draw(slots)});
  for (int64_t i = 0; i < k; ++i) {
    Slot t = c.pick(ts), s{(int64_t)c.draw(cts), (int64_t)c.draw(slots)};
    offers[t].push_back(s);
    m.add(CtSlot(s.first, s.second), CtSlot(t.first, t.second));
    c.desc << show(t) << "<-" << show(s) << " ";
  }
  c.desc << "(" << cts << "x" << slots << ")";
  c.eq(m.size(), offers.size(), "targets");
  c.eq(m.getCiphertextSize(), slots, "slots");
  c.eq(m.getNumCiphertexts(), cts, "ciphertexts");
  auto dist = [&](Slot a, Slot b) { return std::llabs(a.first - b.first) * slots + std::llabs(a.second - b.second); };
  bool three = false;
  size_t seen = 0;
  for (auto &[to, from] : m.getTargetToSource()) {
    ++seen;
    Slot t{to.ct, to.slot}, s{from.ct, from.slot};
    auto it = offers.find(t);
    c.check(it != offers.end(), "unknown target ", show(t));
    bool known = false;
    int64_t best = INT64_MAX;
    for (auto &o : it->second) known |= o == s, best = std::min<int64_t>(best, dist(t, o));
    c.check(known, "source ", show(s), " was never offered for ", show(t));
    c.eq((int64_t)dist(t, s), best, "distance of the source kept for ", show(t));
    three |= it->second.size() >= 3;
  }
  c.eq(seen, offers.size(), "targets listed");
  if (three) c.nontrivial(c.desc.str());
}

PROP(C15, shift_order, "at least 5 slots", 2000, 20000) {
  int64_t n = c.chance(50) ? 1ll << c.range(0, 24) : c.range(1, 1 << 20);
  c.desc << n;
  std::vector<int64_t> want, got;
  for (int64_t k = 1; k < n; k *= 2) want.push_back(k);
  for (auto x : defaultShiftOrder(n)) got.push_back(x);
  c.eq(got, want, "default rotation order for ", n, " slots");
  if (n >= 5) c.nontrivial(c.desc.str());
}
