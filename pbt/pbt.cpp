#include "pbt.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <unordered_set>

namespace pbt {

std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hashStr(const std::string &s) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (unsigned char ch : s) h = (h ^ ch) * 0x100000001b3ull;
  return mix(h);
}

uint64_t Case::next() {
  state_ += 0x9e3779b97f4a7c15ull;
  return mix(state_);
}
uint64_t Case::draw(uint64_t n) {
  if (n == 0) n = 1;
  uint64_t v;
  if (replay_) {
    v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
    pos_++;
    if (v >= n) v = n - 1;
  } else {
    v = (unsigned __int128)next() * n >> 64;
  }
  rec.push_back(v);
  return v;
}
int64_t Case::range(int64_t lo, int64_t hi) {
  if (hi <= lo) {
    draw(1);
    return lo;
  }
  uint64_t span = (uint64_t)hi - (uint64_t)lo;
  if (span == ~0ull) return (int64_t)((uint64_t)lo + draw(~0ull));
  return (int64_t)((uint64_t)lo + draw(span + 1));
}
bool Case::chance(unsigned num, unsigned den) {
  // draw < num means false region is the low one, so that 0 shrinks to false
  return draw(den) >= den - num;
}
size_t Case::weighted(const std::vector<unsigned> &w) {
  uint64_t tot = 0;
  for (unsigned x : w) tot += x;
  uint64_t d = draw(tot);
  for (size_t i = 0; i < w.size(); ++i) {
    if (d < w[i]) return i;
    d -= w[i];
  }
  return 0;
}
int64_t Case::sized(int64_t lo, int64_t hi) {
  if (hi <= lo) return range(lo, lo);
  // Draw an upper bound first: small sizes get more weight.
  int64_t cap = range(lo, hi);
  return range(lo, cap);
}
uint64_t Case::bits(unsigned maxBits) {
  uint64_t b = draw(maxBits + 1);
  if (b == 0) return draw(1);
  uint64_t m = b >= 64 ? ~0ull : ((1ull << b) - 1);
  return draw(m == ~0ull ? m : m + 1);
}
int64_t Case::sint(int64_t m) {
  uint64_t d = draw(2 * (uint64_t)m + 1);
  return (d & 1) ? -(int64_t)((d + 1) / 2) : (int64_t)(d / 2);
}
double Case::real(double lo, double hi) {
  switch (draw(3)) {
    case 0: {  // integers
      int64_t a = (int64_t)lo, b = (int64_t)hi;
      return std::min(hi, std::max(lo, (double)range(a, b)));
    }
    case 1: {  // 1/16ths
      return lo + (hi - lo) * (double)draw(17) / 16.0;
    }
    default:
      return lo + (hi - lo) * ((double)draw(1ull << 53) / 9007199254740992.0);
  }
}
void Case::nontrivial(const std::string &key) {
  nontrivial_ = true;
  if (!key.empty()) key_ = hashStr(key);
}

// ---------------------------------------------------------------------------
// Driver

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch == '\t') {
      o += "\\t";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

enum Kind { PASS, DISCARD, FAIL, CRASH, HANG };
struct Outcome {
  Kind kind = PASS;
  std::string msg, desc;
  std::vector<uint64_t> rec;
  std::vector<std::string> labels;
  bool nontrivial = false;
  uint64_t key = 0;
};

static bool gThorough = false;

static Outcome runInProcess(const Prop &p, Case &c) {
  Outcome o;
  c.thorough = gThorough;
  try {
    p.fn(c);
  } catch (Failure &f) {
    o.kind = FAIL;
    o.msg = f.msg;
  } catch (Discarded &) {
    o.kind = DISCARD;
  } catch (std::exception &e) {
    o.kind = FAIL;
    o.msg = std::string("exception escaped: ") + e.what();
  }
  o.rec = std::move(c.rec);
  o.labels = std::move(c.labels_);
  o.nontrivial = c.nontrivial_;
  o.key = c.key_;
  if (!o.key) {
    uint64_t h = 1;
    for (uint64_t v : o.rec) h = mix(h ^ v);
    o.key = h;
  }
  o.desc = c.desc.str();
  return o;
}

static const int kHangExit = 99;
static void onProf(int) { _exit(kHangExit); }
static void armHang(unsigned secs) {
  signal(SIGPROF, onProf);
  struct itimerval it = {};
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void limitMem() {
  struct rlimit r;
  r.rlim_cur = r.rlim_max = 6ull << 30;
  setrlimit(RLIMIT_AS, &r);
  r.rlim_cur = r.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &r);
}

// Runs one case in a forked child.
static void w64(std::string &b, uint64_t v) { b.append((char *)&v, 8); }
static void wstr(std::string &b, const std::string &s) {
  w64(b, s.size());
  b += s;
}
// A crashing child still says what it was working on.
static Case *gCrashCase;
static int gCrashFd = -1;
static void onCrash(int sig) {
  signal(sig, SIG_DFL);
  if (gCrashCase && gCrashFd >= 0) {
    std::string d = gCrashCase->desc.str();
    if (d.size() > 6000) d.resize(6000);
    if (write(gCrashFd, d.data(), d.size())) {}
  }
  raise(sig);
}
static Outcome runForked(const Prop &p, const std::vector<uint64_t> &choices) {
  int fd[2], ed[2];
  if (pipe(fd) || pipe(ed)) _exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    close(ed[0]);
    dup2(ed[1], 2);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    limitMem();
    armHang(p.hangSecs);
    Case c;
    c.replayFrom(&choices);
    gCrashCase = &c;
    gCrashFd = fd[1];
    for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sg, onCrash);
    Outcome o = runInProcess(p, c);
    gCrashCase = nullptr;
    std::string b;
    w64(b, o.kind);
    wstr(b, o.msg);
    wstr(b, o.desc);
    w64(b, o.rec.size());
    for (uint64_t v : o.rec) w64(b, v);
    size_t off = 0;
    while (off < b.size()) {
      ssize_t k = write(fd[1], b.data() + off, b.size() - off);
      if (k <= 0) break;
      off += k;
    }
    _exit(0);
  }
  close(fd[1]);
  close(ed[1]);
  std::string out, err;
  struct pollfd pf[2] = {{fd[0], POLLIN, 0}, {ed[0], POLLIN, 0}};
  int open_ = 2;
  char buf[65536];
  while (open_ > 0) {
    poll(pf, 2, -1);
    for (int i = 0; i < 2; ++i) {
      if (pf[i].fd < 0 || !pf[i].revents) continue;
      ssize_t k = read(pf[i].fd, buf, sizeof buf);
      if (k <= 0) {
        close(pf[i].fd);
        pf[i].fd = -1;
        open_--;
      } else {
        std::string &d = i ? err : out;
        if (d.size() < (64u << 20)) d.append(buf, k);
      }
    }
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.size() >= 8) {
    size_t off = 0;
    auto r64 = [&]() {
      uint64_t v = 0;
      if (off + 8 <= out.size()) memcpy(&v, out.data() + off, 8);
      off += 8;
      return v;
    };
    auto rs = [&]() {
      uint64_t n = r64();
      std::string s = off + n <= out.size() ? out.substr(off, n) : "";
      off += n;
      return s;
    };
    o.kind = (Kind)r64();
    o.msg = rs();
    o.desc = rs();
    uint64_t n = r64();
    for (uint64_t i = 0; i < n && off + 8 <= out.size(); ++i)
      o.rec.push_back(r64());
    return o;
  }
  o.rec = choices;
  if (WIFEXITED(st) && WEXITSTATUS(st) == kHangExit) {
    o.kind = HANG;
    o.msg = "no result within " + std::to_string(p.hangSecs) + " CPU seconds";
  } else {
    o.kind = CRASH;
    o.desc = out;
    o.msg = WIFSIGNALED(st)
                ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                : "exited with " + std::to_string(WEXITSTATUS(st));
    if (err.size() > 1500) err = err.substr(0, 900) + " ... " + err.substr(err.size() - 500);
    o.msg += ": " + err;
  }
  return o;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> cur,
                                    Kind kind, double maxSecs, int &attempts) {
  double end = now() + maxSecs;
  auto tryIt = [&](std::vector<uint64_t> cand) {
    if (now() > end) return false;
    attempts++;
    Outcome o = runForked(p, cand);
    if (o.kind != kind) return false;
    if (o.kind == FAIL && o.rec.size() < cand.size()) cand.resize(o.rec.size());
    if (cand == cur) return false;
    cur = cand;
    return true;
  };
  if (kind == HANG) return cur;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete blocks
    for (size_t k : {64, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = cur.size(); i-- > 0 && now() < end;) {
        if (i + k > cur.size()) continue;
        std::vector<uint64_t> cand(cur);
        cand.erase(cand.begin() + i, cand.begin() + i + k);
        if (tryIt(cand)) progress = true;
      }
    }
    // zero blocks
    for (size_t k : {16, 4, 1}) {
      for (size_t i = 0; i < cur.size() && now() < end; i += k) {
        std::vector<uint64_t> cand(cur);
        bool any = false;
        for (size_t j = i; j < std::min(i + k, cand.size()); ++j) {
          any |= cand[j] != 0;
          cand[j] = 0;
        }
        if (any && tryIt(cand)) progress = true;
      }
    }
    // minimise single values
    for (size_t i = 0; i < cur.size() && now() < end; ++i) {
      if (i >= cur.size() || cur[i] == 0) continue;
      uint64_t lo = 0, hi = cur[i];
      while (lo + 1 < hi && now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> cand(cur);
        if (i >= cand.size()) break;
        cand[i] = mid;
        if (tryIt(cand)) {
          progress = true;
          if (i >= cur.size()) break;
          hi = cur[i];
        } else {
          lo = mid;
        }
      }
      if (i < cur.size() && cur[i] > 0) {
        std::vector<uint64_t> cand(cur);
        cand[i]--;
        if (tryIt(cand)) progress = true;
      }
    }
    // decrement a value together with deleting one later choice
    for (size_t i = 0; i < cur.size() && now() < end; ++i) {
      if (cur[i] == 0 || cur[i] > 64) continue;
      for (size_t j = i + 1; j < std::min(cur.size(), i + 24) && now() < end; ++j) {
        std::vector<uint64_t> cand(cur);
        cand[i]--;
        cand.erase(cand.begin() + j);
        if (tryIt(cand)) {
          progress = true;
          break;
        }
      }
    }
  }
  return cur;
}

struct Shared {
  volatile uint64_t prop, idx;
  volatile double since;
};

struct Stats {
  uint64_t cases = 0, discarded = 0, excluded = 0, nontrivial = 0;
  std::unordered_set<uint64_t> keys;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  double secs = 0;
};
struct Found {
  uint64_t prop, idx;
  Kind kind;
  std::string msg;
};

static uint64_t caseSeed(uint64_t seed, const Prop &p, uint64_t i) {
  return mix(mix(seed * 0x9e3779b97f4a7c15ull + 1) ^ hashStr(p.pid + "/" + p.name) ^ mix(i + 77));
}

static int runMain(const std::string &pid, uint64_t seed, double scale,
                   unsigned workers, double budget, const std::string &outPath,
                   const std::string &onlyName) {
  std::vector<size_t> sel;
  for (size_t i = 0; i < props().size(); ++i)
    if (props()[i].pid == pid && (onlyName.empty() || props()[i].name == onlyName))
      sel.push_back(i);
  if (sel.empty()) {
    fprintf(stderr, "no property %s\n", pid.c_str());
    return 2;
  }
  double start = now();
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto count = [&](const Prop &p) {
    return std::max<uint64_t>(1, (uint64_t)((gThorough ? p.thorough : p.quick) * scale));
  };
  struct W {
    pid_t pid;
    int fd;
    std::string buf;
    std::string errFile;
    uint64_t fromProp = 0, fromIdx;
    int spawns = 0;
  };
  std::vector<W> ws(workers);
  auto spawn = [&](unsigned w) {
    int fd[2];
    if (pipe(fd)) exit(2);
    fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
    ws[w].errFile = outPath + ".err." + std::to_string(w);
    ws[w].spawns++;
    fflush(stdout);
    pid_t pidc = fork();
    if (pidc == 0) {
      close(fd[0]);
      for (unsigned v = 0; v < workers; ++v)
        if (v != w && ws[v].fd > 0) close(ws[v].fd);
      int e = open(ws[w].errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(e, 2);
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      limitMem();
      FILE *f = fdopen(fd[1], "w");
      for (uint64_t pi = ws[w].fromProp; pi < sel.size(); ++pi) {
        const Prop &p = props()[sel[pi]];
        uint64_t N = count(p);
        uint64_t i0 = pi == ws[w].fromProp ? ws[w].fromIdx : w;
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> seen;
        uint64_t cases = 0, disc = 0, nont = 0;
        double t0 = now();
        auto flush = [&]() {
          fprintf(f, "S %llu %llu %llu %llu %.6f\n", (unsigned long long)pi,
                  (unsigned long long)cases, (unsigned long long)disc,
                  (unsigned long long)nont, now() - t0);
          for (auto &[l, k] : labels)
            fprintf(f, "L %llu %llu %s\n", (unsigned long long)pi, (unsigned long long)k, l.c_str());
          fflush(f);
          cases = disc = nont = 0;
          labels.clear();
          t0 = now();
        };
        unsigned samples = 0;
        for (uint64_t i = i0; i < N; i += workers) {
          if (now() - start > budget) break;
          sh[w].prop = pi;
          sh[w].idx = i;
          sh[w].since = now();
          armHang(p.hangSecs);
          Case c;
          c.seedWith(caseSeed(seed, p, i));
          Outcome o = runInProcess(p, c);
          cases++;
          if (o.kind == DISCARD) {
            disc++;
            continue;
          }
          for (auto &l : o.labels) labels[l]++;
          if (o.kind == FAIL) {
            flush();
            std::string m = o.msg;
            for (char &ch : m)
              if (ch == '\n') ch = ' ';
            fprintf(f, "F %llu %llu %s\n", (unsigned long long)pi, (unsigned long long)i, m.c_str());
            fflush(f);
            break;  // next property
          }
          if (o.nontrivial) {
            nont++;
            if (seen.insert(o.key).second)
              fprintf(f, "K %llu %llx\n", (unsigned long long)pi, (unsigned long long)o.key);
            if (samples < 1 && !o.desc.empty() && (w < 3)) {
              samples++;
              std::string d = o.desc;
              if (d.size() > 1200) d = d.substr(0, 1200) + "...";
              for (char &ch : d)
                if (ch == '\n') ch = '\x1f';
              fprintf(f, "E %llu %s\n", (unsigned long long)pi, d.c_str());
            }
          }
          if (cases % 256 == 0) flush();
        }
        flush();
      }
      fprintf(f, "D\n");
      fflush(f);
      _exit(0);
    }
    close(fd[1]);
    ws[w].pid = pidc;
    ws[w].fd = fd[0];
  };
  for (unsigned w = 0; w < workers; ++w) {
    ws[w].fd = -1;
    ws[w].fromIdx = w;
  }
  for (unsigned w = 0; w < workers; ++w) spawn(w);
  std::vector<Stats> st(sel.size());
  std::vector<Found> found;
  bool timedOut = false;
  unsigned live = workers;
  std::vector<bool> done(workers, false);
  while (live) {
    std::vector<struct pollfd> pf;
    std::vector<unsigned> idx;
    for (unsigned w = 0; w < workers; ++w)
      if (ws[w].fd >= 0) {
        pf.push_back({ws[w].fd, POLLIN, 0});
        idx.push_back(w);
      }
    poll(pf.data(), pf.size(), 1000);
    for (size_t q = 0; q < pf.size(); ++q) {
      unsigned w = idx[q];
      if (!pf[q].revents) continue;
      char buf[65536];
      ssize_t k = read(ws[w].fd, buf, sizeof buf);
      if (k > 0) {
        ws[w].buf.append(buf, k);
        size_t nl;
        size_t pos = 0;
        while ((nl = ws[w].buf.find('\n', pos)) != std::string::npos) {
          std::string line = ws[w].buf.substr(pos, nl - pos);
          pos = nl + 1;
          unsigned long long a = 0, b = 0, d = 0, e = 0;
          double s = 0;
          int off = 0;
          if (line[0] == 'S') {
            sscanf(line.c_str(), "S %llu %llu %llu %llu %lf", &a, &b, &d, &e, &s);
            st[a].cases += b;
            st[a].discarded += d;
            st[a].nontrivial += e;
            st[a].secs += s;
          } else if (line[0] == 'L') {
            sscanf(line.c_str(), "L %llu %llu %n", &a, &b, &off);
            st[a].labels[line.substr(off)] += b;
          } else if (line[0] == 'K') {
            sscanf(line.c_str(), "K %llu %llx", &a, &b);
            st[a].keys.insert(b);
          } else if (line[0] == 'E') {
            sscanf(line.c_str(), "E %llu %n", &a, &off);
            std::string d2 = line.substr(off);
            for (char &ch : d2)
              if (ch == '\x1f') ch = '\n';
            st[a].samples.push_back(d2);
          } else if (line[0] == 'F') {
            sscanf(line.c_str(), "F %llu %llu %n", &a, &b, &off);
            found.push_back({a, b, FAIL, line.substr(off)});
          } else if (line[0] == 'D') {
            done[w] = true;
          }
        }
        ws[w].buf.erase(0, pos);
        continue;
      }
      close(ws[w].fd);
      ws[w].fd = -1;
      int stt = 0;
      waitpid(ws[w].pid, &stt, 0);
      if (done[w]) {
        live--;
        continue;
      }
      Kind kd = WIFEXITED(stt) && WEXITSTATUS(stt) == kHangExit ? HANG : CRASH;
      uint64_t pi = sh[w].prop, ii = sh[w].idx;
      st[pi].cases++;
      found.push_back({pi, ii, kd, kd == HANG ? "hang" : "crash"});
      // go on with the next property
      ws[w].fromProp = pi + 1;
      ws[w].fromIdx = w;
      ws[w].buf.clear();
      if (ws[w].fromProp < sel.size() && ws[w].spawns < 40)
        spawn(w);
      else
        live--;
    }
  }
  timedOut = now() - start > budget;
  for (unsigned w = 0; w < workers; ++w) unlink(ws[w].errFile.c_str());
  // The first failure of each property: confirm three times, shrink.
  std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) {
    return std::tie(a.prop, a.idx) < std::tie(b.prop, b.idx);
  });
  std::string fails, unconf;
  std::set<uint64_t> reported;
  for (Found &f : found) {
    if (reported.count(f.prop)) continue;
    const Prop &p = props()[sel[f.prop]];
    // Recover the choice sequence: for a plain failure by running the case in
    // a fork that returns it, for a crash by recording choices up to the crash.
    std::vector<uint64_t> choices;
    {
      // Choices are regenerated in a fork writing them through a shared map.
      size_t cap = 1 << 22;
      uint64_t *m = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pc = fork();
      if (pc == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        limitMem();
        armHang(p.hangSecs);
        Case c;
        c.seedWith(caseSeed(seed, p, f.idx));
        // draw() appends to c.rec; dump it on every exit path, signals included
        static Case *gc;
        static uint64_t *gm;
        static size_t gcap;
        gc = &c;
        gm = m;
        gcap = cap;
        static auto dump = []() {
          size_t n = std::min(gcap - 1, gc->rec.size());
          for (size_t i = 0; i < n; ++i) gm[i + 1] = gc->rec[i];
          gm[0] = n;
        };
        auto h = [](int) {
          dump();
          _exit(1);
        };
        for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP}) signal(s, h);
        c.thorough = gThorough;
        try {
          p.fn(c);
        } catch (...) {
        }
        dump();
        _exit(0);
      }
      int s2;
      waitpid(pc, &s2, 0);
      choices.assign(m + 1, m + 1 + m[0]);
      munmap(m, cap * 8);
    }
    int ok = 0;
    Outcome o;
    for (int r = 0; r < 3; ++r) {
      o = runForked(p, choices);
      if (o.kind >= FAIL) ok++;
    }
    if (ok < 3) {
      unconf += std::string(unconf.empty() ? "" : ",") + jstr(p.name + " case " + std::to_string(f.idx) + " failed " + std::to_string(ok) + "/3 replays: " + f.msg);
      continue;
    }
    reported.insert(f.prop);
    int attempts = 0;
    std::vector<uint64_t> small = shrink(p, choices, o.kind, gThorough ? 60 : 30, attempts);
    Outcome s = runForked(p, small);
    if (s.kind < FAIL) {
      small = choices;
      s = o;
    }
    if (!fails.empty()) fails += ",";
    fails += "{\"name\":" + jstr(p.name) + ",\"case\":" + std::to_string(f.idx) +
             ",\"kind\":" + jstr(s.kind == FAIL ? "fail" : s.kind == HANG ? "hang" : "crash") +
             ",\"msg\":" + jstr(s.msg) + ",\"desc\":" + jstr(s.desc) +
             ",\"shrink_attempts\":" + std::to_string(attempts) + ",\"choices\":[";
    for (size_t i = 0; i < small.size(); ++i) fails += (i ? "," : "") + std::to_string(small[i]);
    fails += "]}";
  }
  std::ofstream out(outPath);
  out << "{\"pid\":" << jstr(pid) << ",\"seed\":" << seed << ",\"timed_out\":" << (timedOut ? "true" : "false")
      << ",\"wall_s\":" << now() - start << ",\"failures\":[" << fails << "],\"unconfirmed\":[" << unconf
      << "],\"props\":[";
  for (size_t i = 0; i < sel.size(); ++i) {
    const Prop &p = props()[sel[i]];
    out << (i ? "," : "") << "{\"name\":" << jstr(p.name) << ",\"rule\":" << jstr(p.rule)
        << ",\"planned\":" << count(p) << ",\"cases\":" << st[i].cases
        << ",\"discarded\":" << st[i].discarded << ",\"nontrivial\":" << st[i].nontrivial
        << ",\"distinct_nontrivial\":" << st[i].keys.size() << ",\"cpu_s\":" << st[i].secs << ",\"labels\":{";
    bool first = true;
    for (auto &[l, k] : st[i].labels) {
      out << (first ? "" : ",") << jstr(l) << ":" << k;
      first = false;
    }
    out << "},\"samples\":[";
    for (size_t k = 0; k < st[i].samples.size() && k < 2; ++k)
      out << (k ? "," : "") << jstr(st[i].samples[k]);
    out << "]}";
  }
  out << "]}\n";
  return 0;
}

}  // namespace pbt

int main(int argc, char **argv) {
  using namespace pbt;
  std::string pid, out = "/dev/stdout", replay, only;
  uint64_t seed = 1;
  double scale = 1, budget = 1e9;
  unsigned workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--pid") pid = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--only") only = val();
    else if (a == "--thorough") gThorough = true;
    else if (a == "--replay") replay = val();
    else if (a == "--list") {
      for (auto &p : props()) printf("%s %s %llu %llu\n", p.pid.c_str(), p.name.c_str(), (unsigned long long)p.quick, (unsigned long long)p.thorough);
      return 0;
    }
  }
  if (!replay.empty()) {
    // file: first line "<name>", then choices separated by blanks
    std::ifstream in(replay);
    std::string name;
    std::getline(in, name);
    std::vector<uint64_t> ch;
    uint64_t v;
    while (in >> v) ch.push_back(v);
    for (auto &p : props())
      if (p.name == name && (pid.empty() || p.pid == pid)) {
        Outcome o = runForked(p, ch);
        const char *k[] = {"pass", "discard", "fail", "crash", "hang"};
        printf("%s\n%s\n%s\n", k[o.kind], o.msg.c_str(), o.desc.c_str());
        return o.kind >= FAIL ? 1 : 0;
      }
    fprintf(stderr, "no property %s\n", name.c_str());
    return 2;
  }
  return runMain(pid, seed, scale, workers, budget, out, only);
}
