#include "pbt.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt {
namespace {

constexpr size_t kMaxChoices = 1 << 17;

struct Shm {
  std::atomic<uint64_t> case_no;
  std::atomic<uint64_t> n;
  std::atomic<uint64_t> done;
  char msg[16384];
  uint64_t choices[kMaxChoices];
};

uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t hash_str(std::string_view s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string json_str(std::string_view s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

}  // namespace

std::vector<Test>& tests() {
  static std::vector<Test> t;
  return t;
}
std::function<void()>& init_fn() {
  static std::function<void()> f;
  return f;
}
void fail(const char* file, int line, const std::string& msg) {
  std::string f = file;
  f = f.substr(f.rfind('/') + 1);
  throw Failure{f + ":" + std::to_string(line) + ": " + msg};
}

uint64_t Src::next() {
  rng_ += 0x9e3779b97f4a7c15ull;
  uint64_t z = rng_;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Src::draw(uint64_t max) {
  uint64_t v;
  if (replay_) {
    v = rec_.size() < replay_->size() ? (*replay_)[rec_.size()] : 0;
    if (v > max) v = max;
  } else if (max == std::numeric_limits<uint64_t>::max()) {
    v = next();
  } else {
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * (max + 1)) >> 64);
  }
  if (rec_.size() >= kMaxChoices) throw Discard{};
  rec_.push_back(v);
  if (shm_) {
    auto* m = static_cast<Shm*>(shm_);
    m->choices[rec_.size() - 1] = v;
    m->n.store(rec_.size(), std::memory_order_release);
  }
  return v;
}
size_t Src::size(size_t max) {
  if (max == 0) return 0;
  switch (draw(9)) {
    case 0: case 1: case 2: case 3: return draw(std::min<size_t>(max, 4));
    case 4: case 5: case 6: return draw(std::min<size_t>(max, 16));
    case 7: case 8: return draw(std::min<size_t>(max, 80));
    default: return draw(max);
  }
}
double Src::dbl() {
  switch (draw(6)) {
    case 0: return static_cast<double>(range(-4, 4));
    case 1: return static_cast<double>(range(-1000, 1000)) / 8.0;
    case 2: {
      const double e[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, -5e-324,
                          2.2250738585072014e-308, 1.7976931348623157e308,
                          -1.7976931348623157e308, 1e-300, 1e300, 0.5, -0.5,
                          std::nextafter(1.0, 2), std::nextafter(1.0, 0)};
      return e[draw(15)];
    }
    case 3: return std::ldexp(1.0 + draw(1000) / 1001.0, range(-60, 60)) * (boolean() ? -1 : 1);
    case 4: return std::ldexp(1.0 + draw(1000) / 1001.0, range(-1070, 1023)) * (boolean() ? -1 : 1);
    case 5: return (draw(2000000) / 1e6 - 1.0) * 50;
    default: {
      uint64_t b = bits64();
      double d;
      memcpy(&d, &b, 8);
      return d;
    }
  }
}
float Src::flt() {
  switch (draw(4)) {
    case 0: return static_cast<float>(range(-4, 4));
    case 1: {
      const float e[] = {0.0f, -0.0f, INFINITY, -INFINITY, NAN, 1e-45f, 3.4028235e38f,
                         -3.4028235e38f, 1.1754944e-38f, 0.5f, -0.5f};
      return e[draw(10)];
    }
    case 2: return static_cast<float>(range(-1000, 1000)) / 8.0f;
    case 3: return static_cast<float>((draw(2000000) / 1e6 - 1.0) * 50);
    default: {
      uint32_t b = static_cast<uint32_t>(draw(0xffffffffu));
      float d;
      memcpy(&d, &b, 4);
      return d;
    }
  }
}
double Src::nice_dbl() {
  if (chance(2, 3)) return static_cast<double>(range(-20, 20));
  return static_cast<double>(range(-2000, 2000)) / 16.0;
}
std::string Src::bytes(size_t max_len) {
  std::string r;
  size_t n = size(max_len);
  for (size_t i = 0; i < n; ++i) {
    r.push_back(static_cast<char>(chance(3, 4) ? range('a', 'e') : draw(255)));
  }
  return r;
}
std::string Src::ascii(size_t max_len) {
  std::string r;
  size_t n = size(max_len);
  for (size_t i = 0; i < n; ++i) {
    r.push_back(static_cast<char>(chance(1, 2) ? range('a', 'e') : range(32, 126)));
  }
  return r;
}
std::string Src::ident(size_t max_len) {
  std::string r;
  size_t n = 1 + size(max_len - 1);
  for (size_t i = 0; i < n; ++i) {
    const char* al = i ? "abcdefgxyz_0123" : "abcdefgxyz_";
    r.push_back(al[draw(strlen(al) - 1)]);
  }
  return r;
}
std::string Src::utf8(size_t max_len) {
  std::string r;
  size_t n = size(max_len);
  for (size_t i = 0; i < n; ++i) {
    uint32_t c;
    switch (draw(7)) {
      case 0: case 1: case 2: c = range('a', 'e'); break;
      case 3: c = range(0, 127); break;
      case 4: c = range(0x80, 0x7ff); break;
      case 5: c = range(0x800, 0xd7ff); break;
      case 6: c = range(0xe000, 0xffff); break;
      default: c = range(0x10000, 0x10ffff); break;
    }
    if (c < 0x80) r.push_back(c);
    else if (c < 0x800) { r.push_back(0xc0 | (c >> 6)); r.push_back(0x80 | (c & 63)); }
    else if (c < 0x10000) { r.push_back(0xe0 | (c >> 12)); r.push_back(0x80 | ((c >> 6) & 63)); r.push_back(0x80 | (c & 63)); }
    else { r.push_back(0xf0 | (c >> 18)); r.push_back(0x80 | ((c >> 12) & 63)); r.push_back(0x80 | ((c >> 6) & 63)); r.push_back(0x80 | (c & 63)); }
  }
  return r;
}

namespace {

enum Outcome { kPass = 0, kDiscard = 1, kFail = 2, kCrash = 3, kHang = 4 };

struct RunStats {
  int64_t evals = 0, discards = 0, nontrivial = 0, distinct = 0;
  std::map<std::string, int64_t> labels;
  std::vector<std::string> samples;
};

Shm* g_shm = nullptr;
double g_hang_s = 60;
int g_errfd = -1;  // where crash output of workers goes

void set_msg(const std::string& m) {
  size_t n = std::min(m.size(), sizeof(g_shm->msg) - 1);
  memcpy(g_shm->msg, m.data(), n);
  g_shm->msg[n] = 0;
}

// Runs one case in this process.
Outcome run_case(const Test& t, Src& s) {
  try {
    t.fn(s);
    return kPass;
  } catch (const Failure& f) {
    set_msg(f.msg);
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    set_msg(std::string("escaped exception: ") + e.what());
    return kFail;
  } catch (...) {
    set_msg("escaped unknown exception");
    return kFail;
  }
}

void child_setup() {
  // Keep crash output away from the check's own output, bounded.
  if (g_errfd >= 0) {
    dup2(g_errfd, 2);
    dup2(g_errfd, 1);
  }
  rlimit r{0, 0};
  setrlimit(RLIMIT_CORE, &r);
}

std::string slurp_err() {
  std::string out;
  if (g_errfd < 0) return out;
  off_t sz = lseek(g_errfd, 0, SEEK_END);
  out.resize(std::min<off_t>(sz, 6000));
  ssize_t n = pread(g_errfd, out.data(), out.size(), 0);
  out.resize(n > 0 ? n : 0);
  return out;
}
void reset_err() {
  if (g_errfd >= 0) {
    if (ftruncate(g_errfd, 0)) {}
    lseek(g_errfd, 0, SEEK_SET);
  }
}

// Waits for a child; kills it when a single case makes no progress.
// Returns exit status; *hang set if killed.
int wait_child(pid_t pid, bool* hang) {
  *hang = false;
  uint64_t last_case = ~0ull;
  double last_change = now();
  int us = 200;
  for (;;) {
    int st;
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    uint64_t c = g_shm->case_no.load();
    if (c != last_case) { last_case = c; last_change = now(); }
    if (now() - last_change > g_hang_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      *hang = true;
      return st;
    }
    usleep(us);
    if (us < 20000) us *= 2;
  }
}

// Executes one explicit choice sequence in a fork.
Outcome exec_choices(const Test& t, const std::vector<uint64_t>& ch,
                     std::vector<uint64_t>* used, std::string* msg,
                     std::string* notes = nullptr) {
  reset_err();
  g_shm->n = 0;
  g_shm->case_no = 0;
  g_shm->msg[0] = 0;
  int pfd[2];
  if (pipe(pfd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    child_setup();
    Src s(&ch);
    s.shm_ = g_shm;
    s.want_notes_ = true;
    Outcome o = run_case(t, s);
    std::string n = s.notes_;
    n.resize(std::min<size_t>(n.size(), 30000));
    if (write(pfd[1], n.data(), n.size()) < 0) {}
    _exit(40 + o);
  }
  close(pfd[1]);
  bool hang;
  int st = wait_child(pid, &hang);
  std::string nt;
  char buf[4096];
  ssize_t k;
  while ((k = read(pfd[0], buf, sizeof buf)) > 0) nt.append(buf, k);
  close(pfd[0]);
  if (notes) *notes = nt;
  if (used) used->assign(g_shm->choices, g_shm->choices + g_shm->n.load());
  if (hang) { *msg = "hang: the case did not finish"; return kHang; }
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 40 && WEXITSTATUS(st) <= 42) {
    *msg = g_shm->msg;
    return static_cast<Outcome>(WEXITSTATUS(st) - 40);
  }
  std::string e = slurp_err();
  *msg = cat("crash: ", WIFSIGNALED(st) ? "signal " : "exit ",
             WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), "\n", e);
  return kCrash;
}

bool is_bad(Outcome o) { return o == kFail || o == kCrash || o == kHang; }

bool shortlex_less(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> best, Outcome kind,
                             std::string* msg) {
  double t0 = now();
  int budget = 3000;
  double tmax = kind == kHang ? 0 : 40;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (budget-- <= 0 || now() - t0 > tmax) return false;
    std::vector<uint64_t> used;
    std::string m;
    Outcome o = exec_choices(t, c, &used, &m);
    if (!is_bad(o) || o == kHang) return false;
    if (used.size() > c.size()) used.resize(c.size());
    if (!shortlex_less(used, best)) return false;
    best = used;
    *msg = m;
    return true;
  };
  bool progress = true;
  while (progress && budget > 0 && now() - t0 < tmax) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) progress = true;
        else {
          // deletion with decrement of a preceding count
          bool ok = false;
          if (len <= 8 && i > 0) {
            for (size_t k = 1; k <= std::min<size_t>(i, 6) && !ok; ++k) {
              if (best[i - k] == 0) continue;
              auto d = best;
              d[i - k] -= 1;
              d.erase(d.begin() + i, d.begin() + i + len);
              if (attempt(d)) { ok = true; progress = true; }
            }
          }
          if (!ok) i += len;
        }
        if (budget <= 0 || now() - t0 > tmax) break;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && budget > 0; ++i) {
      if (best[i] == 0) continue;
      auto c = best;
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo + 1 < hi && budget > 0) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) { progress = true; hi = i < best.size() ? best[i] : 0; }
        else lo = mid;
      }
    }
  }
  return best;
}

const char* outcome_name(Outcome o) {
  const char* n[] = {"pass", "discard", "fail", "crash", "hang"};
  return n[o];
}

}  // namespace

// Modes:
//   --list
//   --only TEST --seed N --tier quick|thorough --shard K --shards N --out FILE --fail FILE
//   --replay-choices FILE --only TEST
int main_impl(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k == "--list") { a["list"] = "1"; continue; }
    if (k.rfind("--", 0) == 0 && i + 1 < argc) a[k.substr(2)] = argv[++i];
  }
  if (a.count("list")) {
    for (auto& t : tests())
      printf("%s\t%lld\t%lld\t%s\n", t.name, (long long)t.quick_cases,
             (long long)t.thorough_cases, t.rule);
    return 0;
  }
  const Test* t = nullptr;
  for (auto& x : tests())
    if (a["only"] == x.name) t = &x;
  if (!t) { fprintf(stderr, "no such test %s\n", a["only"].c_str()); return 3; }
  if (a.count("hang")) g_hang_s = atof(a["hang"].c_str());
  g_shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shm == MAP_FAILED) { perror("mmap"); return 3; }
  {
    g_errfd = memfd_create("pbt_err", MFD_CLOEXEC);
  }
  if (init_fn()) init_fn()();

  if (a.count("replay-choices")) {
    std::ifstream f(a["replay-choices"]);
    std::vector<uint64_t> ch;
    uint64_t v;
    while (f >> v) ch.push_back(v);
    std::string msg, notes;
    Outcome o = exec_choices(*t, ch, nullptr, &msg, &notes);
    printf("test: %s\noutcome: %s\n%s\n--- case ---\n%s", t->name, outcome_name(o),
           msg.c_str(), notes.c_str());
    return is_bad(o) ? 1 : 0;
  }

  uint64_t seed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
  bool thorough = a["tier"] == "thorough";
  int64_t shards = a.count("shards") ? atoll(a["shards"].c_str()) : 1;
  int64_t shard = a.count("shard") ? atoll(a["shard"].c_str()) : 0;
  int64_t total = thorough ? t->thorough_cases : t->quick_cases;
  if (a.count("cases")) total = atoll(a["cases"].c_str());
  double max_s = a.count("max-seconds") ? atof(a["max-seconds"].c_str()) : 1e9;
  uint64_t base = mix(mix(seed) ^ hash_str(t->name));
  int64_t lo = total * shard / shards, hi = total * (shard + 1) / shards;

  // Worker process: runs the cases [lo, hi).
  g_shm->case_no = lo;
  g_shm->done = 0;
  reset_err();
  int pfd[2];
  if (pipe(pfd)) return 3;
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    child_setup();
    RunStats st;
    std::unordered_set<uint64_t> seen;
    Outcome o = kPass;
    double t0 = now();
    int64_t i = lo;
    for (; i < hi; ++i) {
      if (now() - t0 > max_s) break;
      g_shm->n = 0;
      g_shm->case_no = i;
      Src s(mix(base ^ mix(i)));
      s.shm_ = g_shm;
      bool want = st.samples.size() < 4 && (i - lo) % 3 == 0;
      s.want_notes_ = want;
      o = run_case(*t, s);
      if (o == kFail) break;
      st.evals++;
      if (o == kDiscard) { st.discards++; continue; }
      for (auto& [k, v] : s.labels_) st.labels[k] += v;
      if (s.nontrivial_) {
        st.nontrivial++;
        uint64_t h = 7;
        for (uint64_t c : s.choices()) h = mix(h ^ c);
        seen.insert(h);
        if (want && !s.notes_.empty()) {
          std::string n = s.notes_;
          if (n.size() > 400) n = n.substr(0, 400) + "...";
          st.samples.push_back(n);
        }
      }
    }
    st.distinct = seen.size();
    std::ostringstream js;
    js << "{\"evals\":" << st.evals << ",\"discards\":" << st.discards
       << ",\"planned\":" << (hi - lo) << ",\"nontrivial\":" << st.nontrivial
       << ",\"distinct\":" << st.distinct << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : st.labels) {
      if (!first) js << ",";
      first = false;
      js << json_str(k) << ":" << v;
    }
    js << "},\"samples\":[";
    first = true;
    for (auto& x : st.samples) {
      if (!first) js << ",";
      first = false;
      js << json_str(x);
    }
    js << "]}";
    std::string out = js.str();
    size_t off = 0;
    while (off < out.size()) {
      ssize_t k = write(pfd[1], out.data() + off, out.size() - off);
      if (k <= 0) break;
      off += k;
    }
    _exit(o == kFail ? 42 : 40);
  }
  close(pfd[1]);
  // Drain the pipe in a helper to avoid deadlocks on big outputs.
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  std::string js;
  int status = 0;
  bool hang = false;
  {
    uint64_t last_case = ~0ull;
    double last_change = now();
    int us = 200;
    for (;;) {
      char buf[65536];
      ssize_t k;
      while ((k = read(pfd[0], buf, sizeof buf)) > 0) js.append(buf, k);
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) {
        while ((k = read(pfd[0], buf, sizeof buf)) > 0) js.append(buf, k);
        break;
      }
      uint64_t c = g_shm->case_no.load();
      if (c != last_case) { last_case = c; last_change = now(); }
      if (now() - last_change > g_hang_s) {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        hang = true;
        break;
      }
      usleep(us);
      if (us < 20000) us *= 2;
    }
  }
  if (a.count("out")) {
    std::ofstream(a["out"]) << (js.empty() ? "{}" : js);
  }
  if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 40) return 0;

  // A failing case: reproduce, shrink, save.
  std::vector<uint64_t> ch(g_shm->choices, g_shm->choices + g_shm->n.load());
  uint64_t bad_case = g_shm->case_no;
  std::string first_msg = WIFEXITED(status) && WEXITSTATUS(status) == 42
                              ? std::string(g_shm->msg)
                              : (hang ? std::string("hang") : slurp_err());
  std::string msg, notes;
  Outcome o = exec_choices(*t, ch, nullptr, &msg);
  if (!is_bad(o)) {
    // Retry: the failure may depend on thread scheduling.
    for (int i = 0; i < 20 && !is_bad(o); ++i) o = exec_choices(*t, ch, nullptr, &msg);
  }
  if (!is_bad(o)) {
    fprintf(stderr, "UNREPRODUCED %s case %llu: %s\n", t->name,
            (unsigned long long)bad_case, first_msg.c_str());
    return 4;
  }
  ch = shrink(*t, ch, o, &msg);
  int confirmed = 0;
  std::string m2;
  for (int i = 0; i < 3; ++i) {
    Outcome o2 = exec_choices(*t, ch, nullptr, &m2, &notes);
    if (is_bad(o2)) { confirmed++; msg = m2; o = o2; }
  }
  std::ostringstream of;
  of << "{\"test\":" << json_str(t->name) << ",\"outcome\":" << json_str(outcome_name(o))
     << ",\"confirmed\":" << confirmed << ",\"case\":" << bad_case
     << ",\"message\":" << json_str(msg) << ",\"notes\":" << json_str(notes)
     << ",\"choices\":[";
  for (size_t i = 0; i < ch.size(); ++i) of << (i ? "," : "") << ch[i];
  of << "]}";
  if (a.count("fail")) std::ofstream(a["fail"]) << of.str();
  fprintf(stderr, "FAILURE %s: %s\n%s\n", t->name, msg.c_str(), notes.c_str());
  return 1;
}

}  // namespace pbt

int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
