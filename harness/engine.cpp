#include "engine.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// With the ASAN runtime, count every allocation of the process.
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *)) __attribute__((weak));

extern "C" const char *__asan_default_options() {
  // malloc fill: reading a heap value that was never written gives the same
  // garbage in every run instead of whatever the allocator left there.
  return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_segv=1:"
         "malloc_fill_byte=190:max_malloc_fill_size=65536:"
         "hard_rss_limit_mb=3500:max_allocation_size_mb=1500:"
         "detect_stack_use_after_return=0:alloc_dealloc_mismatch=1";
}
extern "C" const char *__ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1:exitcode=77";
}

namespace pbt {

static volatile long g_live = 0;
static void on_malloc(const volatile void *, size_t) { g_live = g_live + 1; }
static void on_free(const volatile void *p) {
  if (p) g_live = g_live - 1;
}
long live_blocks() { return g_live; }
void install_alloc_hooks() {
  if (__sanitizer_install_malloc_and_free_hooks)
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}

int LogBuf::mirror_fd = -1;
int LogBuf::overflow(int ch) {
  char c = (char)ch;
  s += c;
  if (mirror_fd >= 0 && s.size() < (1 << 20)) (void)!write(mirror_fd, &c, 1);
  return ch;
}
std::streamsize LogBuf::xsputn(const char *p, std::streamsize n) {
  s.append(p, (size_t)n);
  if (mirror_fd >= 0 && s.size() < (1 << 20)) (void)!write(mirror_fd, p, (size_t)n);
  return n;
}

// ----------------------------------------------------------------
static uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  h ^= h >> 29;
  return h;
}
static uint64_t case_seed(
    uint64_t seed, const std::string &prop, const std::string &rule, uint64_t i) {
  uint64_t h = fnv(prop + "/" + rule);
  h ^= seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
  h = (h ^ (h >> 31)) * 0xbf58476d1ce4e5b9ULL;
  h ^= (i + 1) * 0xd6e8feb86659fd93ULL;
  h = (h ^ (h >> 29)) * 0x94d049bb133111ebULL;
  return h ^ (h >> 32);
}

static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += (char)c;
  }
  return o;
}

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ----------------------------------------------------------------
enum Kind { PASS = 0, FAIL = 1, CRASH = 2, HANG = 3 };
static const char *kind_name[] = {"pass", "fail", "crash", "hang"};

struct Outcome {
  Kind kind = PASS;
  std::string msg;
  std::string log;
};

struct Slot { // shared with a worker
  volatile uint64_t cur;       // case being run
  volatile uint64_t evaluated;
  volatile uint64_t discarded;
  volatile uint64_t compared;
};

static const int CPU_LIMIT_S = 20;
static int g_cpu_limit = CPU_LIMIT_S;

static void arm(int s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string current_exception_text() {
  try {
    throw;
  } catch (const std::exception &e) {
    return std::string("unexpected exception: ") + e.what();
  } catch (const std::string &s) {
    return "unexpected exception: " + s;
  } catch (const char *s) {
    return std::string("unexpected exception: ") + s;
  } catch (...) {
    return "unexpected exception of unknown type";
  }
}

// Runs one case.  Returns PASS or FAIL; discards are PASS with *discarded.
static Outcome run_case(const Rule &r, Gen &g, Ctx &c, bool *discarded) {
  Outcome o;
  try {
    r.run(g, c);
  } catch (const Discard &) {
    if (discarded) *discarded = true;
  } catch (const Fail &f) {
    o.kind = FAIL;
    o.msg = f.msg;
  } catch (...) {
    o.kind = FAIL;
    o.msg = current_exception_text();
  }
  return o;
}

// For rules that track leaks: net heap blocks left behind by one execution.
static long leak_of(const Rule &r, const std::vector<uint64_t> &choices) {
  LogBuf::mirror_fd = -1;
  long before = live_blocks();
  {
    Gen g(&choices);
    Ctx c;
    run_case(r, g, c, nullptr);
  }
  return live_blocks() - before;
}

static Outcome run_full(const Rule &r, Gen &g, Ctx &c, bool *discarded) {
  arm(g_cpu_limit);
  Outcome o = run_case(r, g, c, discarded);
  if (o.kind == PASS && r.track_leaks && !(discarded && *discarded)) {
    std::vector<uint64_t> ch = g.recorded();
    long a = leak_of(r, ch); // the first repetition may still warm caches up
    if (a > 0) {
      long b = leak_of(r, ch), d = leak_of(r, ch);
      if (b > 0 && d > 0) {
        o.kind = FAIL;
        o.msg = "each execution leaves " + std::to_string(d) +
                " heap block(s) allocated after every value is destroyed";
      }
    }
  }
  return o;
}

static std::string read_file(const std::string &p, size_t tail = 0) {
  std::ifstream f(p, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  if (tail && s.size() > tail) s = s.substr(s.size() - tail);
  return s;
}

static void quiet_child(const std::string &errpath) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int n = open("/dev/null", O_RDWR);
  dup2(n, 0);
  dup2(n, 1);
  int e = open(errpath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(e, 2);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 64u << 20;
  setrlimit(RLIMIT_FSIZE, &rl);
}

static std::string sanitizer_summary(const std::string &err) {
  std::string out;
  std::istringstream is(err);
  std::string l;
  int frames = 0;
  while (std::getline(is, l)) {
    if (l.find("ERROR:") != std::string::npos ||
        l.find("runtime error:") != std::string::npos ||
        l.find("SUMMARY:") != std::string::npos ||
        l.find("terminate called") != std::string::npos ||
        (l.find("/spffl/") != std::string::npos && l.find("#") != std::string::npos &&
            frames++ < 4)) {
      out += l.substr(0, 220) + "\n";
      if (out.size() > 1500) break;
    }
  }
  return out;
}

static Kind classify_status(int st) {
  if (WIFSIGNALED(st))
    return WTERMSIG(st) == SIGPROF ? HANG : CRASH;
  int rc = WEXITSTATUS(st);
  if (rc == 0) return PASS;
  if (rc == 3) return FAIL;
  return CRASH;
}

static std::string g_tmp;

// Runs explicit cases [choices] in a fresh child.
static Outcome run_isolated(const std::function<Outcome(Ctx &)> &body, int cpu) {
  static int n = 0;
  std::string base = g_tmp + "/iso" + std::to_string(n++);
  pid_t pid = fork();
  if (pid == 0) {
    quiet_child(base + ".err");
    g_cpu_limit = cpu;
    arm(cpu);
    LogBuf::mirror_fd = open((base + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    Ctx c;
    Outcome o = body(c);
    std::ofstream(base + ".msg") << o.msg;
    _exit(o.kind == PASS ? 0 : 3);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Outcome o;
  o.kind = classify_status(st);
  o.msg = read_file(base + ".msg");
  o.log = read_file(base + ".log");
  if (o.kind == CRASH) {
    std::string e = read_file(base + ".err");
    o.msg = sanitizer_summary(e);
    if (WIFSIGNALED(st))
      o.msg += "killed by signal " + std::to_string(WTERMSIG(st));
    if (o.msg.empty()) o.msg = "exit " + std::to_string(WEXITSTATUS(st)) + ": " + e.substr(0, 400);
  } else if (o.kind == HANG) {
    o.msg = "did not terminate within " + std::to_string(cpu) +
            " s of CPU time (cases of this rule take milliseconds)";
  }
  for (const char *x : {".msg", ".log", ".err"}) unlink((base + x).c_str());
  return o;
}

static Outcome run_choices(const Rule &r, const std::vector<uint64_t> &ch, int cpu) {
  return run_isolated(
      [&](Ctx &c) {
        Gen g(&ch);
        return run_full(r, g, c, nullptr);
      },
      cpu);
}

static Outcome run_prefix(const Property &p, const Rule &r, uint64_t seed,
    uint64_t lo, uint64_t hi, int cpu) {
  return run_isolated(
      [&](Ctx &c) {
        Outcome o;
        int fd = LogBuf::mirror_fd;
        for (uint64_t i = lo; i <= hi; i++) {
          LogBuf::mirror_fd = i == hi ? fd : -1;
          Gen g(case_seed(seed, p.id, r.name, i));
          Ctx c1;
          o = run_full(r, g, i == hi ? c : c1, nullptr);
          if (o.kind != PASS) break;
        }
        return o;
      },
      cpu);
}

// The choices a random case makes (recorded in a child, in case it crashes).
static std::vector<uint64_t> record_choices(
    const Property &p, const Rule &r, uint64_t seed, uint64_t i) {
  // The generator records into shared memory as it goes.
  struct Rec {
    volatile uint64_t n;
    uint64_t v[1 << 20];
  };
  Rec *m = (Rec *)mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  m->n = 0;
  static Rec *s_m;
  s_m = m;
  pid_t pid = fork();
  if (pid == 0) {
    quiet_child(g_tmp + "/rec.err");
    arm(CPU_LIMIT_S);
    g_choice_hook = [](uint64_t v) {
      if (s_m->n < (1 << 20)) {
        s_m->v[s_m->n] = v;
        s_m->n = s_m->n + 1;
      }
    };
    Gen g(case_seed(seed, p.id, r.name, i));
    Ctx c;
    run_case(r, g, c, nullptr);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  std::vector<uint64_t> out(m->v, m->v + m->n);
  munmap(m, sizeof(Rec));
  return out;
}
void (*g_choice_hook)(uint64_t) = nullptr;

static std::vector<uint64_t> shrink(
    const Rule &r, std::vector<uint64_t> best, Kind kind) {
  int cpu = kind == HANG ? 3 : CPU_LIMIT_S;
  double deadline = now() + (kind == HANG ? 60 : 45);
  int attempts = 0, max_attempts = kind == HANG ? 15 : 1500;
  auto still = [&](const std::vector<uint64_t> &c) {
    if (attempts >= max_attempts || now() > deadline) return false;
    attempts++;
    return run_choices(r, c, cpu).kind == kind;
  };
  bool progress = true;
  while (progress && attempts < max_attempts && now() < deadline) {
    progress = false;
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
      for (size_t i = best.size() >= len ? best.size() - len : 0;; i -= len) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + std::min(i + len, c.size()));
        if (c.size() < best.size() && still(c)) {
          best = c;
          progress = true;
        } else {
          bool nz = false;
          c = best;
          for (size_t k = i; k < std::min(i + len, c.size()); k++) {
            nz |= c[k] != 0;
            c[k] = 0;
          }
          if (nz && still(c)) {
            best = c;
            progress = true;
          }
        }
        if (i < len) break;
        if (i - len >= best.size()) i = best.size() + len; // after erasures
        if (attempts >= max_attempts || now() > deadline) break;
      }
      if (attempts >= max_attempts || now() > deadline) break;
    }
    for (size_t i = 0; i < best.size(); i++) {
      uint64_t lo = 0;
      while (best[i] > lo) {
        std::vector<uint64_t> c(best);
        c[i] = lo + (best[i] - lo) / 2;
        if (c[i] == best[i]) break;
        if (still(c)) {
          best = c;
          progress = true;
        } else lo = c[i] + 1;
        if (attempts >= max_attempts || now() > deadline) break;
      }
    }
  }
  while (!best.empty() && best.back() == 0) best.pop_back();
  return best;
}

// ----------------------------------------------------------------
struct Shard {
  size_t rule;
  uint64_t lo, hi; // cases [lo, hi)
};
struct Running {
  Shard sh;
  Slot *slot;
  std::string base;
};
struct Found {
  size_t rule;
  uint64_t lo, idx;
  Kind kind;
  std::string msg;
};

static void worker(const Property &p, const Shard &sh, Slot *slot,
    const std::string &base, uint64_t seed) {
  quiet_child(base + ".err");
  const Rule &r = p.rules[sh.rule];
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  int rc = 0;
  for (uint64_t i = sh.lo; i < sh.hi; i++) {
    slot->cur = i;
    Gen g(case_seed(seed, p.id, r.name, i));
    Ctx c;
    bool disc = false;
    Outcome o = run_full(r, g, c, &disc);
    slot->compared = slot->compared + c.compared;
    if (o.kind == FAIL) {
      std::ofstream(base + ".msg") << o.msg;
      rc = 3;
      break;
    }
    if (disc) {
      slot->discarded = slot->discarded + 1;
      continue;
    }
    slot->evaluated = slot->evaluated + 1;
    for (auto &l : c.labels) labels[l]++;
    if (c.nontrivial) {
      std::string s = c.log.str();
      hashes.insert(fnv(s));
      if (samples.size() < 2 && sh.lo == 0 && i > 2) samples.push_back(s.substr(0, 500));
    }
  }
  arm(0);
  std::ofstream f(base + ".out", std::ios::binary);
  uint64_t n = hashes.size();
  f.write((char *)&n, 8);
  for (uint64_t h : hashes) f.write((const char *)&h, 8);
  n = labels.size();
  f.write((char *)&n, 8);
  for (auto &l : labels) {
    uint64_t k = l.first.size(), v = l.second;
    f.write((char *)&k, 8);
    f.write(l.first.data(), k);
    f.write((char *)&v, 8);
  }
  n = samples.size();
  f.write((char *)&n, 8);
  for (auto &s : samples) {
    uint64_t k = s.size();
    f.write((char *)&k, 8);
    f.write(s.data(), k);
  }
  f.close();
  _exit(rc);
}

static bool rd(std::ifstream &f, uint64_t &v) {
  return (bool)f.read((char *)&v, 8);
}
static std::string rds(std::ifstream &f) {
  uint64_t k = 0;
  rd(f, k);
  std::string s(k, 0);
  f.read(&s[0], k);
  return s;
}

static std::string verif_dir() {
  const char *v = getenv("VERIF_DIR");
  return v ? v : "/verif";
}

static void write_replay(const std::string &path, const Property &p,
    const Rule &r, const Found &fd, uint64_t seed, bool prefix,
    const std::vector<uint64_t> &ch, const Outcome &o) {
  std::ofstream f(path);
  f << "property " << p.id << "\nrule " << r.name << "\n";
  if (prefix)
    f << "prefix " << seed << " " << fd.lo << " " << fd.idx << "\n";
  else {
    f << "choices";
    for (uint64_t c : ch) f << " " << c;
    f << "\n";
  }
  f << "# found with seed " << seed << " case " << fd.idx << "\n";
  f << "# kind " << kind_name[o.kind] << "\n";
  std::istringstream a(o.msg), b(o.log);
  std::string l;
  while (std::getline(a, l)) f << "# what: " << l << "\n";
  while (std::getline(b, l)) f << "# case: " << l << "\n";
  f << "# rerun: bash /verif/check.sh " << p.id << " quick --replay <this file>\n";
}

static int do_replay(const Property &p, const std::string &path) {
  std::ifstream f(path);
  std::string l, rule;
  std::vector<uint64_t> ch;
  bool prefix = false;
  uint64_t seed = 0, lo = 0, idx = 0;
  while (std::getline(f, l)) {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "rule") std::getline(is >> std::ws, rule);
    else if (k == "choices") {
      uint64_t v;
      while (is >> v) ch.push_back(v);
    } else if (k == "prefix") {
      prefix = true;
      is >> seed >> lo >> idx;
    }
  }
  for (auto &r : p.rules)
    if (r.name == rule) {
      Outcome o = prefix ? run_prefix(p, r, seed, lo, idx, CPU_LIMIT_S)
                         : run_choices(r, ch, CPU_LIMIT_S);
      std::cout << "rule " << rule << ": " << kind_name[o.kind] << "\n"
                << o.msg << "\n" << o.log << std::endl;
      if (o.kind != PASS) {
        std::cout << "VIOLATION property=" << p.id << " replay=" << path << std::endl;
        return 1;
      }
      return 0;
    }
  std::cerr << "no rule " << rule << std::endl;
  return 2;
}

std::vector<Property> *collect_properties = nullptr;

int engine_main(int argc, char **argv, Property &p) {
  if (collect_properties) {
    collect_properties->push_back(p);
    return 0;
  }
  double t0 = now();
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
  std::string only, replay, show;
  double scale = 1.0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--rule") only = val();
    else if (a == "--replay") replay = val();
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--show") show = val();
  }
  if (tier != "thorough") tier = "quick";
  install_alloc_hooks();
  char tmpl[] = "/tmp/verif-pbt-XXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 2;
  }
  g_tmp = tmpl;
  setenv("VERIF_TMP", tmpl, 1);
  auto cleanup = [&]() {
    DIR *d = opendir(g_tmp.c_str());
    if (d) {
      while (dirent *e = readdir(d))
        if (e->d_name[0] != '.') unlink((g_tmp + "/" + e->d_name).c_str());
      closedir(d);
    }
    rmdir(g_tmp.c_str());
  };
  if (!replay.empty()) {
    int rc = do_replay(p, replay);
    cleanup();
    return rc;
  }
  if (!show.empty()) { // print some generated cases (development aid)
    for (auto &r : p.rules)
      if (r.name == show)
        for (uint64_t i = 0; i < 20; i++) {
          Gen g(case_seed(seed, p.id, r.name, i));
          Ctx c;
          bool d = false;
          Outcome o = run_case(r, g, c, &d);
          std::cout << "--- " << i << (d ? " DISCARD" : "") << (c.nontrivial ? " nontrivial" : "")
                    << " " << kind_name[o.kind] << " " << o.msg << "\n" << c.log.str() << std::endl;
        }
    cleanup();
    return 0;
  }

  // ---- known findings: pinned inputs, not part of the search
  std::set<std::string> known;
  {
    std::ifstream f(verif_dir() + "/known_findings.txt");
    std::string l;
    while (std::getline(f, l)) {
      std::string pre = "known: property=" + p.id + " id=";
      if (l.compare(0, pre.size(), pre) == 0) {
        std::istringstream is(l.substr(pre.size()));
        std::string id;
        is >> id;
        known.insert(id);
      }
    }
  }
  std::vector<std::string> known_lines;
  int violations = 0;
  std::string violation_path;
  for (auto &pin : p.pinned) {
    Outcome o = run_isolated(
        [&](Ctx &c) {
          Outcome q;
          try {
            pin.run(c);
          } catch (const Fail &f) {
            q.kind = FAIL;
            q.msg = f.msg;
          } catch (const Discard &) {
          } catch (...) {
            q.kind = FAIL;
            q.msg = current_exception_text();
          }
          return q;
        },
        CPU_LIMIT_S);
    if (o.kind == PASS) {
      std::cout << "note: pinned case " << pin.id << " passes" << std::endl;
    } else if (known.count(pin.id)) {
      std::string l = "KNOWN-FINDING: property=" + p.id + " " + pin.id + ": " + pin.what;
      std::cout << l << std::endl;
      known_lines.push_back(l);
    } else {
      violations++;
      violation_path = verif_dir() + "/replays/" + p.id + "-" + pin.id + ".txt";
      std::ofstream f(violation_path);
      f << "property " << p.id << "\npinned " << pin.id << "\n# " << pin.what << "\n# "
        << o.msg << "\n";
      std::cout << pin.what << ": " << o.msg << std::endl;
    }
  }

  // ---- search
  int nproc = 8;
  if (getenv("VERIF_JOBS")) nproc = atoi(getenv("VERIF_JOBS"));
  std::vector<Shard> shards;
  uint64_t total = 0;
  {
    std::vector<std::vector<Shard>> per;
    for (size_t k = 0; k < p.rules.size(); k++) {
      if (!only.empty() && p.rules[k].name != only) continue;
      uint64_t n = tier == "quick" ? p.rules[k].quick_cases : p.rules[k].thorough_cases;
      n = (uint64_t)(n * scale);
      if (n == 0) n = 1;
      total += n;
      uint64_t pieces = tier == "quick" ? 6 : 24;
      uint64_t sz = std::max<uint64_t>(1, (n + pieces - 1) / pieces);
      std::vector<Shard> v;
      for (uint64_t lo = 0; lo < n; lo += sz) v.push_back({k, lo, std::min(lo + sz, n)});
      per.push_back(v);
    }
    for (size_t i = 0;; i++) { // interleave rules
      bool any = false;
      for (auto &v : per)
        if (i < v.size()) {
          shards.push_back(v[i]);
          any = true;
        }
      if (!any) break;
    }
  }
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (shards.size() + 1),
      PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<pid_t, Running> running;
  std::vector<Found> found;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, std::map<std::string, uint64_t>> labels;
  std::map<std::string, std::map<std::string, uint64_t>> per_rule;
  std::vector<std::string> samples;
  uint64_t evaluated = 0, discarded = 0, compared = 0;
  std::map<size_t, double> rule_time;
  size_t next = 0;
  std::cout.flush();
  while (next < shards.size() || !running.empty()) {
    while (found.empty() && next < shards.size() && (int)running.size() < nproc) {
      Slot *sl = &slots[next];
      Running rn{shards[next], sl, g_tmp + "/s" + std::to_string(next)};
      pid_t pid = fork();
      if (pid < 0) {
        perror("fork");
        cleanup();
        return 2;
      }
      if (pid == 0) {
        worker(p, rn.sh, rn.slot, rn.base, seed);
        _exit(9);
      }
      running[pid] = rn;
      next++;
    }
    if (running.empty()) break;
    int st = 0;
    struct rusage ru;
    pid_t pid = wait4(-1, &st, 0, &ru);
    auto it = running.find(pid);
    if (it == running.end()) continue;
    Running rn = it->second;
    running.erase(it);
    const Rule &r = p.rules[rn.sh.rule];
    rule_time[rn.sh.rule] += ru.ru_utime.tv_sec + ru.ru_stime.tv_sec +
                             1e-6 * (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec);
    evaluated += rn.slot->evaluated;
    discarded += rn.slot->discarded;
    compared += rn.slot->compared;
    per_rule[r.name]["evaluated"] += rn.slot->evaluated;
    per_rule[r.name]["discarded"] += rn.slot->discarded;
    Kind k = classify_status(st);
    if (k == PASS || k == FAIL) {
      std::ifstream f(rn.base + ".out", std::ios::binary);
      uint64_t n = 0, h = 0, v = 0;
      rd(f, n);
      for (uint64_t i = 0; i < n && rd(f, h); i++)
        if (hashes.insert(fnv(r.name, h)).second) per_rule[r.name]["distinct_nontrivial"]++;
      n = 0;
      rd(f, n);
      for (uint64_t i = 0; i < n; i++) {
        std::string l = rds(f);
        rd(f, v);
        labels[r.name][l] += v;
      }
      n = 0;
      rd(f, n);
      for (uint64_t i = 0; i < n; i++) samples.push_back(r.name + ": " + rds(f));
    }
    if (k != PASS) {
      std::string m = k == FAIL ? read_file(rn.base + ".msg")
                                : sanitizer_summary(read_file(rn.base + ".err"));
      found.push_back({rn.sh.rule, rn.sh.lo, rn.slot->cur, k, m});
    }
    for (const char *x : {".out", ".msg", ".err"}) unlink((rn.base + x).c_str());
  }

  // A time limit met once and not again is the machine's load, not the code's.
  auto slow = [](const Found &f) {
    return f.kind == HANG || f.msg.find("ended by signal 27") != std::string::npos ||
           f.msg.find("ended by signal 14") != std::string::npos;
  };
  bool inconclusive = false;
  if (!found.empty()) {
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) {
      return a.kind != b.kind ? a.kind < b.kind
                              : a.rule != b.rule ? a.rule < b.rule : a.idx < b.idx;
    });
    bool confirmed = false, unexplained = false;
    for (size_t fi = 0; fi < found.size() && fi < 3 && !confirmed; fi++) {
      Found fd = found[fi];
      const Rule &r = p.rules[fd.rule];
      std::cout << "rule " << r.name << " case " << fd.idx << " " << kind_name[fd.kind]
                << ": " << fd.msg << std::endl;
      std::vector<uint64_t> ch = record_choices(p, r, seed, fd.idx);
      bool prefix = false;
      Outcome o = run_choices(r, ch, CPU_LIMIT_S);
      if (o.kind == PASS) {
        prefix = true;
        o = run_prefix(p, r, seed, fd.lo, fd.idx, CPU_LIMIT_S);
        if (o.kind == PASS) {
          std::cout << "not reproducible in a fresh process" << std::endl;
          unexplained = unexplained || !slow(fd);
          continue;
        }
      } else {
        ch = shrink(r, ch, o.kind);
      }
      int again = 0;
      for (int t = 0; t < 3; t++) {
        o = prefix ? run_prefix(p, r, seed, fd.lo, fd.idx, CPU_LIMIT_S)
                   : run_choices(r, ch, CPU_LIMIT_S);
        if (o.kind != PASS) again++;
        else break;
      }
      if (again == 3) {
        confirmed = true;
        violations++;
        mkdir((verif_dir() + "/replays").c_str(), 0777);
        std::string file = p.id + "-" + r.name + "-" + std::to_string(seed) + ".txt";
        std::replace(file.begin(), file.end(), ' ', '-');
        violation_path = verif_dir() + "/replays/" + file;
        write_replay(violation_path, p, r, fd, seed, prefix, ch, o);
        std::cout << "shrunk (" << ch.size() << " choices): " << o.msg << "\n"
                  << o.log << std::endl;
      } else {
        std::cout << "replayed only " << again << " of 3 times" << std::endl;
        unexplained = unexplained || !slow(fd);
      }
    }
    inconclusive = !confirmed && unexplained;
  }

  // ---- evidence
  double wall = now() - t0;
  mkdir((verif_dir() + "/evidence").c_str(), 0777);
  {
    std::ofstream f(verif_dir() + "/evidence/" + p.id + ".json");
    f << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << tier
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n"
      << " \"coverage\": {\n  \"evaluations\": " << evaluated
      << ",\n  \"distinct_nontrivial\": " << hashes.size()
      << ",\n  \"oracle_comparisons\": " << compared
      << ",\n  \"discarded\": " << discarded << ",\n  \"rule\": \"" << esc(p.rule_text)
      << "\",\n  \"per_rule\": {";
    bool first = true;
    for (auto &x : per_rule) {
      f << (first ? "" : ",") << "\n   \"" << esc(x.first) << "\": {";
      first = false;
      bool f2 = true;
      for (auto &y : x.second) {
        f << (f2 ? "" : ", ") << "\"" << y.first << "\": " << y.second;
        f2 = false;
      }
      if (labels.count(x.first)) {
        f << ", \"classes\": {";
        bool f3 = true;
        for (auto &l : labels[x.first]) {
          f << (f3 ? "" : ", ") << "\"" << esc(l.first) << "\": " << l.second;
          f3 = false;
        }
        f << "}";
      }
      f << "}";
    }
    f << "\n  },\n  \"known_findings_reproduced\": [";
    for (size_t i = 0; i < known_lines.size(); i++)
      f << (i ? ", " : "") << "\"" << esc(known_lines[i]) << "\"";
    f << "],\n  \"samples\": [";
    for (size_t i = 0; i < samples.size() && i < 40; i++)
      f << (i ? "," : "") << "\n   \"" << esc(samples[i]) << "\"";
    f << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); i++)
      f << (i ? ", " : "") << "\"" << esc(p.assumptions[i]) << "\"";
    f << "],\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  std::cout << p.id << " " << tier << " seed=" << seed << ": " << evaluated
            << " cases, " << hashes.size() << " distinct non-trivial, " << compared
            << " comparisons, " << discarded << " discarded, " << wall << " s" << std::endl;
  if (getenv("VERIF_TIMES"))
    for (auto &x : rule_time)
      std::cout << "  " << p.rules[x.first].name << " cpu " << x.second << " ev "
                << per_rule[p.rules[x.first].name]["evaluated"] << " nt "
                << per_rule[p.rules[x.first].name]["distinct_nontrivial"] << " disc "
                << per_rule[p.rules[x.first].name]["discarded"] << std::endl;
  cleanup();
  if (violations) {
    std::cout << "VIOLATION property=" << p.id << " replay=" << violation_path << std::endl;
    return 1;
  }
  if (inconclusive) {
    std::cout << "a failure was seen that does not reproduce: no verdict" << std::endl;
    return 2;
  }
  return 0;
}

} // namespace pbt
