// Driver: seeded search over plans, determinism gate, minimisation, replay.
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>

#include <opencv2/core.hpp>

#include "checks.hpp"
#include "exec.hpp"
#include "seam.hpp"
#include "twin.hpp"

static double real_now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

std::vector<std::string> split(const std::string & s, char c)
{
  std::vector<std::string> o;
  size_t i = 0;
  for (;;) {
    size_t j = s.find(c, i);
    if (j == std::string::npos) {o.push_back(s.substr(i)); break;}
    o.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return o;
}

void wipe_dir(const std::string & dir)
{
  // only ever below a scratch directory this program created
  if (dir.find("/ekfsim-") == std::string::npos) {return;}
  DIR * d = opendir(dir.c_str());
  if (!d) {return;}
  while (dirent * e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") {continue;}
    std::string f = dir + "/" + n;
    struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {wipe_dir(f); rmdir(f.c_str());} else {unlink(f.c_str());}
  }
  closedir(d);
}

std::map<std::string, std::string> read_logs(const std::string & dir)
{
  std::map<std::string, std::string> m;
  DIR * d = opendir(dir.c_str());
  if (!d) {return m;}
  while (dirent * e = readdir(d)) {
    std::string n = e->d_name;
    struct stat st;
    if (n == "." || n == ".." || lstat((dir + n).c_str(), &st) != 0 || !S_ISREG(st.st_mode)) {continue;}
    std::ifstream in(dir + n, std::ios::binary);
    std::ostringstream s;
    s << in.rdbuf();
    m[n] = s.str();
  }
  closedir(d);
  return m;
}

volatile int * g_progress = nullptr;

static void put_str(std::string & o, const std::string & s)
{
  uint32_t n = static_cast<uint32_t>(s.size());
  o.append(reinterpret_cast<char *>(&n), 4); o += s;
}

static std::string ser(const RunOut & r)
{
  std::string o;
  o.push_back(r.viol ? 1 : 0);
  put_str(o, r.what); put_str(o, r.cls);
  o.append(reinterpret_cast<const char *>(&r.op), 4);
  o.append(reinterpret_cast<const char *>(&r.hash), 8);
  uint32_t n = static_cast<uint32_t>(r.cnt.size());
  o.append(reinterpret_cast<char *>(&n), 4);
  for (auto & e : r.cnt) {put_str(o, e.first); o.append(reinterpret_cast<const char *>(&e.second), 8);}
  n = static_cast<uint32_t>(r.states.size());
  o.append(reinterpret_cast<char *>(&n), 4);
  for (auto s : r.states) {o.append(reinterpret_cast<char *>(&s), 8);}
  o += "DONE";
  return o;
}

static bool deser(const std::string & s, RunOut & r)
{
  size_t i = 0;
  if (s.size() < 30 || s.substr(s.size() - 4) != "DONE") {return false;}
  auto str = [&]() {
      uint32_t n; std::memcpy(&n, &s[i], 4); i += 4;
      std::string o = s.substr(i, n); i += n; return o;
    };
  r.viol = s[i++] != 0;
  r.what = str(); r.cls = str();
  std::memcpy(&r.op, &s[i], 4); i += 4;
  std::memcpy(&r.hash, &s[i], 8); i += 8;
  uint32_t n; std::memcpy(&n, &s[i], 4); i += 4;
  for (uint32_t k = 0; k < n; ++k) {std::string e = str(); double v; std::memcpy(&v, &s[i], 8); i += 8; r.cnt[e] = v;}
  std::memcpy(&n, &s[i], 4); i += 4;
  for (uint32_t k = 0; k < n; ++k) {uint64_t v; std::memcpy(&v, &s[i], 8); i += 8; r.states.insert(v);}
  return true;
}

// Run `fn` in a forked child; collect what it writes.  Returns the wait status.
int in_child(const std::function<std::string()> & fn, std::string & out, int cpu_s)
{
  int fd[2];
  if (pipe(fd) != 0) {std::perror("pipe"); std::exit(3);}
  std::fflush(stdout); std::fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {std::perror("fork"); std::exit(3);}
  if (pid == 0) {
    ::close(fd[0]);
    if (!std::getenv("SIM_VERBOSE")) {
      int nul = ::open("/dev/null", O_WRONLY);
      dup2(nul, 1); dup2(nul, 2);
    }
    rlimit rl{static_cast<rlim_t>(cpu_s), static_cast<rlim_t>(cpu_s + 5)};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit rc{0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    rlimit ra{static_cast<rlim_t>(3) << 30, static_cast<rlim_t>(3) << 30};     // a run that eats memory ends itself, not the machine
    setrlimit(RLIMIT_AS, &ra);
    std::string o = fn();
    size_t i = 0;
    while (i < o.size()) {
      ssize_t n = ::write(fd[1], o.data() + i, o.size() - i);
      if (n <= 0) {break;}
      i += static_cast<size_t>(n);
    }
    _exit(0);
  }
  ::close(fd[1]);
  char b[65536];
  for (;;) {
    ssize_t n = ::read(fd[0], b, sizeof b);
    if (n <= 0) {break;}
    out.append(b, static_cast<size_t>(n));
  }
  ::close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  return st;
}

static RunOut fork_run(const Plan & p, const std::string & scratch)
{
  std::string dir = scratch + "/run/";
  wipe_dir(scratch + "/run");
  mkdir(dir.c_str(), 0700);
  *g_progress = -1;
  std::string o;
  int st = in_child(
    [&]() {
      mallopt(M_PERTURB, 1 + static_cast<int>(p.seed % 254));      // the same contents of fresh memory every time
      seam::clock_init(1600000000000000000LL, 1000, 0, 1);
      seam::disk_init(dir);
      RunOut r = run_plan(p, dir);
      return ser(r);
    }, o, 60);
  RunOut r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && deser(o, r)) {return r;}
  r = RunOut();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {std::fprintf(stderr, "harness error in child\n"); std::exit(3);}
  r.viol = true; r.cls = "abort"; r.op = *g_progress;
  if (WIFSIGNALED(st)) {
    r.what = WTERMSIG(st) == SIGXCPU ? "the run did not finish (60 s of processor time)" :
      "the process was ended by signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
    if (WTERMSIG(st) == SIGKILL) {std::fprintf(stderr, "child killed\n"); std::exit(3);}
  } else {
    r.what = "the process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  int k = *g_progress;
  if (k >= 0 && k < static_cast<int>(p.ops.size())) {
    r.what += fmt(" during op %d (%c)", k, p.ops[static_cast<size_t>(k)].k);
  }
  mix_str(r.hash, r.what);
  return r;
}

static bool same(const RunOut & a, const RunOut & b)
{
  return a.viol == b.viol && a.cls == b.cls && a.op == b.op && a.what == b.what && a.hash == b.hash;
}

static Plan minimise(const Plan & p0, const std::string & cls, const std::string & scratch, double budget, int & tried)
{
  Plan best = p0;
  double end = real_now() + budget;
  auto bad = [&](const Plan & q) {++tried; RunOut r = fork_run(q, scratch); return r.viol && r.cls == cls;};
  // cut the tail first
  {
    RunOut r = fork_run(best, scratch);
    if (r.viol && r.op >= 0 && r.op + 1 < static_cast<int>(best.ops.size())) {
      Plan q = best;
      q.ops.resize(static_cast<size_t>(r.op + 1));
      if (bad(q)) {best = q;}
    }
  }
  size_t chunk = std::max<size_t>(1, best.ops.size() / 2);
  while (real_now() < end) {
    bool any = false;
    for (size_t i = 0; i < best.ops.size() && real_now() < end;) {
      Plan q = best;
      size_t e = std::min(best.ops.size(), i + chunk);
      q.ops.erase(q.ops.begin() + static_cast<long>(i), q.ops.begin() + static_cast<long>(e));
      if (bad(q)) {best = q; any = true;} else {i += chunk;}
    }
    if (chunk == 1 && !any) {break;}
    if (!any || chunk > 1) {chunk = std::max<size_t>(1, chunk / 2);}
  }
  return best;
}

static std::string esc(const std::string & s)
{
  std::string o;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {o += '\\'; o += ch;} else if (static_cast<unsigned char>(ch) < 32) {o += ' ';} else {o += ch;}
  }
  return o;
}

static uint64_t run_seed(uint64_t base, const std::string & prop, uint64_t i)
{
  uint64_t h = 1469598103934665603ull;
  mix(h, base); mix_str(h, prop); mix(h, i);
  return h >> 1;
}

std::string g_self, g_sim_bin, g_repo;

// Memory that was in use before would keep what it held, pointers included: no cache of freed blocks (they would
// not be filled with the pattern of M_PERTURB), and, if the system allows it, the same addresses every time.
static void settle_memory(char ** argv)
{
  const char * want = "glibc.malloc.tcache_count=0";
  const char * have = std::getenv("GLIBC_TUNABLES");
  if (have && std::strstr(have, want)) {return;}
  std::string v = have && *have ? std::string(have) + ":" + want : want;
  setenv("GLIBC_TUNABLES", v.c_str(), 1);
  int was = personality(0xffffffff);
  if (was != -1) {personality(static_cast<unsigned long>(was) | ADDR_NO_RANDOMIZE);}
  execv("/proc/self/exe", argv);
}

int main(int argc, char ** argv)
{
  settle_memory(argv);
  cv::setNumThreads(1);
  g_progress = static_cast<int *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<std::string> a(argv + 1, argv + argc);
  g_self = argv[0];
  if (const char * e = std::getenv("SIM_BIN")) {g_sim_bin = e;}
  g_repo = std::getenv("SIM_REPO") ? std::getenv("SIM_REPO") : "/repo";
  if (a.size() >= 3 && a[0] == "gen") {
    std::cout << write_plan(generate(a[1], std::strtoull(a[2].c_str(), nullptr, 10), false));
    return 0;
  }
  if (a.size() >= 5 && a[0] == "trace") {return trace_main(a);}
  if (a.size() >= 5 && a[0] == "appmain") {return app_main(a);}
  if (a.size() >= 3 && a[0] == "replay") {
    Plan p;
    std::ifstream in(a[1]);
    if (!read_plan(in, p)) {std::cerr << "cannot read plan\n"; return 3;}
    RunOut r = fork_run(p, a[2]);
    std::printf("viol=%d\ncls=%s\nop=%d\nhash=%llu\nwhat=%s\n", r.viol, r.cls.c_str(), r.op,
      static_cast<unsigned long long>(r.hash), r.what.c_str());
    if (std::getenv("SIM_COUNTS")) {for (auto & e : r.cnt) {std::printf("  %s=%g\n", e.first.c_str(), e.second);}}
    return r.viol ? 1 : 0;
  }
  if (a.size() >= 3 && a[0] == "one") {       // one <prop> <seed> <scratch>
    Plan p = generate(a[1], std::strtoull(a[2].c_str(), nullptr, 10), false);
    RunOut r = fork_run(p, a[3]);
    std::printf("viol=%d\ncls=%s\nop=%d\nhash=%llu\nwhat=%s\n", r.viol, r.cls.c_str(), r.op,
      static_cast<unsigned long long>(r.hash), r.what.c_str());
    for (auto & e : r.cnt) {std::printf("  %s=%g\n", e.first.c_str(), e.second);}
    return r.viol;
  }
  if (a.size() >= 9 && a[0] == "search") {
    // search prop tier seed worker workers budget maxruns scratch out [known-class ...]
    std::string prop = a[1];
    bool thorough = a[2] == "thorough";
    uint64_t base = std::strtoull(a[3].c_str(), nullptr, 10);
    uint64_t worker = std::strtoull(a[4].c_str(), nullptr, 10), workers = std::strtoull(a[5].c_str(), nullptr, 10);
    double budget = std::atof(a[6].c_str());
    uint64_t maxruns = std::strtoull(a[7].c_str(), nullptr, 10);
    std::string scratch = a[8], outf = a[9];
    std::set<std::string> known(a.begin() + 10, a.end());
    double t0 = real_now(), end = t0 + budget;
    uint64_t runs = 0, det = 0, nondet = 0;
    double simt = 0;
    std::map<std::string, double> cnt;
    std::set<uint64_t> states, hashes;
    std::vector<std::string> samples, knownhits;
    std::string viol;
    for (uint64_t i = worker; runs < maxruns && real_now() < end; i += workers) {
      uint64_t seed = run_seed(base, prop, i);
      Plan p = generate(prop, seed, thorough);
      RunOut r = fork_run(p, scratch);
      ++runs;
      simt += p.sim_time;
      for (auto & e : p.faults) {cnt["fault." + e.first] += e.second;}
      for (auto & e : r.cnt) {cnt[e.first] += e.second;}
      states.insert(r.states.begin(), r.states.end());
      for (auto & e : r.cnt) {if (e.first.compare(0, 5, "eval.") == 0 && e.second >= (prop == "C15" ? 1 : 5)) {hashes.insert(r.hash); break;}}
      if (samples.size() < 3) {
        samples.push_back(fmt("seed %llu: %zu sensors, %zu operations, %.3g s simulated, trace hash %016llx",
          static_cast<unsigned long long>(seed), p.cfg.sensors.size(), p.ops.size(), p.sim_time,
          static_cast<unsigned long long>(r.hash)));
      }
      if (!r.viol && (runs % 16 == 1)) {      // determinism sample
        RunOut q = fork_run(p, scratch);
        ++det;
        if (!same(r, q)) {std::fprintf(stderr, "seed %llu is not deterministic\n", static_cast<unsigned long long>(seed)); ++nondet;}
      }
      if (r.viol) {
        RunOut q = fork_run(p, scratch);
        if (!same(r, q)) {
          std::fprintf(stderr, "violation of seed %llu does not repeat: %s / %s\n", static_cast<unsigned long long>(seed), r.what.c_str(), q.what.c_str());
          ++nondet;
          continue;
        }
        if (known.count(r.cls)) {knownhits.push_back(r.cls); continue;}
        int tried = 0;
        Plan m = minimise(p, r.cls, scratch, thorough ? 60 : 15, tried);
        RunOut f = fork_run(m, scratch);
        if (!f.viol) {m = p; f = r;}
        std::ofstream pf(outf + ".plan");
        pf << write_plan(m);
        pf << "# violation " << f.cls << "\n# op " << f.op << "\n# hash " << f.hash << "\n# what " << f.what << "\n";
        pf.close();
        viol = fmt("{\"seed\":%llu,\"cls\":\"%s\",\"what\":\"%s\",\"ops_before\":%zu,\"ops_after\":%zu,\"op\":%d,\"hash\":\"%llu\",\"tried\":%d}",
          static_cast<unsigned long long>(seed), esc(f.cls).c_str(), esc(f.what).c_str(), p.ops.size(), m.ops.size(), f.op,
          static_cast<unsigned long long>(f.hash), tried);
        break;
      }
    }
    if (viol.empty() && nondet) {return 3;}     // no verdict
    std::ofstream o(outf);
    o << "{\"runs\":" << runs << ",\"determinism_reruns\":" << det << ",\"wall\":" << real_now() - t0 << ",\"sim_time\":" << simt;
    o << ",\"counts\":{";
    bool first = true;
    for (auto & e : cnt) {o << (first ? "" : ",") << "\"" << esc(e.first) << "\":" << fmt("%.17g", e.second); first = false;}
    o << "},\"states\":[";
    first = true;
    for (auto s : states) {o << (first ? "" : ",") << s; first = false;}
    o << "],\"hashes\":[";
    first = true;
    for (auto s : hashes) {o << (first ? "" : ",") << s; first = false;}
    o << "],\"samples\":[";
    first = true;
    for (auto & s : samples) {o << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false;}
    o << "],\"known\":[";
    first = true;
    for (auto & s : knownhits) {o << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false;}
    o << "],\"violation\":" << (viol.empty() ? "null" : viol) << "}\n";
    return 0;
  }
  std::cerr << "usage\n";
  return 3;
}
