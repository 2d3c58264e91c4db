// Twin executions: the same plan under two environments (logging, disk, clock, memory, epoch,
// covariance form), and crash consistency of the logs.
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>

#include "checks.hpp"
#include "exec.hpp"
#include "seam.hpp"
#include "twin.hpp"
#include "world.hpp"

const char * status_text(int st, std::string & buf)
{
  if (WIFSIGNALED(st)) {buf = fmt("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));} else {
    buf = fmt("exit status %d", WEXITSTATUS(st));
  }
  return buf.c_str();
}

// Scribble over the stack below the caller, so that what is read without being written differs
// between the twins.
__attribute__((noinline)) static void dirty_stack(int v)
{
  volatile char b[96 * 1024];
  for (size_t i = 0; i < sizeof b; i += 1) {b[i] = static_cast<char>(v);}
}

std::string trace_here(const Plan & p, const Env & e)
{
  seam::clock_init(e.clock_start, 1000, e.clock_mode, e.clock_seed);
  seam::disk_init(e.dir);
  if (e.crash_write > 0) {seam::disk_crash_at(e.crash_write, e.crash_bytes);}
  if (e.perturb) {mallopt(M_PERTURB, e.perturb);}
  if (e.full_stdout) {
    int f = ::open("/dev/full", O_WRONLY);
    if (f >= 0) {dup2(f, 1); dup2(f, 2);}
  }
  Plan q = p;
  q.cfg.log = e.logs;
  for (auto & o : q.ops) {
    if (o.k != 'P' && o.k != 'M' && o.k != 'F' && o.k != 'X') {o.t += e.shift;}
  }
  std::string out;
  auto put64 = [&](uint64_t v) {out.append(reinterpret_cast<char *>(&v), 8);};
  {
    World w(q.cfg, e.dir, e.level);
    for (int k = 0; k < static_cast<int>(q.ops.size()); ++k) {
      if (e.stop_at >= 0 && k >= e.stop_at) {break;}
      const Op & op = q.ops[static_cast<size_t>(k)];
      *g_progress = k;
      bool env_op = op.k == 'M' || op.k == 'F' || op.k == 'X';
      if (env_op && !e.faults) {put64(0); continue;}
      if (!env_op && !w.possible(op)) {put64(1); continue;}
      if (e.perturb) {dirty_stack(e.perturb);}
      if (op.k == 'D' && e.dups) {
        if (e.dups == 1) {w.apply(op);}
        put64(2);
        continue;
      }
      w.apply(op);
      put64(env_op ? 0 : hash_obs(w.snap()));
      if (e.kill_at == k) {_exit(77);}
    }
  }
  out += "END.";
  return out;
}

Trace trace_child(const Plan & p, const Env & e)
{
  Trace t;
  std::string o;
  t.status = in_child([&]() {return trace_here(p, e);}, o, 50);
  t.done = o.size() >= 4 && o.compare(o.size() - 4, 4, "END.") == 0 && WIFEXITED(t.status) && WEXITSTATUS(t.status) == 0;
  for (size_t i = 0; i + 8 <= o.size(); i += 8) {uint64_t v; std::memcpy(&v, &o[i], 8); t.h.push_back(v);}
  if (!e.dir.empty()) {t.logs = read_logs(e.dir);}
  return t;
}

// The same trace from another build of the code under test.
Trace trace_exec(const std::string & bin, const Plan & p, const Env & e, const std::string & tmp)
{
  Trace t;
  {
    std::ofstream f(tmp + "plan");
    f << write_plan(p);
  }
  std::string envs = fmt(
    "%lld %d %llu %d %d %d %d %d %.17g %d", static_cast<long long>(e.clock_start), e.clock_mode,
    static_cast<unsigned long long>(e.clock_seed), e.perturb, e.logs ? 1 : 0, e.level, e.faults ? 1 : 0, e.full_stdout ? 1 : 0,
    e.shift, e.stop_at);
  pid_t pid = fork();
  if (pid == 0) {
    execl(bin.c_str(), bin.c_str(), "trace", (tmp + "plan").c_str(), (tmp + "trace").c_str(), e.dir.c_str(), envs.c_str(), nullptr);
    _exit(3);
  }
  waitpid(pid, &t.status, 0);
  std::ifstream in(tmp + "trace", std::ios::binary);
  std::string o((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  t.done = o.size() >= 4 && o.compare(o.size() - 4, 4, "END.") == 0 && WIFEXITED(t.status) && WEXITSTATUS(t.status) == 0;
  for (size_t i = 0; i + 8 <= o.size(); i += 8) {uint64_t v; std::memcpy(&v, &o[i], 8); t.h.push_back(v);}
  t.logs = read_logs(e.dir);
  return t;
}

int trace_main(const std::vector<std::string> & a)
{
  // trace <plan> <out> <dir> <env>
  Plan p;
  std::ifstream in(a[1]);
  if (!read_plan(in, p)) {return 3;}
  Env e;
  e.dir = a[3];
  std::istringstream s(a[4]);
  int logs, faults, full;
  long long cs;
  unsigned long long sd;
  s >> cs >> e.clock_mode >> sd >> e.perturb >> logs >> e.level >> faults >> full >> e.shift >> e.stop_at;
  e.clock_start = cs; e.clock_seed = sd; e.logs = logs; e.faults = faults; e.full_stdout = full;
  std::string o = trace_here(p, e);
  std::ofstream f(a[2], std::ios::binary);
  f << o;
  return 0;
}

// ------------------------------------------------------------------ logs
static std::vector<bool> duration_columns(const std::string & header)
{
  std::vector<bool> d;
  for (auto & c : split(header, ',')) {d.push_back(c.find("duration") != std::string::npos);}
  return d;
}

// First difference between two sets of logs, execution durations apart.
std::string log_diff(const std::map<std::string, std::string> & a, const std::map<std::string, std::string> & b)
{
  for (auto & e : a) {if (!b.count(e.first)) {return e.first + " exists in one run only";}}
  for (auto & e : b) {if (!a.count(e.first)) {return e.first + " exists in one run only";}}
  for (auto & e : a) {
    const std::string & x = e.second, & y = b.at(e.first);
    if (x == y) {continue;}
    auto lx = split(x, '\n'), ly = split(y, '\n');
    if (lx.size() != ly.size()) {return fmt("%s has %zu lines in one run and %zu in the other", e.first.c_str(), lx.size(), ly.size());}
    if (lx[0] != ly[0]) {return e.first + ": headers differ";}
    auto dur = duration_columns(lx[0]);
    for (size_t i = 1; i < lx.size(); ++i) {
      if (lx[i] == ly[i]) {continue;}
      auto fx = split(lx[i], ','), fy = split(ly[i], ',');
      if (fx.size() != fy.size()) {return fmt("%s line %zu: field counts differ", e.first.c_str(), i + 1);}
      for (size_t k = 0; k < fx.size(); ++k) {
        if (fx[k] != fy[k] && !(k < dur.size() && dur[k])) {
          return fmt("%s line %zu field %zu: %s and %s", e.first.c_str(), i + 1, k + 1, fx[k].c_str(), fy[k].c_str());
        }
      }
    }
  }
  return "";
}

static void fresh(const std::string & d) {wipe_dir(d); mkdir(d.c_str(), 0700);}

static int first_diff(const Trace & a, const Trace & b)
{
  size_t n = std::min(a.h.size(), b.h.size());
  for (size_t i = 0; i < n; ++i) {if (a.h[i] != b.h[i]) {return static_cast<int>(i);}}
  return a.h.size() == b.h.size() ? -1 : static_cast<int>(n);
}

static void count_ops(const Plan & p, RunOut & out)
{
  for (auto & op : p.ops) {
    out.cnt["ops"] += 1;
    if (op.tag) {out.cnt[std::string("fault.") + fault_names[op.tag]] += 1;}
  }
}

static void twin_states(const Plan & p, const Trace & a, uint64_t salt, RunOut & out)
{
  for (size_t i = 0; i < a.h.size(); ++i) {mix(out.hash, a.h[i]);}
  for (size_t i = 1; i < p.ops.size(); ++i) {
    uint64_t h = salt;
    mix(h, static_cast<uint64_t>(p.ops[i].k)); mix(h, static_cast<uint64_t>(p.ops[i - 1].k));
    mix(h, static_cast<uint64_t>(p.ops[i].tag)); mix(h, static_cast<uint64_t>(p.cfg.aug * 4 + p.cfg.root * 2 + p.cfg.fej));
    mix(h, static_cast<uint64_t>(p.ops[i].s)); mix(h, p.cfg.sensors.size());
    out.states.insert(h);
  }
}

static double X(const Plan & p, const char * k, double def = 0)
{
  auto it = p.cfg.extra.find(k);
  return it == p.cfg.extra.end() ? def : it->second;
}

void run_twin(const Plan & p, const std::string & dir, RunOut & out)
{
  std::string da = dir + "a/", db = dir + "b/", why;
  fresh(da); fresh(db);
  count_ops(p, out);
  const std::string & P = p.prop;
  Env ea, eb;
  ea.dir = da; eb.dir = db;
  if (P == "C14") {
    ea.logs = false; ea.dir = ""; ea.level = 0; ea.faults = false;
    eb.logs = X(p, "logs", 1) != 0; eb.level = static_cast<int>(X(p, "level")); eb.faults = true;
    eb.clock_mode = static_cast<int>(X(p, "clock")); eb.clock_seed = p.seed;
    eb.full_stdout = X(p, "full") != 0;
    if (X(p, "dirmode") == 1) {eb.dir = dir + "b/missing/sub/";}
    if (X(p, "dirmode") == 2) {std::ofstream(dir + "b/file") << "x"; eb.dir = dir + "b/file/";}
  } else if (P == "C16") {
    ea.logs = eb.logs = p.cfg.log != 0;
    ea.level = 0; eb.level = static_cast<int>(X(p, "level"));
    // fresh memory is filled with the complement: all zero in half of the runs
    ea.perturb = p.seed / 2 % 2 ? 0x11 : 0xFF; eb.perturb = 0xE7;
    eb.clock_mode = static_cast<int>(X(p, "clock")); eb.clock_seed = p.seed;
    eb.clock_start = static_cast<int64_t>(X(p, "start")) * 1000000000LL + 7;
  } else if (P == "C20") {                  // a rejected registration is as good as none
    ea.dups = 1; eb.dups = 2;
    ea.logs = eb.logs = p.cfg.log != 0;
    ea.faults = eb.faults = false;
  } else {                                  // C19
    ea.logs = eb.logs = p.cfg.log != 0;
    eb.shift = X(p, "shift");
  }
  Trace a = trace_child(p, ea);
  if (!a.done) {
    fail(out, *g_progress, "abort", std::string("processing ended with ") + status_text(a.status, why));
    return;
  }
  const char * alt = std::getenv("SIM_ALT");
  Trace b;
  if (P == "C16" && alt && *alt && p.seed % 2 == 0) {
    out.cnt["probe.other_build"] += 1;
    b = trace_exec(alt, p, eb, dir);
    if (WIFEXITED(b.status) && WEXITSTATUS(b.status) == 3) {_exit(3);}
  } else {b = trace_child(p, eb);}
  twin_states(p, a, X(p, "dirmode") * 16 + X(p, "clock") * 4 + X(p, "logs"), out);
  if (!b.done) {
    fail(out, *g_progress, "abort", fmt("the second run ended with %s", status_text(b.status, why)));
    return;
  }
  out.cnt["eval." + P] += static_cast<double>(a.h.size());
  int d = first_diff(a, b);
  if (d >= 0) {
    fail(out, d, "estimates", fmt("the two runs differ after op %d (%c)", d, d < static_cast<int>(p.ops.size()) ? p.ops[static_cast<size_t>(d)].k : '?'));
    return;
  }
  if (P != "C14") {
    std::string e = log_diff(a.logs, b.logs);
    out.cnt["probe.log_files"] += static_cast<double>(a.logs.size());
    for (auto & l : a.logs) {mix_str(out.hash, l.second);}
    if (!e.empty()) {fail(out, static_cast<int>(p.ops.size()) - 1, "logs", e); return;}
  }
}

// ------------------------------------------------------------------ crash
void run_crash(const Plan & p, const std::string & dir, RunOut & out)
{
  std::string da = dir + "a/", db = dir + "b/", dc = dir + "c/", why;
  fresh(da); fresh(db); fresh(dc);
  count_ops(p, out);
  int k = static_cast<int>(X(p, "crash_op"));
  k = std::min(k, static_cast<int>(p.ops.size()) - 1);
  if (k < 0) {return;}
  Env e;
  e.logs = true; e.faults = false;
  if (X(p, "mode") == 0) {
    // killed between two messages
    Env c1 = e, c2 = e;
    c1.dir = da; c1.stop_at = k + 1;
    c2.dir = db; c2.kill_at = k;
    Trace a = trace_child(p, c1);
    if (!a.done) {fail(out, *g_progress, "abort", std::string("processing ended with ") + status_text(a.status, why)); return;}
    Trace b = trace_child(p, c2);
    out.cnt["fault.crash"] += 1;
    out.cnt["eval.C15"] += static_cast<double>(a.logs.size());
    twin_states(p, a, 1, out);
    for (auto & l : a.logs) {mix_str(out.hash, l.second);}
    if (!(WIFEXITED(b.status) && WEXITSTATUS(b.status) == 77)) {
      // the operation at which to die was not applicable: nothing to judge
      if (b.done) {return;}
      fail(out, *g_progress, "abort", std::string("processing ended with ") + status_text(b.status, why));
      return;
    }
    for (auto & l : a.logs) {
      size_t nl = static_cast<size_t>(std::count(l.second.begin(), l.second.end(), '\n'));
      out.cnt["probe.rows_at_crash"] += static_cast<double>(nl);
      auto it = b.logs.find(l.first);
      if (it == b.logs.end()) {
        if (l.second.empty()) {continue;}
        fail(out, k, "lost", l.first + " does not exist after the crash"); return;
      }
      if (it->second != l.second) {
        size_t ml = static_cast<size_t>(std::count(it->second.begin(), it->second.end(), '\n'));
        fail(out, k, "lost", fmt("killed after op %d: %s holds %zu lines (%zu bytes), a clean shutdown leaves %zu (%zu bytes)",
          k, l.first.c_str(), ml, it->second.size(), nl, l.second.size()));
        return;
      }
    }
    for (auto & l : b.logs) {
      if (!a.logs.count(l.first)) {fail(out, k, "lost", l.first + " exists only after the crash"); return;}
    }
    return;
  }
  // killed inside a write
  int nops = k + 1;
  // reference: number of writes before and after the last operation
  auto writes = [&](const std::string & d, int stop, Trace & t) {
      std::string o;
      fresh(d);
      int st = in_child(
        [&]() {
          Env c1 = e;
          c1.dir = d; c1.stop_at = stop;
          std::string r = trace_here(p, c1);
          long n = seam::disk_writes();
          r.append(reinterpret_cast<char *>(&n), sizeof n);
          return r;
        }, o, 50);
      t.status = st;
      t.done = WIFEXITED(st) && WEXITSTATUS(st) == 0 && o.size() > sizeof(long);
      long n = 0;
      if (t.done) {std::memcpy(&n, &o[o.size() - sizeof n], sizeof n);}
      t.logs = read_logs(d);
      return n;
    };
  Trace before, after;
  long n0 = writes(da, nops - 1, before), n1 = writes(db, nops, after);
  if (!before.done || !after.done) {
    fail(out, *g_progress, "abort", std::string("processing ended with ") + status_text(after.status, why)); return;
  }
  for (auto & l : after.logs) {mix_str(out.hash, l.second);}
  out.cnt["eval.C15"] += 1;
  if (n1 <= n0) {out.cnt["probe.no_write"] += 1; return;}
  long at = n0 + 1 + static_cast<long>(X(p, "write") * static_cast<double>(n1 - n0));
  at = std::min(at, n1);
  long bytes = static_cast<long>(X(p, "bytes"));
  std::string o;
  int st = in_child(
    [&]() {
      Env c1 = e;
      c1.dir = dc; c1.stop_at = nops; c1.crash_write = at; c1.crash_bytes = bytes;
      return trace_here(p, c1);
    }, o, 50);
  out.cnt["fault.crash_in_write"] += 1;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
    // The flush pattern at exit can move writes after the last operation; nothing was interrupted
    out.cnt["probe.crash_not_reached"] += 1;
    return;
  }
  auto torn = read_logs(dc);
  int incomplete = 0;
  for (auto & l : torn) {
    const std::string & full = after.logs.count(l.first) ? after.logs[l.first] : std::string();
    const std::string & base = before.logs.count(l.first) ? before.logs[l.first] : std::string();
    if (full.compare(0, l.second.size(), l.second) != 0) {
      fail(out, k, "torn", l.first + " is not a prefix of what a clean run leaves"); return;
    }
    if (l.second.size() < base.size()) {
      fail(out, k, "lost", fmt("killed in a write of op %d: %s lost %zu bytes of earlier rows", k, l.first.c_str(), base.size() - l.second.size()));
      return;
    }
    if (!l.second.empty() && l.second.back() != '\n') {++incomplete;}
  }
  for (auto & l : before.logs) {
    if (!l.second.empty() && !torn.count(l.first)) {fail(out, k, "lost", l.first + " is gone"); return;}
  }
  if (incomplete > 1) {fail(out, k, "torn", fmt("%d files end in an incomplete line", incomplete)); return;}
  if (incomplete) {out.cnt["probe.torn_line"] += 1;}
}

// ------------------------------------------------------------------ covariance forms
void run_root(const Plan & p, const std::string & dir, RunOut & out)
{
  (void)dir;
  Cfg cs = p.cfg, cr = p.cfg;
  cs.root = 0; cr.root = 1; cs.log = cr.log = 0;
  World s(cs, dir), r(cr, dir);
  // What rounding alone does: copies of the standard form whose covariance is disturbed, after
  // every operation, by some units in the last place of what entered that operation.
  std::vector<std::unique_ptr<World>> sh;
  for (int i = 0; i < 3; ++i) {sh.emplace_back(new World(cs, dir));}
  Rng noise(p.seed * 77 + 5);
  Ref ref(cs);
  Obs pre = s.snap();
  double reach = 1;
  VectorXd dx;
  MatrixXd dp;
  auto grow = [](VectorXd & v, MatrixXd & m, const Obs & a, const Obs & c) {
      VectorXd fa = flatten(a.st), fc = flatten(c.st);
      if (fa.size() != fc.size() || a.P.rows() != c.P.rows() || !fc.allFinite() || !c.P.allFinite() || a.grav != c.grav || a.lla != c.lla) {return false;}
      if (v.size() != fa.size()) {v = VectorXd::Zero(fa.size());}
      if (m.rows() != a.P.rows()) {m = MatrixXd::Zero(a.P.rows(), a.P.rows());}
      v = v.cwiseMax((fa - fc).cwiseAbs());
      m = m.cwiseMax((a.P - c.P).cwiseAbs());
      return true;
    };
  for (int k = 0; k < static_cast<int>(p.ops.size()); ++k) {
    const Op & op = p.ops[static_cast<size_t>(k)];
    if (!s.possible(op)) {continue;}
    if (op.k == 'M' || op.k == 'F' || op.k == 'X') {continue;}
    *g_progress = k;
    out.op = k;
    out.cnt["ops"] += 1;
    if (op.tag) {out.cnt[std::string("fault.") + fault_names[op.tag]] += 1;}
    s.apply(op); r.apply(op);
    Obs a = s.snap(), b = r.snap();
    bool fine = true;
    dx.resize(0); dp.resize(0, 0);
    for (auto & w : sh) {
      VectorXd d0 = w->ekf->m_cov.diagonal();
      w->apply(op);
      MatrixXd & c = w->ekf->m_cov;
      VectorXd d1 = c.diagonal().cwiseAbs();
      for (Eigen::Index i = 0; i < std::min(d0.size(), d1.size()); ++i) {d1(i) = std::max(d1(i), std::abs(d0(i)));}
      for (Eigen::Index i = 0; i < c.rows(); ++i) {
        for (Eigen::Index j = i; j < c.rows(); ++j) {
          double e = noise.u(-1, 1) * 1e-15 * std::sqrt(d1(i) * d1(j));
          c(i, j) += e;
          if (i != j) {c(j, i) += e;}
        }
      }
      fine = grow(dx, dp, a, w->snap()) && fine;
    }
    mix(out.hash, hash_obs(a)); mix(out.hash, hash_obs(b));
    unsigned id = op.s >= 0 ? s.id_of(op.s) : 0;
    RefResult q = ref.step(pre, op, id);
    ref.resync(a, op, q);
    pre = a;
    reach = std::max(reach, q.cond);
    {
      uint64_t h = 11;
      mix(h, static_cast<uint64_t>(op.k)); mix(h, static_cast<uint64_t>(op.tag)); mix(h, static_cast<uint64_t>(cs.aug * 2 + cs.fej));
      mix(h, static_cast<uint64_t>(a.grav * 2 + a.lla)); mix(h, q.stationary * 1ull + q.moving * 2 + q.msckf * 4 + q.fiducial * 8 + q.gps_used * 16 + q.window_changed * 32);
      mix(h, std::min<unsigned>(a.aug_size / 6, 8)); mix(h, a.st.imu_states.size() * 16 + a.st.cam_states.size() * 4 + a.st.gps_states.size());
      out.states.insert(h);
    }
    // decisions taken at a threshold may fall either way
    if (!q.check_state || !q.check_flags) {out.cnt["ambiguous.C07"] += 1; return;}
    double wn = a.st.body_state.ang_vel_b_in_l.norm(), pn = a.st.body_state.pos_b_in_l.norm();
    if (!fine || wn > 1e2 || pn > 1e5 || !flatten(a.st).allFinite()) {out.cnt["diverged"] += 1; return;}
    out.cnt["eval.C07"] += 1;
    if (a.t != b.t || a.grav != b.grav || a.lla != b.lla || a.size != b.size) {
      fail(out, k, "structure", fmt("after op %d (%c): time %.17g/%.17g, gravity %d/%d, GPS frame %d/%d, size %u/%u", k, op.k,
        a.t, b.t, a.grav, b.grav, a.lla, b.lla, a.size, b.size));
      return;
    }
    VectorXd fa = flatten(a.st), fb = flatten(b.st);
    if (fa.size() != fb.size() || !fb.allFinite() || !b.P.allFinite()) {
      fail(out, k, "finite", fmt("after op %d (%c): square-root form is not finite", k, op.k)); return;
    }
    double growth = 1e-8;
    double lost = (dx.cwiseAbs().array() / (1 + fa.array().abs())).maxCoeff();
    if (lost > 1e-5) {out.cnt["diverged"] += 1; return;}
    for (Eigen::Index i = 0; i < fa.size(); ++i) {
      double t = growth * (1 + std::abs(fa(i)) + pn + wn) + 100 * dx.maxCoeff();
      if (std::abs(fa(i) - fb(i)) > t) {
        fail(out, k, "state", fmt("after op %d (%c): estimate %ld is %.12g in standard and %.12g in square-root form", k, op.k,
          static_cast<long>(i), fa(i), fb(i)));
        return;
      }
    }
    if (a.P.rows() != b.P.rows()) {fail(out, k, "structure", "covariance sizes differ"); return;}
    for (Eigen::Index i = 0; i < a.P.rows(); ++i) {
      for (Eigen::Index j = 0; j < a.P.rows(); ++j) {
        double sc = std::sqrt(std::max(0.0, a.P(i, i)) * std::max(0.0, a.P(j, j)));
        double lim = 1e-7 * sc + 1e-13 + 100 * std::max(dp(i, j), std::max(dp(i, i), dp(j, j)));
        if (std::abs(a.P(i, j) - b.P(i, j)) > lim) {
          fail(out, k, "covariance", fmt("after op %d (%c): covariance (%ld,%ld) is %.12g in standard and %.12g in square-root form", k, op.k,
            static_cast<long>(i), static_cast<long>(j), a.P(i, j), b.P(i, j)));
          return;
        }
      }
    }
  }
}

// ------------------------------------------------------------------ the log writer by itself
void run_datalog(const Plan & p, const std::string & dir, RunOut & out)
{
  // op A: d = {logger, call(0 rate limited, 1 plain, 2 enable), row id}; t = row time
  struct L
  {
    std::unique_ptr<DataLogger> l;
    bool on{false}, first{true};
    double rate{0}, t0{0}, tmax{0};
    size_t rows{0}, plain{0};
    std::vector<std::pair<double, int>> calls;
    size_t pos{0};
    bool header{false};
  };
  std::vector<L> v(3);
  std::string hdr = "time,a,b";
  for (size_t i = 0; i < v.size(); ++i) {
    v[i].rate = X(p, fmt("rate%zu", i).c_str());
    v[i].on = X(p, fmt("on%zu", i).c_str(), 1) != 0;
    v[i].l.reset(new DataLogger(dir, fmt("l%zu.csv", i)));
    v[i].l->DefineHeader(hdr);
    if (v[i].on) {v[i].l->EnableLogging();}
    v[i].l->SetLogRate(v[i].rate);
  }
  for (int k = 0; k < static_cast<int>(p.ops.size()); ++k) {
    const Op & op = p.ops[static_cast<size_t>(k)];
    *g_progress = k; out.op = k;
    out.cnt["ops"] += 1;
    if (op.tag) {out.cnt[std::string("fault.") + fault_names[op.tag]] += 1;}
    if (op.k != 'A') {continue;}
    size_t i = static_cast<size_t>(op.d[0]);
    L & x = v[i];
    int call = static_cast<int>(op.d[1]);
    std::string row = fmt("%.17g,%d,%zu", op.t, k, i);
    if (call == 2) {x.l->EnableLogging(); x.on = true; continue;}
    if (call == 1) {x.l->Log(row);} else {x.l->RateLimitedLog(row, op.t);}
    // what appeared
    std::string data;
    {
      std::ifstream in(dir + fmt("l%zu.csv", i), std::ios::binary);
      if (in) {data.assign((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());}
    }
    std::string add = data.substr(std::min(x.pos, data.size()));
    x.pos = data.size();
    mix_str(out.hash, add);
    out.cnt["eval.C13"] += 1;
    uint64_t h = 77;
    mix(h, static_cast<uint64_t>(call)); mix(h, x.rate == 0); mix(h, !add.empty()); mix(h, x.on); mix(h, std::min<size_t>(x.rows, 20));
    mix(h, static_cast<uint64_t>(op.tag)); mix(h, op.t < x.t0); mix(h, op.t > x.tmax);
    out.states.insert(h);
    if (!x.on) {
      if (!data.empty()) {fail(out, k, "off", "a disabled log was written"); return;}
      continue;
    }
    std::string want = row + "\n";
    if (!x.header && !add.empty()) {
      if (add.compare(0, hdr.size() + 1, hdr + "\n") != 0) {fail(out, k, "header", "the log does not start with its header"); return;}
      add = add.substr(hdr.size() + 1);
      x.header = true;
    }
    bool written = !add.empty();
    if (written && add != want) {fail(out, k, "row", "row is '" + add.substr(0, 80) + "', expected '" + row + "'"); return;}
    if (call == 1) {
      if (!written) {fail(out, k, "lost", "an unlimited row is missing"); return;}
      ++x.rows; ++x.plain;
      continue;
    }
    bool init = x.first;
    if (init) {x.t0 = op.t; x.tmax = op.t; x.first = false;}
    x.tmax = std::max(x.tmax, op.t);
    double allowed = x.rate * (op.t - x.t0);
    bool must = init || x.rate == 0 || static_cast<double>(x.rows) + 1 <= allowed * (1 - 1e-12) - 1e-9;
    if (written) {++x.rows;}
    if (must && !written) {
      fail(out, k, "lost", fmt("row at t=%.9g is missing: %zu rows, rate %.9g, first row at %.9g", op.t, x.rows, x.rate, x.t0)); return;
    }
    if (written && !init && x.rate != 0) {
      double lim = 1 + x.rate * (x.tmax - x.t0) + static_cast<double>(x.plain);
      if (static_cast<double>(x.rows) > lim * (1 + 1e-12) + 1e-9) {
        fail(out, k, "rate", fmt("%zu rows after %.9g s at rate %.9g", x.rows, x.tmax - x.t0, x.rate)); return;
      }
    }
  }
}
