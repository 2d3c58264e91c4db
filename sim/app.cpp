// The simulator application as a whole: run to completion, dispatch, logs and truth files.
#include "streams.hpp"

#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>

#include "app_twin.hpp"
#include "exec.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "seam.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "twin.hpp"
#include "utility/sim/sim_rng.hpp"

int ekf_sim_main(int, char **);

// ------------------------------------------------------------------ dispatch seam (linker --wrap)
static bool g_rec = false;
static std::vector<SimMsg> g_got;
static bool g_pack = false;
static std::string g_packed;

void (* g_on_imu)(void *, const ImuMessage &) = nullptr;
void (* g_on_gps)(void *, const GpsMessage &) = nullptr;

extern "C" {
void __real__ZN3IMU8CallbackERK10ImuMessage(void *, const ImuMessage &) __attribute__((weak));
void __real__ZN3GPS8CallbackERK10GpsMessage(void *, const GpsMessage &) __attribute__((weak));
void __real__ZN9SimCamera8CallbackERK16SimCameraMessage(void *, const SimCameraMessage &) __attribute__((weak));
void __wrap__ZN3IMU8CallbackERK10ImuMessage(void * s, const ImuMessage & m)
{
  if (g_on_imu) {g_on_imu(s, m);}
  if (g_rec) {g_got.push_back(of(m)); if (g_pack) {g_packed += pack(m);}}
  __real__ZN3IMU8CallbackERK10ImuMessage(s, m);
}
void __wrap__ZN3GPS8CallbackERK10GpsMessage(void * s, const GpsMessage & m)
{
  if (g_on_gps) {g_on_gps(s, m);}
  if (g_rec) {g_got.push_back(of(m)); if (g_pack) {g_packed += pack(m);}}
  __real__ZN3GPS8CallbackERK10GpsMessage(s, m);
}
void __wrap__ZN9SimCamera8CallbackERK16SimCameraMessage(void * s, const SimCameraMessage & m)
{
  if (g_rec) {g_got.push_back(of(m)); if (g_pack) {g_packed += pack(m);}}
  __real__ZN9SimCamera8CallbackERK16SimCameraMessage(s, m);
}
}

// ------------------------------------------------------------------ configuration
static std::vector<std::string> shipped()
{
  std::vector<std::string> v{g_repo + "/config/example.yaml"};
  std::string d = g_repo + "/config/regression/";
  if (DIR * h = opendir(d.c_str())) {
    while (dirent * e = readdir(h)) {
      std::string n = e->d_name;
      if (n.size() > 5 && n.substr(n.size() - 5) == ".yaml") {v.push_back(d + n);}
    }
    closedir(h);
  }
  std::sort(v.begin() + 1, v.end());
  return v;
}

struct AppCfg
{
  Scen s;
  double log_rate{0}, ge[3]{0, 0, 0}, he{0}, lla[3]{0, 0, 0}, head{0};
  double b[3]{0, 0, 0}, be[3]{0, 0, 0}, bae[3]{0, 0, 0};
  Quaterniond bq{1, 0, 0, 0};
  int trackers{0};
  bool plain{true};          // the oracle of the contents applies
};

static void arr(const YAML::Node & n, double * d, size_t c)
{
  auto v = n.as<std::vector<double>>(std::vector<double>());
  for (size_t i = 0; i < c && i < v.size(); ++i) {d[i] = v[i];}
}
static void quat(const YAML::Node & n, double * d)
{
  double q[4] = {1, 0, 0, 0};
  auto v = n.as<std::vector<double>>(std::vector<double>());
  if (v.size() == 4) {std::copy(v.begin(), v.end(), q);}
  std::copy(q, q + 4, d);
}

static AppCfg parse(YAML::Node root)
{
  AppCfg a;
  YAML::Node r = root["/EkfCalNode"]["ros__parameters"], sp = r["sim_params"];
  Scen & s = a.s;
  a.log_rate = r["data_log_rate"].as<double>(0);
  arr(r["pos_b_in_l"], a.b, 3);
  double q[4]; quat(r["ang_b_to_l"], q); a.bq = Quaterniond(q[0], q[1], q[2], q[3]).normalized();
  arr(r["pos_e_in_g"], a.lla, 3); a.head = r["ang_l_to_e"].as<double>(0);
  s.seed = sp["seed"].as<unsigned>(1);
  s.max_time = sp["max_time"].as<double>(10);
  s.rest = std::max(0.1, sp["stationary_time"].as<double>(0.1));
  std::string tt = sp["truth_type"].as<std::string>("cyclic");
  s.truth = tt == "cyclic" ? 0 : tt == "spline" ? 1 : 2;
  arr(sp["pos_frequency"], s.pf, 3); arr(sp["ang_frequency"], s.af, 3);
  arr(sp["pos_offset"], s.po, 3); arr(sp["ang_offset"], s.ao, 3);
  s.pa = sp["pos_amplitude"].as<double>(1); s.aa = sp["ang_amplitude"].as<double>(0.1);
  s.times = sp["times"].as<std::vector<double>>(std::vector<double>());
  s.poses = sp["positions"].as<std::vector<double>>(std::vector<double>(3));
  s.angles = sp["angles"].as<std::vector<double>>(std::vector<double>(3));
  arr(sp["pos_errors"], s.pe, 3); arr(sp["ang_errors"], s.ae, 3);
  arr(sp["pos_b_in_l_error"], a.be, 3); arr(sp["ang_b_to_l_error"], a.bae, 3);
  arr(sp["pos_e_in_g_error"], a.ge, 3); a.he = sp["ang_l_to_e_error"].as<double>(0);
  auto names = [](const YAML::Node & n) {return n.as<std::vector<std::string>>(std::vector<std::string>());};
  auto common = [](SimSpec & z, YAML::Node n) {
      z.rate = n["rate"].as<double>(1); z.log_rate = n["data_log_rate"].as<double>(0);
      z.ext = n["is_extrinsic"].as<bool>(false);
      z.no_errors = n["sim_params"]["no_errors"].as<bool>(false); z.time_error = n["sim_params"]["time_error"].as<double>(0);
      arr(n["sim_params"]["pos_error"], z.pos_err, 3); arr(n["sim_params"]["ang_error"], z.ang_err, 3);
    };
  for (auto & k : names(r["imu_list"])) {
    YAML::Node n = r["imu"][k], e = n["sim_params"];
    SimSpec z;
    z.kind = SimSpec::IMU_;
    common(z, n);
    z.intr = n["is_intrinsic"].as<bool>(false);
    arr(n["pos_i_in_b"], z.pos, 3); quat(n["ang_i_to_b"], z.ang); arr(n["acc_bias"], z.ba, 3); arr(n["omg_bias"], z.bg, 3);
    arr(e["acc_error"], z.ae, 3); arr(e["omg_error"], z.we, 3);
    arr(e["acc_bias_error"], z.bae, 3); arr(e["omg_bias_error"], z.bge, 3);
    s.sensors.push_back(z);
  }
  a.trackers = static_cast<int>(names(r["tracker_list"]).size());
  std::map<std::string, int> used;
  for (auto & k : names(r["camera_list"])) {
    YAML::Node n = r["camera"][k];
    SimSpec z;
    z.kind = SimSpec::CAM_;
    common(z, n);
    arr(n["pos_c_in_b"], z.pos, 3); quat(n["ang_c_to_b"], z.ang);
    const char * nm[9] = {"f_x", "f_y", "k_1", "k_2", "p_1", "p_2", "width", "height", "pixel_size"};
    const double df[9] = {0.01, 0.01, 0, 0, 0, 0, 640, 480, 5e-6};
    for (int i = 0; i < 9; ++i) {z.intrin[i] = n["intrinsics"][nm[i]].as<double>(df[i]);}
    std::string t = n["tracker"].as<std::string>(""), f = n["fiducial"].as<std::string>("");
    if (!t.empty()) {
      YAML::Node tn = r["tracker"][t];
      z.tracker = 1;
      z.min_track = tn["min_track_length"].as<int>(2); z.max_track = tn["max_track_length"].as<int>(20);
      z.features = tn["sim_params"]["feature_count"].as<int>(100);
      z.trk_no_errors = tn["sim_params"]["no_errors"].as<bool>(false);
    }
    if (!f.empty()) {
      YAML::Node fn = r["fiducial"][f], e = fn["sim_params"];
      z.fid = 1;
      if (used[f]++) {a.plain = false;}
      arr(fn["pos_f_in_l"], z.fpos, 3); quat(fn["ang_f_to_l"], z.fang);
      if (!fn["pos_f_in_l"]) {std::fill(z.fpos, z.fpos + 3, 0.0);}
      z.fid_no_errors = e["no_errors"].as<bool>(false);
      arr(e["t_vec_error"], z.te, 3); arr(e["r_vec_error"], z.re, 3);
    }
    s.sensors.push_back(z);
  }
  for (auto & k : names(r["gps_list"])) {
    YAML::Node n = r["gps"][k];
    SimSpec z;
    z.kind = SimSpec::GPS_;
    common(z, n);
    arr(n["pos_a_in_b"], z.pos, 3); arr(n["sim_params"]["lla_error"], z.lla_err, 3);
    arr(n["sim_params"]["pos_a_in_b_error"], z.pos_err, 3);
    s.sensors.push_back(z);
  }
  return a;
}

// ------------------------------------------------------------------ files
struct Csv
{
  std::vector<std::string> head;
  std::vector<std::vector<double>> rows;
  int col(const std::string & n) const
  {
    auto it = std::find(head.begin(), head.end(), n);
    return it == head.end() ? -1 : static_cast<int>(it - head.begin());
  }
};

static bool read_csv(RunOut & out, const std::string & name, const std::string & text, Csv & c)
{
  if (text.empty() || text.back() != '\n') {return fail(out, -1, "files", name + " does not end with a complete row");}
  std::istringstream in(text);
  std::string l;
  std::getline(in, l);
  c.head = split(l, ',');
  if (c.head.empty() || std::isdigit(static_cast<unsigned char>(l[0])) || l[0] == '-') {return fail(out, -1, "files", name + " has no header");}
  while (std::getline(in, l)) {
    auto f = split(l, ',');
    if (f.size() != c.head.size()) {return fail(out, -1, "files", fmt("%s: a row of %zu fields under a header of %zu", name.c_str(), f.size(), c.head.size()));}
    std::vector<double> v;
    for (auto & x : f) {
      char * e = nullptr;
      v.push_back(std::strtod(x.c_str(), &e));
      if (e == x.c_str() || *e) {return fail(out, -1, "files", name + ": a field that is not a number: " + x);}
    }
    c.rows.push_back(v);
  }
  return true;
}

static double digits(double v, double scale) {return 6e-6 * std::abs(v) + 1e-9 * (1 + scale);}

static bool check_truth(RunOut & out, const AppCfg & a, const Csv & c, const Motion & m)
{
  const Scen & s = a.s;
  size_t n = static_cast<size_t>(std::floor((s.max_time + 1) * a.log_rate));
  if (c.rows.size() != n) {return fail(out, -1, "truth", fmt("body_truth.csv holds %zu rows, expected %zu", c.rows.size(), n));}
  int ct = c.col("time"), cp = c.col("body_pos_0"), cv = c.col("body_vel_0"), ca = c.col("body_acc_0"), cq = c.col("body_ang_pos_0"),
    cw = c.col("body_ang_vel_0"), cl = c.col("body_ang_acc_0");
  if (ct < 0 || cp < 0 || cv < 0 || ca < 0 || cq < 0 || cw < 0 || cl < 0) {return fail(out, -1, "truth", "body_truth.csv lacks a column of the body motion");}
  for (size_t i = 0; i < n; ++i) {
    double t = static_cast<double>(i) / a.log_rate;
    auto & r = c.rows[i];
    auto v3 = [&](int k) {return Vector3d(r[static_cast<size_t>(k)], r[static_cast<size_t>(k) + 1], r[static_cast<size_t>(k) + 2]);};
    if (!(std::abs(r[static_cast<size_t>(ct)] - t) <= digits(t, 0))) {return fail(out, -1, "truth", fmt("row %zu of body_truth.csv is at %.9g, expected %.9g", i, r[static_cast<size_t>(ct)], t));}
    auto same = [&](const Vector3d & x, const Vector3d & y, const char * what) {
        double sc = y.norm();
        for (int k = 0; k < 3; ++k) {
          if (!(std::abs(x(k) - y(k)) <= digits(y(k), sc))) {return fail(out, -1, "truth", fmt("%s at %.9g in body_truth.csv is %.9g, expected %.9g", what, t, x(k), y(k)));}
        }
        return true;
      };
    Quaterniond q = m.q(t), g(r[static_cast<size_t>(cq)], r[static_cast<size_t>(cq) + 1], r[static_cast<size_t>(cq) + 2], r[static_cast<size_t>(cq) + 3]);
    if (!same(v3(cp), m.pos(t), "position") || !same(v3(cv), m.vel(t), "velocity") || !same(v3(ca), m.acc(t) + Vector3d(0, 0, 9.80665), "acceleration") ||
      !same(v3(cw), m.w(t), "angular rate") || !same(v3(cl), m.al(t), "angular acceleration")) {return false;}
    if (!(rlog(g.normalized() * q.inverse()).norm() <= 2e-5)) {return fail(out, -1, "truth", fmt("orientation at %.9g in body_truth.csv is not the true one", t));}
  }
  out.cnt["eval.truth_rows"] += static_cast<double>(n);
  return true;
}

// ------------------------------------------------------------------ one run of the application
static std::string serial(int rc)
{
  uint64_t h = 17;
  for (auto & m : g_got) {
    mixd(h, m.t); mix(h, m.id); mix(h, static_cast<uint64_t>(m.type));
    for (int k = 0; k < 3; ++k) {mixd(h, m.a(k)); mixd(h, m.w(k));}
    mix(h, m.tracks.size());
    for (auto & t : m.tracks) {for (auto & o : t.track) {mixd(h, o.key_point.pt.x); mixd(h, o.key_point.pt.y); mix(h, o.frame_id - m.frame);}}
    for (auto & b : m.boards) {for (int k = 0; k < 3; ++k) {mixd(h, b.pos_f_in_c(k));}}
  }
  return fmt("%d %zu %llx", rc, g_got.size(), static_cast<unsigned long long>(h));
}

static int run_main(const std::string & yaml, const std::string & logs)
{
  mkdir(logs.c_str(), 0700);
  seam::disk_init(logs);
  std::string a0 = "sim", a1 = yaml, a2 = logs;
  char * argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
  g_got.clear();
  g_rec = true;
  int rc;
  try {rc = ekf_sim_main(3, argv);} catch (const std::exception & e) {g_rec = false; return 1000;}
  g_rec = false;
  return rc;
}

// The text of the configuration of a plan
static std::string config_text(const Plan & p)
{
  if (p.profile != 1) {return scen_yaml(p, scen_of(p));}
  auto f = shipped();
  YAML::Node root = YAML::LoadFile(f[static_cast<size_t>(xget(p, "cfg")) % f.size()]);
  auto sp = root["/EkfCalNode"]["ros__parameters"]["sim_params"];
  sp["max_time"] = xget(p, "max_time");
  sp["seed"] = static_cast<unsigned>(xget(p, "rng"));
  if (xget(p, "rest") > 0) {sp["stationary_time"] = xget(p, "rest");}
  std::ostringstream o;
  o << root;
  return o.str();
}

__attribute__((noinline)) static void dirt(int v)
{
  volatile char b[128 * 1024];
  for (size_t i = 0; i < sizeof b; ++i) {b[i] = static_cast<char>(v);}
}

static std::string main_in(const std::string & yaml, const std::string & logs, int perturb, int64_t start, int mode, uint64_t seed)
{
  if (perturb) {mallopt(M_PERTURB, perturb); dirt(perturb);}
  seam::clock_init(start, 1000, mode, seed);
  int rc = run_main(yaml, logs);
  return serial(rc);
}

// appmain <yaml> <logs> <out> "<perturb> <start> <mode> <seed>": one run by this build
int app_main(const std::vector<std::string> & a)
{
  std::istringstream s(a[4]);
  int perturb = 0, mode = 0;
  long long start = 0;
  unsigned long long seed = 0;
  s >> perturb >> start >> mode >> seed;
  std::string o = main_in(a[1], a[2], perturb, start, mode, seed);
  std::ofstream f(a[3]);
  f << o;
  return 0;
}

// The same configuration and seed twice, in different surroundings; then another seed.
void run_repro(const Plan & p, const std::string & dir, RunOut & out)
{
  *g_progress = 0;
  std::string text = config_text(p), why;
  YAML::Node root = YAML::Load(text);
  AppCfg a = parse(YAML::Load(text));
  auto write = [&](const std::string & n, unsigned level, unsigned seed) {
      root["/EkfCalNode"]["ros__parameters"]["debug_log_level"] = level;
      root["/EkfCalNode"]["ros__parameters"]["sim_params"]["seed"] = seed;
      std::ofstream f(dir + n);
      f << root;
    };
  write("a.yaml", 0, a.s.seed);
  write("b.yaml", static_cast<unsigned>(xget(p, "level")), a.s.seed);
  out.cnt["ops"] += static_cast<double>(p.ops.size());
  std::string oa, ob, oc;
  int64_t start = 1600000000000000000LL;
  int st = in_child([&]() {return main_in(dir + "a.yaml", dir + "a/", p.seed / 2 % 2 ? 0x11 : 0xFF, start, 0, 1);}, oa, 50);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {fail(out, 0, "abort", fmt("the simulator ended with %s", status_text(st, why))); return;}
  int64_t start2 = static_cast<int64_t>(xget(p, "start")) * 1000000000LL + 7;
  const char * alt = std::getenv("SIM_ALT");
  if (alt && *alt && p.seed % 2 == 0) {
    out.cnt["probe.other_build"] += 1;
    pid_t pid = fork();
    if (pid == 0) {
      std::string e = fmt("231 %lld %d %llu", static_cast<long long>(start2), static_cast<int>(xget(p, "clock")), static_cast<unsigned long long>(p.seed));
      execl(alt, alt, "appmain", (dir + "b.yaml").c_str(), (dir + "b/").c_str(), (dir + "out").c_str(), e.c_str(), nullptr);
      _exit(3);
    }
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {_exit(3);}
    std::ifstream f(dir + "out");
    std::getline(f, ob);
  } else {
    st = in_child([&]() {return main_in(dir + "b.yaml", dir + "b/", 0xE7, start2, static_cast<int>(xget(p, "clock")), p.seed);}, ob, 50);
  }
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {fail(out, 0, "abort", fmt("the second run of the simulator ended with %s", status_text(st, why))); return;}
  out.cnt["eval.C16"] += 1; out.cnt["eval.simulator_pairs"] += 5;
  if (oa != ob) {fail(out, 0, "messages", "two runs of one configuration and seed process different messages (" + oa + ", " + ob + ")"); return;}
  auto x = read_logs(dir + "a/"), y = read_logs(dir + "b/");
  x.erase("debug_log.txt"); y.erase("debug_log.txt");
  for (auto & l : x) {mix_str(out.hash, l.first); mix(out.hash, l.second.size());}
  mix_str(out.hash, oa);
  std::string d = log_diff(x, y);
  if (!d.empty()) {fail(out, 0, "logs", "two runs of the simulator with one configuration and seed: " + d); return;}
  uint64_t h = 9;
  mix(h, static_cast<uint64_t>(p.profile == 1 ? 1000 + static_cast<int>(xget(p, "cfg")) : a.s.truth));
  bool noisy = false;
  for (auto & z : a.s.sensors) {
    mix(h, static_cast<uint64_t>(z.kind * 16 + z.no_errors * 8 + z.tracker * 4 + (z.fid != 0) * 2 + z.ext));
    noisy = noisy || (z.kind == SimSpec::IMU_ && !z.no_errors && z.ae[0] > 0 && a.s.max_time * z.rate >= 2);
  }
  out.states.insert(h);
  if (noisy && a.s.seed > 0 && xget(p, "other", 1) != 0) {
    unsigned other = a.s.seed ^ (1u << (p.seed / 7 % 32));   // one bit of the seed is another one
    if (other == 0) {other = a.s.seed + 1;}
    write("c.yaml", 0, other);
    st = in_child([&]() {return main_in(dir + "c.yaml", dir + "c/", 0, start, 0, 1);}, oc, 50);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && oc.size() > 2 && oa.size() > 2) {
      out.cnt["eval.other_seeds"] += 1;
      if (oa == oc) {fail(out, 0, "seed", "another seed gives exactly the same noisy messages"); return;}
    }
  }
}

void run_app(const Plan & p, const std::string & dir, RunOut & out)
{
  *g_progress = 0;
  std::string yaml = dir + "c.yaml", logs = dir + "log/";
  std::string text = config_text(p);
  {std::ofstream f(yaml); f << text;}
  AppCfg a = parse(YAML::Load(text));
  Scen & s = a.s;
  out.cnt["ops"] += static_cast<double>(p.ops.size());
  int kind = static_cast<int>(xget(p, "f_kind"));
  bool seen = __real__ZN3IMU8CallbackERK10ImuMessage && __real__ZN3GPS8CallbackERK10GpsMessage && __real__ZN9SimCamera8CallbackERK16SimCameraMessage;
  std::string want;
  if (kind) {
    std::string o;
    std::string l2 = dir + "ref/";
    int st = in_child([&]() {int rc = run_main(yaml, l2); return serial(rc);}, o, 50);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      // the same failure shows without faults: let the plan without them report it
      fail(out, 0, "abort", fmt("the simulator ended with wait status %d", st)); return;
    }
    want = o;
  }
  // the filter that the configuration describes, built by our own reader
  bool wire = !kind && seen && xget(p, "wire") != 0;
  for (int k = 0; k < 3; ++k) {wire = wire && a.be[k] == 0 && a.bae[k] == 0;}
  if (wire) {
    std::string o, l2 = dir + "ref/", l3 = dir + "wire/", msgs = dir + "m.bin";
    int st = in_child([&]() {
          g_pack = true;
          run_main(yaml, l2);
          seam::disk_init("");
          std::ofstream f(msgs, std::ios::binary);
          f << g_packed;
          return std::string("x");
        }, o, 50);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && o == "x") {
      mkdir(l3.c_str(), 0700);
      std::ifstream f(msgs, std::ios::binary);
      std::string packed((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      o.clear();
      st = in_child([&]() {return "=" + wire_twin(text, l3, packed);}, o, 50);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || o.empty()) {
        // the application got through, the same messages fed to the same classes did not
        fail(out, 0, "wiring", fmt("the filter the configuration describes fails on the messages the application processed (wait status %d)", st)); return;
      }
      if (o != "=") {fail(out, 0, "wiring", o.substr(1)); return;}
      auto x = read_logs(l2), y = read_logs(l3);
      const char * own[4] = {"body_truth.csv", "board_truth.csv", "feature_points.csv", "debug_log.txt"};
      for (auto n : own) {x.erase(n); y.erase(n);}
      std::string d = log_diff(x, y);
      if (!d.empty()) {fail(out, 0, "wiring", "the application logs differ from those of the filter its configuration describes: " + d); return;}
      out.cnt["eval.wirings"] += 1;
      out.cnt["eval.wired_files"] += static_cast<double>(y.size());
    }
  }
  seam::disk_init(logs);
  mkdir(logs.c_str(), 0700);
  int rc;
  {
    std::string a0 = "sim", a1 = yaml, a2 = logs;
    char * argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
    g_got.clear();
    if (kind) {seam::disk_fault_at(static_cast<long>(xget(p, "f_after")), kind, static_cast<int>(xget(p, "f_count", 1)), static_cast<int>(xget(p, "f_arg")));}
    seam::clock_init(1600000000000000000LL + static_cast<int64_t>(xget(p, "start") * 1e9), 1000, static_cast<int>(xget(p, "clock")), 99);
    g_rec = true;
    std::string died;
    rc = 0;
    try {rc = ekf_sim_main(3, argv);} catch (const std::exception & e) {died = e.what();}
    g_rec = false;
    seam::disk_fault(0, 0, 0);
    if (!died.empty()) {fail(out, 0, "abort", "the simulator ended with an exception: " + died); return;}
  }
  for (int i = 1; i < 16; ++i) {if (seam::fired[i]) {out.cnt[fmt("disk.%d", i)] += static_cast<double>(seam::fired[i]);}}
  out.cnt["eval.runs"] += 1;
  if (rc != 0) {fail(out, 0, "exit", fmt("the simulator exits with status %d", rc)); return;}
  // which sensors answered
  double last = -1e300;
  std::map<unsigned, std::vector<SimMsg>> by;
  for (auto & m : g_got) {
    mixd(out.hash, m.t); mix(out.hash, m.id); mixd(out.hash, m.a(0));
    by[m.id].push_back(m);
  }
  if (seen && g_got.empty()) {
    double n = 0;
    for (auto & z : s.sensors) {n += std::floor(s.max_time * z.rate);}
    if (n > 0) {
      // never crossed the seam although messages exist: no claim about dispatch is possible if the
      // callbacks were renamed; the logs then decide
      seen = false;
      out.cnt["probe.seam_lost"] += 1;
    }
  }
  if (seen) {
    for (auto & m : g_got) {
      if (!(m.t >= last)) {fail(out, 0, "order", fmt("a message of time %.12g is processed after one of time %.12g", m.t, last)); return;}
      last = m.t;
      out.cnt["eval.dispatch"] += 1;
    }
    if (kind && serial(rc) != want) {fail(out, 0, "faults", "disk faults change which messages are processed (" + want + ", with faults " + serial(rc) + ")"); return;}
  }
  auto files = read_logs(logs);
  std::map<std::string, Csv> csv;
  if (!kind) {
    for (auto & f : files) {
      if (f.first.size() < 4 || f.first.substr(f.first.size() - 4) != ".csv") {continue;}
      if (!read_csv(out, f.first, f.second, csv[f.first])) {return;}
      mix_str(out.hash, f.first); mix(out.hash, f.second.size());
      out.cnt["eval.files"] += 1;
    }
  }
  // identity of the sensors: in the order inertial, cameras, satellite receivers
  std::vector<unsigned> ids;
  for (size_t q = 0; q < s.sensors.size(); ++q) {ids.push_back(static_cast<unsigned>(q + 1));}
  if (seen) {
    size_t n = 0;
    for (size_t q = 0; q < ids.size(); ++q) {
      auto & v = by[ids[q]];
      n += v.size();
      std::vector<double> t;
      for (auto & m : v) {
        if (m.type != s.sensors[q].kind) {fail(out, 0, "dispatch", fmt("a message of sensor %u reaches the callback of another kind", m.id)); return;}
        t.push_back(m.t);
      }
      if (s.sensors[q].no_errors == 0) {std::sort(t.begin(), t.end());}
      if (t.size() != static_cast<size_t>(std::floor(s.max_time * s.sensors[q].rate))) {
        fail(out, 0, "dispatch", fmt("sensor %u (rate %.9g) gets %zu messages in %.9g s, expected %zu", ids[q], s.sensors[q].rate, t.size(), s.max_time,
          static_cast<size_t>(std::floor(s.max_time * s.sensors[q].rate)))); return;
      }
      // successive messages closer than the jitter may be swapped
      if (s.sensors[q].no_errors || s.sensors[q].time_error * s.sensors[q].rate < 0.02) {
        if (!check_times(out, 0, s.sensors[q], s.max_time, t)) {return;}
      }
    }
    if (n != g_got.size()) {fail(out, 0, "dispatch", "messages of a sensor that does not exist"); return;}
  }
  // truth: known motion
  std::shared_ptr<TruthEngine> engine;
  Motion m;
  bool known = true;
  if (s.truth == 0) {m = cyclic_motion(s);} else {
    for (int k = 0; k < 3; ++k) {known = known && s.pe[k] == 0 && s.ae[k] == 0;}
    SimRNG::SetSeed(s.seed);
    engine = make_truth(s, std::make_shared<DebugLogger>(LogLevel::FATAL, ""));
    m = engine_motion(engine);
  }
  uint64_t h = 5;
  mix(h, static_cast<uint64_t>(p.profile == 1 ? 1000 + static_cast<int>(xget(p, "cfg")) : s.truth));
  mix(h, static_cast<uint64_t>(s.sensors.size() * 2 + (a.log_rate > 0)));
  for (auto & z : s.sensors) {mix(h, static_cast<uint64_t>(z.kind * 16 + z.no_errors * 8 + z.tracker * 4 + (z.fid != 0) * 2 + z.ext));}
  mix(h, static_cast<uint64_t>(kind * 16 + p.cfg.aug * 2 + p.cfg.root));
  out.states.insert(h);
  if (kind || !a.plain) {return;}
  if (a.log_rate > 0) {
    for (const char * f : {"body_truth.csv", "board_truth.csv", "feature_points.csv", "body_state.csv"}) {
      bool need = std::string(f) != "body_state.csv" && std::string(f) != "board_truth.csv";
      if (need && !csv.count(f)) {fail(out, 0, "files", std::string(f) + " is missing"); return;}
    }
    if (known && !check_truth(out, a, csv["body_truth.csv"], m)) {return;}
    auto & fp = csv["feature_points.csv"];
    for (size_t i = 0; i < fp.rows.size(); ++i) {
      if (fp.rows[i].size() != 4 || fp.rows[i][0] != static_cast<double>(i)) {fail(out, 0, "files", "feature_points.csv is not numbered"); return;}
    }
  } else if (csv.count("body_truth.csv")) {fail(out, 0, "files", "truth is logged although the rate is zero"); return;}
  if (!seen || !known) {return;}
  // contents
  size_t board = 0, seeing = 0;
  for (auto & z : s.sensors) {seeing += z.kind == SimSpec::CAM_ && z.tracker;}
  TruthEngineCyclic plain(Vector3d::Zero(), Vector3d::Zero(), Vector3d::Zero(), Vector3d::Zero(), 0, 0, 0, 1, std::make_shared<DebugLogger>(LogLevel::FATAL, ""));
  size_t grid = plain.GetFeatures().size();
  for (size_t q = 0; q < s.sensors.size(); ++q) {
    const SimSpec & z = s.sensors[q];
    auto & v = by[ids[q]];
    Calib c;
    c.pos = Vector3d(z.pos[0], z.pos[1], z.pos[2]);
    c.q = Quaterniond(z.ang[0], z.ang[1], z.ang[2], z.ang[3]).normalized();
    c.ba = Vector3d(z.ba[0], z.ba[1], z.ba[2]); c.bg = Vector3d(z.bg[0], z.bg[1], z.bg[2]);
    auto col = [&](const std::string & n, int k) {
        auto & t = csv["body_truth.csv"];
        int i = t.col(n + "_" + std::to_string(ids[q]) + "_" + std::to_string(k));
        return i < 0 || t.rows.empty() ? std::nan("") : t.rows[0][static_cast<size_t>(i)];
      };
    const char * nm = z.kind == SimSpec::IMU_ ? "imu" : z.kind == SimSpec::CAM_ ? "cam" : "gps";
    std::string n = nm;
    if (a.log_rate > 0) {
      Vector3d tp(col(n + "_pos", 0), col(n + "_pos", 1), col(n + "_pos", 2));
      Quaterniond tq(1, 0, 0, 0);
      if (z.kind != SimSpec::GPS_) {tq = Quaterniond(col(n + "_ang_pos", 0), col(n + "_ang_pos", 1), col(n + "_ang_pos", 2), col(n + "_ang_pos", 3));}
      Vector3d tba(0, 0, 0), tbg(0, 0, 0);
      if (z.kind == SimSpec::IMU_) {
        tba = Vector3d(col("imu_acc_bias", 0), col("imu_acc_bias", 1), col("imu_acc_bias", 2));
        tbg = Vector3d(col("imu_gyr_bias", 0), col("imu_gyr_bias", 1), col("imu_gyr_bias", 2));
      }
      if (!tp.allFinite() || !tq.coeffs().allFinite() || !tba.allFinite() || !tbg.allFinite()) {
        fail(out, 0, "truth", fmt("body_truth.csv lacks the calibration of sensor %u", ids[q])); return;
      }
      if (z.no_errors) {
        double d = (tp - c.pos).norm() + (z.kind == SimSpec::IMU_ ? (tba - c.ba).norm() + (tbg - c.bg).norm() : 0);
        if (!(d <= 1e-5 * (1 + c.pos.norm() + c.ba.norm() + c.bg.norm())) || (z.kind != SimSpec::GPS_ && !(rlog(tq.normalized() * c.q.inverse()).norm() <= 2e-5))) {
          fail(out, 0, "truth", fmt("body_truth.csv has another calibration for the error-free sensor %u", ids[q])); return;
        }
      } else {
        c.pos = tp; c.q = z.kind == SimSpec::GPS_ ? Quaterniond(1, 0, 0, 0) : tq.normalized(); c.ba = tba; c.bg = tbg; c.tol = 1e-5;
      }
      out.cnt["eval.calibration"] += 1;
    } else if (!z.no_errors) {
      continue;
    }
    if (z.kind == SimSpec::IMU_) {
      if (!check_imu(out, 0, z, m, c, v)) {return;}
    } else if (z.kind == SimSpec::GPS_) {
      Site site;
      site.known = a.ge[0] == 0 && a.ge[1] == 0 && a.ge[2] == 0 && a.he == 0;
      site.lla = Vector3d(a.lla[0], a.lla[1], a.lla[2]); site.head = a.head;
      if (!check_gps(out, 0, z, m, c, site, v)) {return;}
    } else {
      if (z.fid) {
        auto & t = csv["board_truth.csv"];
        BoardTruth b;
        b.pos = Vector3d(z.fpos[0], z.fpos[1], z.fpos[2]); b.q = Quaterniond(z.fang[0], z.fang[1], z.fang[2], z.fang[3]).normalized();
        bool clean = z.no_errors || z.fid_no_errors;
        if (a.log_rate > 0) {
          if (t.rows.size() <= board || t.head.size() != 8) {fail(out, 0, "truth", "board_truth.csv lacks a board"); return;}
          auto & r = t.rows[board];
          Vector3d bp(r[1], r[2], r[3]);
          Quaterniond bq(r[4], r[5], r[6], r[7]);
          if (clean && (!((bp - b.pos).norm() <= 1e-5 * (1 + b.pos.norm())) || !(rlog(bq.normalized() * b.q.inverse()).norm() <= 2e-5))) {
            fail(out, 0, "truth", "board_truth.csv has another pose for an error-free board"); return;
          }
          if (!clean) {b.pos = bp; b.q = bq.normalized(); b.tol = 1e-5;}
        } else if (!clean) {++board; continue;}
        ++board;
        if (!check_boards(out, 0, z, m, c, b, v)) {return;}
      }
      if (z.tracker && a.log_rate > 0) {
        std::vector<Vector3d> feats;
        for (auto & r : csv["feature_points.csv"].rows) {feats.push_back(Vector3d(r[1], r[2], r[3]));}
        Calib ct = c;
        ct.tol = std::max(ct.tol, 1e-5);
        if (!check_tracks(out, 0, z, m, ct, feats, grid, v, seeing == 1)) {return;}
      }
    }
  }
  if (a.log_rate > 0 && csv["board_truth.csv"].rows.size() != board) {fail(out, 0, "truth", "board_truth.csv has more boards than are used"); return;}
}
