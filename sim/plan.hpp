// A plan is one simulated execution: a configuration and the exact list of operations delivered
// to the system, with every fault decision already taken.  Plans are text files; replaying one
// repeats the execution exactly.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {next(); next();}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() {return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0);}
  double u(double a, double b) {return a + (b - a) * u();}
  // log-uniform
  double lu(double a, double b) {return std::exp(u(std::log(a), std::log(b)));}
  int i(int a, int b) {return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1));}
  bool p(double q) {return u() < q;}
  double n()
  {
    double a = u(), b = u();
    if (a < 1e-300) {a = 1e-300;}
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
};

enum SensorKind { K_IMU = 0, K_GPS = 1, K_CAM = 2, K_FID = 3 };

struct SensorSpec
{
  int kind{0};
  unsigned id{0};              // identifier in direct mode; fiducial id in both modes
  int ext{0}, intr{0};
  double pos[3]{0, 0, 0};
  double ang[4]{1, 0, 0, 0};
  double ba[3]{0, 0, 0}, bg[3]{0, 0, 0};
  double stab[4]{1e-9, 1e-9, 1e-9, 1e-9};
  double var[12]{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
  double rate{10}, log_rate{0};
  int cam{-1};                 // fiducial: index of the camera sensor
  double intrin[9]{0.01, 0.01, 0, 0, 0, 0, 640, 480, 5e-6};
  double px_error{1}, min_feat{1};
  int min_track{2}, max_track{20};
  int has_tracker{1};
};

struct Cfg
{
  int root{0}, fej{0}, aug{1}, direct{0}, gps_init{0}, do_init{0};
  double aug_dt{1}, aug_pos{0.1}, aug_ang{0.1};
  double pn[18];
  double baseline{100}, pos_th{0.1}, ang_th{0.1}, chi2{1}, scale{100};
  double lla[3]{0, 0, 0}, heading{0};
  double log_rate{0};
  int max_track{20};
  int set_max_track{1};
  double t0{0};
  double body[19];             // pos vel acc quat(wxyz) angvel angacc
  int log{0};                  // log files on
  int log_level{0};
  std::vector<SensorSpec> sensors;
  std::map<std::string, double> extra;   // property specific
  Cfg()
  {
    for (double & v : pn) {v = 1e-2;}
    for (double & v : body) {v = 0;}
    body[9] = 1; body[8] = 9.80665;
  }
};

// Operation kinds
//  R register sensor s            P predict to local time t
//  I imu sample   d: a3 w3 Ra9 Rw9          G gps fix  d: lla3 R9
//  C camera frame d: see gen.cpp            X crash point
//  D duplicate registration of sensor s (direct API)    M set wall clock jump d0 (ns)
//  F disk fault  d: kind, count             A generic auxiliary operation
struct Op
{
  char k{'P'};
  int s{-1};
  double t{0};
  int tag{0};                  // fault tag (see fault_names)
  std::vector<double> d;
};

enum FaultTag
{
  F_NONE = 0, F_LATE, F_DUP, F_REORDER, F_LOSS, F_OUTAGE, F_SKEW, F_JUMP, F_OUTLIER, F_BLACKOUT,
  F_DROPFRAME, F_LATEREG, F_DUPREG, F_DISKFULL, F_DISKERR, F_OPENFAIL, F_SHORTWRITE, F_EINTR,
  F_CRASH, F_CLOCK, F_MEM, F_NOISEBURST, F_STALL, F_COUNT
};
static const char * const fault_names[F_COUNT] = {
  "none", "late", "duplicate", "reorder", "loss", "outage", "clock_skew", "clock_jump", "outlier",
  "blackout", "dropped_frame", "late_registration", "duplicate_registration", "disk_full",
  "disk_error", "open_failure", "short_write", "eintr", "crash", "wall_clock_jump",
  "memory_pattern", "noise_burst", "stall"};

struct Plan
{
  std::string prop;
  uint64_t seed{0};
  int profile{0};
  Cfg cfg;
  std::vector<Op> ops;
  std::map<std::string, int> faults;     // injected, by kind
  double sim_time{0};
};

inline void put(std::ostream & o, double v)
{
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  o << ' ' << b;
}

inline std::string write_plan(const Plan & p)
{
  std::ostringstream o;
  const Cfg & c = p.cfg;
  o << "plan 1\nprop " << p.prop << "\nseed " << p.seed << "\nprofile " << p.profile << "\n";
  o << "cfg " << c.root << ' ' << c.fej << ' ' << c.aug << ' ' << c.direct << ' ' << c.gps_init
    << ' ' << c.do_init << ' ' << c.max_track << ' ' << c.set_max_track << ' ' << c.log << ' '
    << c.log_level;
  for (double v : {c.aug_dt, c.aug_pos, c.aug_ang, c.baseline, c.pos_th, c.ang_th, c.chi2, c.scale,
      c.lla[0], c.lla[1], c.lla[2], c.heading, c.log_rate, c.t0}) {put(o, v);}
  for (double v : c.pn) {put(o, v);}
  for (double v : c.body) {put(o, v);}
  o << "\n";
  for (auto & e : c.extra) {o << "extra " << e.first; put(o, e.second); o << "\n";}
  for (auto & s : c.sensors) {
    o << "sensor " << s.kind << ' ' << s.id << ' ' << s.ext << ' ' << s.intr << ' ' << s.cam << ' '
      << s.min_track << ' ' << s.max_track << ' ' << s.has_tracker;
    for (double v : s.pos) {put(o, v);}
    for (double v : s.ang) {put(o, v);}
    for (double v : s.ba) {put(o, v);}
    for (double v : s.bg) {put(o, v);}
    for (double v : s.stab) {put(o, v);}
    for (double v : s.var) {put(o, v);}
    put(o, s.rate); put(o, s.log_rate);
    for (double v : s.intrin) {put(o, v);}
    put(o, s.px_error); put(o, s.min_feat);
    o << "\n";
  }
  for (auto & f : p.faults) {o << "faults " << f.first << ' ' << f.second << "\n";}
  o << "simtime"; put(o, p.sim_time); o << "\n";
  for (auto & op : p.ops) {
    o << "op " << op.k << ' ' << op.s << ' ' << op.tag; put(o, op.t);
    o << ' ' << op.d.size();
    for (double v : op.d) {put(o, v);}
    o << "\n";
  }
  o << "end\n";
  return o.str();
}

inline bool read_plan(std::istream & in, Plan & p)
{
  std::string line;
  bool ok = false;
  // strtod-based reader: operator>> does not accept inf/nan
  auto dbl = [](std::istringstream & s) {std::string w; s >> w; return std::strtod(w.c_str(), nullptr);};
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string w;
    s >> w;
    Cfg & c = p.cfg;
    if (w == "prop") {s >> p.prop;} else if (w == "seed") {s >> p.seed;
    } else if (w == "profile") {s >> p.profile;} else if (w == "cfg") {
      s >> c.root >> c.fej >> c.aug >> c.direct >> c.gps_init >> c.do_init >> c.max_track >>
      c.set_max_track >> c.log >> c.log_level;
      for (double * v : {&c.aug_dt, &c.aug_pos, &c.aug_ang, &c.baseline, &c.pos_th, &c.ang_th,
          &c.chi2, &c.scale, &c.lla[0], &c.lla[1], &c.lla[2], &c.heading, &c.log_rate, &c.t0})
      {*v = dbl(s);}
      for (double & v : c.pn) {v = dbl(s);}
      for (double & v : c.body) {v = dbl(s);}
    } else if (w == "extra") {
      std::string k; s >> k; c.extra[k] = dbl(s);
    } else if (w == "sensor") {
      SensorSpec q;
      s >> q.kind >> q.id >> q.ext >> q.intr >> q.cam >> q.min_track >> q.max_track >> q.has_tracker;
      for (double & v : q.pos) {v = dbl(s);}
      for (double & v : q.ang) {v = dbl(s);}
      for (double & v : q.ba) {v = dbl(s);}
      for (double & v : q.bg) {v = dbl(s);}
      for (double & v : q.stab) {v = dbl(s);}
      for (double & v : q.var) {v = dbl(s);}
      q.rate = dbl(s); q.log_rate = dbl(s);
      for (double & v : q.intrin) {v = dbl(s);}
      q.px_error = dbl(s); q.min_feat = dbl(s);
      c.sensors.push_back(q);
    } else if (w == "faults") {
      std::string k; int n; s >> k >> n; p.faults[k] = n;
    } else if (w == "simtime") {p.sim_time = dbl(s);} else if (w == "op") {
      Op o; size_t n;
      s >> o.k >> o.s >> o.tag; o.t = dbl(s); s >> n;
      for (size_t i = 0; i < n; ++i) {o.d.push_back(dbl(s));}
      p.ops.push_back(o);
    } else if (w == "end") {ok = true; break;}
  }
  return ok;
}
