#include "scen.hpp"

#include <algorithm>

#include "checks.hpp"
#include "gen.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"

double xget(const Plan & p, const std::string & k, double def)
{
  auto it = p.cfg.extra.find(k);
  return it == p.cfg.extra.end() ? def : it->second;
}

template<class F> static void visit(SimSpec & s, F f)
{
  auto i = [&](int & v) {double d = v; f(d); v = static_cast<int>(d);};
  auto a = [&](double * v, int n) {for (int k = 0; k < n; ++k) {f(v[k]);}};
  i(s.kind); f(s.rate); f(s.time_error); f(s.log_rate); i(s.no_errors); i(s.ext); i(s.intr);
  a(s.pos, 3); a(s.ang, 4); a(s.pos_err, 3); a(s.ang_err, 3); a(s.var, 12);
  if (s.kind == SimSpec::IMU_) {a(s.ba, 3); a(s.bg, 3); a(s.ae, 3); a(s.we, 3); a(s.bae, 3); a(s.bge, 3);}
  if (s.kind == SimSpec::CAM_) {
    a(s.intrin, 9); i(s.tracker); i(s.features); i(s.min_track); i(s.max_track); i(s.trk_no_errors); f(s.px_error);
    i(s.fid); i(s.fid_no_errors); i(s.fid_ext);
    a(s.fpos, 3); a(s.fang, 4); a(s.fpe, 3); a(s.fae, 3); a(s.te, 3); a(s.re, 3);
  }
  if (s.kind == SimSpec::GPS_) {a(s.lla_err, 3);}
}

void SimSpec::store(Op & o) const
{
  SimSpec c = *this;
  o.d.clear();
  visit(c, [&](double & v) {o.d.push_back(v);});
}

SimSpec SimSpec::parse(const Op & o)
{
  SimSpec s;
  size_t k = 0;
  visit(s, [&](double & v) {if (k < o.d.size()) {v = o.d[k++];}});
  return s;
}

Scen scen_of(const Plan & p)
{
  Scen s;
  auto arr = [&](const char * n, double * v, int c) {for (int i = 0; i < c; ++i) {v[i] = xget(p, n + std::to_string(i));}};
  s.truth = static_cast<int>(xget(p, "truth")); s.max_time = xget(p, "max_time", 2); s.rest = xget(p, "rest");
  s.seed = static_cast<unsigned>(xget(p, "rng", 1));
  arr("pf", s.pf, 3); arr("af", s.af, 3); arr("po", s.po, 3); arr("ao", s.ao, 3); arr("pe", s.pe, 3); arr("ae", s.ae, 3);
  s.pa = xget(p, "pa"); s.aa = xget(p, "aa");
  int n = static_cast<int>(xget(p, "np"));
  for (int i = 0; i < n; ++i) {
    s.times.push_back(xget(p, "t" + std::to_string(i)));
    for (int k = 0; k < 3; ++k) {
      s.poses.push_back(xget(p, fmt("sp%d_%d", i, k)));
      s.angles.push_back(xget(p, fmt("sa%d_%d", i, k)));
    }
  }
  // the surplus of the longer list does not count
  int more = static_cast<int>(xget(p, "surplus"));
  for (int i = 0; i < std::abs(more); ++i) {(more > 0 ? s.poses : s.angles).push_back(40 + 10.0 * i);}
  for (size_t k = 0; k < p.ops.size(); ++k) {
    if (p.ops[k].k == 'S') {s.sensors.push_back(SimSpec::parse(p.ops[k])); s.op.push_back(static_cast<int>(k));}
  }
  return s;
}

std::shared_ptr<TruthEngine> make_truth(const Scen & s, std::shared_ptr<DebugLogger> log)
{
  auto v = [](const double * d) {return Vector3d(d[0], d[1], d[2]);};
  auto sv = [](const double * d) {return std::vector<double>(d, d + 3);};
  if (s.truth == 0) {
    const bool later = std::fmod(s.pa * 1000, 2) < 1;       // half of the engines get their frequencies after construction
    auto e = std::make_shared<TruthEngineCyclic>(later ? Vector3d(0, 0, 0) : v(s.pf), later ? Vector3d(0, 0, 0) : v(s.af), v(s.po), v(s.ao), s.pa, s.aa, s.rest, s.max_time, log);
    if (later) {e->SetBodyPosCycleFrequency(v(s.pf)); e->SetBodyAngCycleFrequency(v(s.af));}
    return e;
  }
  if (s.truth == 1) {
    return std::make_shared<TruthEngineSpline>(s.poses, s.angles, sv(s.pe), sv(s.ae), s.rest, s.max_time, log);
  }
  return std::make_shared<TruthEngineSmoother>(s.times, s.poses, s.angles, sv(s.pe), sv(s.ae), s.rest, s.max_time, 1000.0, log);
}

static void rot(Rng & r, double a, double * q)
{
  Quaterniond z = rexp(Vector3d(r.u(-a, a), r.u(-a, a), r.u(-a, a)));
  q[0] = z.w(); q[1] = z.x(); q[2] = z.y(); q[3] = z.z();
}

// errors: probability that a sensor has errors
void gen_scen(Rng & r, Plan & p, double errors, bool app)
{
  auto & x = p.cfg.extra;
  int truth = r.p(0.55) ? 0 : r.p(0.7) ? 1 : 2;
  double max_time = r.u(1.0, app ? 3.0 : 6.0);
  if (r.p(0.3)) {max_time = std::floor(max_time) + 1;}
  double rest = truth == 2 ? 0 : r.p(0.3) ? 0 : r.p(0.1) ? max_time * r.u(1, 2) : r.u(0.05, max_time * 0.6);
  x["truth"] = truth; x["max_time"] = max_time; x["rest"] = rest; x["rng"] = r.p(0.2) ? std::floor(r.lu(1e6, 4294967295.0)) : r.i(1, 1000000);
  for (int i = 0; i < 3; ++i) {
    std::string n = std::to_string(i);
    x["pf" + n] = r.p(0.2) ? 0 : r.u(0.05, 0.7); x["af" + n] = r.p(0.2) ? 0 : r.u(0.05, 0.6);
    x["po" + n] = r.p(0.5) ? 0 : r.u(-2, 2); x["ao" + n] = r.p(0.5) ? 0 : r.u(-0.5, 0.5);
    x["pe" + n] = r.p(0.6) ? 0 : r.lu(1e-3, 0.2); x["ae" + n] = r.p(0.6) ? 0 : r.lu(1e-3, 0.05);
  }
  x["pa"] = r.u(0, 2); x["aa"] = r.u(0, 0.8);
  int n = r.i(4, 8);
  x["np"] = n;
  x["surplus"] = r.p(0.85) ? 0 : r.p(0.5) ? r.i(1, 7) : -r.i(1, 7);
  for (int i = 0; i < n; ++i) {
    x["t" + std::to_string(i)] = max_time * i / (n - 1) * (truth == 2 ? r.u(0.999, 1.1) : 1);
    for (int k = 0; k < 3; ++k) {
      x[fmt("sp%d_%d", i, k)] = i == 0 && r.p(0.6) ? 0 : r.u(-1.5, 1.5);
      x[fmt("sa%d_%d", i, k)] = i == 0 && r.p(0.6) ? 0 : r.u(-0.5, 0.5);
    }
  }
  if (truth == 2) {
    for (int i = 0; i < n; ++i) {x["t" + std::to_string(i)] = (max_time + 1.2) * i / (n - 1);}
  }
  int ni = r.i(0, 2), nc = r.i(0, 2), ng = r.i(0, 1);
  if (ni + nc + ng == 0) {ni = 1;}
  int stat = 0;
  // trackers of different length, and no boards, whose trackers are of a length of their own
  int lengths = r.p(0.15) ? r.i(1, 2) : 0;
  if (lengths) {nc = 2;}
  for (int q = 0; q < ni + nc + ng; ++q) {
    SimSpec s;
    s.kind = q < ni ? SimSpec::IMU_ : q < ni + nc ? SimSpec::CAM_ : SimSpec::GPS_;
    s.no_errors = !r.p(errors);
    s.rate = s.kind == SimSpec::IMU_ ? r.u(20, app ? 60 : 200) : s.kind == SimSpec::GPS_ ? r.u(1, app ? 10 : 60) : r.u(2, 12);
    if (r.p(0.3)) {s.rate = std::floor(s.rate);}
    s.log_rate = r.p(0.2) ? 0 : r.p(0.6) ? 1000 : r.u(1, 20);
    s.time_error = r.p(0.5) ? 0 : r.lu(1e-6, 1e-3);
    s.ext = r.p(0.4); s.intr = s.kind == SimSpec::IMU_ && r.p(0.4);
    for (double & v : s.pos) {v = r.p(0.2) ? 0 : r.u(-0.5, 0.5);}
    if (s.kind != SimSpec::GPS_) {rot(r, 0.8, s.ang);}
    if (s.kind == SimSpec::CAM_ && r.p(0.5)) {const double c[4] = {-0.5, 0.5, -0.5, 0.5}; std::copy(c, c + 4, s.ang);}
    double pe = r.p(0.3) ? 0 : r.lu(1e-4, 0.05), ae = r.p(0.3) ? 0 : r.lu(1e-4, 0.05);
    for (int k = 0; k < 3; ++k) {s.pos_err[k] = pe * r.u(0.5, 2); s.ang_err[k] = ae * r.u(0.5, 2);}
    double va = r.lu(1e-4, 0.1);
    for (double & v : s.var) {v = app ? va * r.u(0.5, 2) : va;}
    if (s.kind == SimSpec::IMU_) {
      double a = r.lu(1e-4, 0.1), w = r.lu(1e-5, 0.02);
      for (int k = 0; k < 3; ++k) {
        s.ba[k] = r.p(0.5) ? 0 : r.u(-0.2, 0.2); s.bg[k] = r.p(0.5) ? 0 : r.u(-0.05, 0.05);
        s.ae[k] = a * r.u(0.5, 2); s.we[k] = w * r.u(0.5, 2);
        s.bae[k] = r.p(0.5) ? 0 : r.lu(1e-4, 0.1); s.bge[k] = r.p(0.5) ? 0 : r.lu(1e-5, 0.01);
      }
    } else if (s.kind == SimSpec::CAM_) {
      s.intrin[0] = r.u(0.003, 0.012); s.intrin[1] = r.p(0.6) ? s.intrin[0] : r.u(0.003, 0.012);
      if (r.p(0.5)) {s.intrin[2] = r.u(-0.1, 0.1); s.intrin[3] = r.u(-0.02, 0.02); s.intrin[4] = r.u(-0.01, 0.01); s.intrin[5] = r.u(-0.01, 0.01);}
      if (r.p(0.3)) {s.intrin[6] = r.i(200, 1920); s.intrin[7] = r.i(200, 1080);}
      s.tracker = r.p(0.7); s.features = r.p(0.4) ? 0 : r.i(1, app ? 60 : 120);
      s.min_track = r.i(1, 4); s.max_track = s.min_track + r.i(0, 10);
      s.trk_no_errors = s.no_errors || r.p(0.4); s.px_error = r.u(0.5, 2);
      s.fid = r.p(0.6) ? ++stat : 0; s.fid_no_errors = s.no_errors || r.p(0.3); s.fid_ext = r.p(0.4);
      for (double & v : s.fpos) {v = r.u(-4, 4);}
      rot(r, 1.5, s.fang);
      if (lengths) {
        s.tracker = 1; s.fid = 0; s.min_track = r.i(1, 2);
        s.max_track = (q - ni) % 2 == lengths - 1 ? s.min_track + r.i(0, 1) : r.i(6, 12);
      }
      double fp = r.lu(1e-3, 0.1), fa = r.lu(1e-3, 0.1), t = r.lu(1e-3, 0.2), rr = r.lu(1e-3, 0.05);
      for (int k = 0; k < 3; ++k) {s.fpe[k] = r.p(0.3) ? 0 : fp; s.fae[k] = fa * r.u(0.5, 2); s.te[k] = t * r.u(0.5, 2); s.re[k] = rr * r.u(0.5, 2);}
    } else {
      double g = r.p(0.1) ? r.lu(3, 300) : r.lu(1e-3, 3);
      for (double & v : s.lla_err) {v = g * r.u(0.5, 2);}
    }
    Op o;
    o.k = 'S'; o.s = q;
    s.store(o);
    p.ops.push_back(o);
  }
  p.sim_time = max_time;
}

// ------------------------------------------------------------------ configuration file
static std::string num(double v) {char b[40]; std::snprintf(b, sizeof b, "%.17g", v); std::string s = b; if (s.find_first_of(".en") == std::string::npos) {s += ".0";} return s;}
static std::string lst(const double * d, int n)
{
  std::string o = "[";
  for (int i = 0; i < n; ++i) {o += (i ? ", " : "") + num(d[i]);}
  return o + "]";
}
static std::string lst(const std::vector<double> & v) {return lst(v.data(), static_cast<int>(v.size()));}

std::string scen_yaml(const Plan & p, const Scen & s)
{
  std::string o, I = "        ";
  auto kv = [&](int ind, const char * k, const std::string & v) {o += std::string(static_cast<size_t>(ind) * 4, ' ') + k + ": " + v + "\n";};
  auto b = [](int v) {return std::string(v ? "true" : "false");};
  o += "/EkfCalNode:\n    ros__parameters:\n";
  kv(2, "debug_log_level", std::to_string(static_cast<int>(xget(p, "level"))));
  kv(2, "data_log_rate", num(xget(p, "log_rate", 10)));
  kv(2, "augmenting_type", std::to_string(p.cfg.aug));
  kv(2, "augmenting_delta_time", num(p.cfg.aug_dt));
  kv(2, "augmenting_pos_error", num(p.cfg.aug_pos));
  kv(2, "augmenting_ang_error", num(p.cfg.aug_ang));
  o += I + "process_noise:\n";
  kv(3, "pos", num(p.cfg.pn[0])); kv(3, "vel", num(p.cfg.pn[3])); kv(3, "acc", num(p.cfg.pn[6]));
  kv(3, "ang_pos", num(p.cfg.pn[9])); kv(3, "ang_vel", num(p.cfg.pn[12])); kv(3, "ang_acc", num(p.cfg.pn[15]));
  double z3[3] = {xget(p, "b0"), xget(p, "b1"), xget(p, "b2")}, one[4] = {1, 0, 0, 0};
  kv(2, "pos_b_in_l", lst(z3, 3)); kv(2, "ang_b_to_l", lst(one, 4));
  kv(2, "pos_e_in_g", lst(p.cfg.lla, 3)); kv(2, "ang_l_to_e", num(p.cfg.heading));
  kv(2, "gps_init_type", std::to_string(p.cfg.gps_init));
  kv(2, "gps_init_baseline_dist", num(p.cfg.baseline));
  kv(2, "gps_init_pos_thresh", num(p.cfg.pos_th)); kv(2, "gps_init_ang_thresh", num(p.cfg.ang_th));
  kv(2, "motion_detection_chi_squared", num(p.cfg.chi2));
  kv(2, "imu_noise_scale_factor", num(p.cfg.scale));
  kv(2, "use_root_covariance", b(p.cfg.root)); kv(2, "use_first_estimate_jacobian", b(p.cfg.fej));
  o += I + "sim_params:\n";
  kv(3, "seed", std::to_string(s.seed)); kv(3, "max_time", num(s.max_time)); kv(3, "stationary_time", num(s.rest));
  const char * tt[3] = {"\"cyclic\"", "\"spline\"", "\"smoother\""};
  kv(3, "truth_type", tt[s.truth]);
  kv(3, "pos_frequency", lst(s.pf, 3)); kv(3, "ang_frequency", lst(s.af, 3));
  kv(3, "pos_offset", lst(s.po, 3)); kv(3, "ang_offset", lst(s.ao, 3));
  kv(3, "pos_amplitude", num(s.pa)); kv(3, "ang_amplitude", num(s.aa));
  kv(3, "times", lst(s.times)); kv(3, "positions", lst(s.poses)); kv(3, "angles", lst(s.angles));
  kv(3, "pos_errors", lst(s.pe, 3)); kv(3, "ang_errors", lst(s.ae, 3));
  double e0[3] = {xget(p, "be"), xget(p, "be"), xget(p, "be")}, e1[3] = {xget(p, "bae"), xget(p, "bae"), 0}, e2[3] = {xget(p, "ge"), xget(p, "ge"), xget(p, "ge")};
  kv(3, "pos_b_in_l_error", lst(e0, 3)); kv(3, "ang_b_to_l_error", lst(e1, 3));
  kv(3, "pos_e_in_g_error", lst(e2, 3)); kv(3, "ang_l_to_e_error", num(xget(p, "he")));
  std::string li[5], bo[5];
  const char * sec[5] = {"imu", "camera", "tracker", "fiducial", "gps"};
  auto add = [&](int k, const std::string & n) {li[k] += (li[k].empty() ? "\"" : ", \"") + n + "\""; };
  for (size_t q = 0; q < s.sensors.size(); ++q) {
    const SimSpec & z = s.sensors[q];
    std::string n = "s" + std::to_string(q), keep;
    std::swap(o, keep);
    o += std::string(12, ' ') + n + ":\n";
    kv(4, "rate", num(z.rate)); kv(4, "data_log_rate", num(z.log_rate)); kv(4, "topic", "\"/" + n + "\"");
    kv(4, "is_extrinsic", b(z.ext));
    double st = xget(p, "stab");
    if (st > 0 && z.kind != SimSpec::GPS_) {kv(4, "pos_stability", num(st)); kv(4, "ang_stability", num(st * 2));}
    if (st > 0 && z.kind == SimSpec::IMU_) {kv(4, "acc_bias_stability", num(st * 3)); kv(4, "omg_bias_stability", num(st * 5));}
    if (z.kind == SimSpec::IMU_) {
      kv(4, "is_intrinsic", b(z.intr)); kv(4, "variance", lst(z.var, 12));
      kv(4, "pos_i_in_b", lst(z.pos, 3)); kv(4, "ang_i_to_b", lst(z.ang, 4));
      kv(4, "acc_bias", lst(z.ba, 3)); kv(4, "omg_bias", lst(z.bg, 3));
    } else if (z.kind == SimSpec::CAM_) {
      kv(4, "variance", lst(z.var, 6)); kv(4, "pos_c_in_b", lst(z.pos, 3)); kv(4, "ang_c_to_b", lst(z.ang, 4));
      if (z.tracker) {kv(4, "tracker", "\"t" + n + "\"");}
      if (z.fid) {kv(4, "fiducial", "\"f" + n + "\"");}
      o += std::string(16, ' ') + "intrinsics:\n";
      const char * nm[9] = {"f_x", "f_y", "k_1", "k_2", "p_1", "p_2", "width", "height", "pixel_size"};
      for (int i = 0; i < 9; ++i) {kv(5, nm[i], num(z.intrin[i]));}
    } else {
      kv(4, "variance", lst(z.var, 3)); kv(4, "pos_a_in_b", lst(z.pos, 3)); kv(4, "pos_stability", num(st > 0 ? st : 1e-9));
    }
    o += std::string(16, ' ') + "sim_params:\n";
    kv(5, "no_errors", b(z.no_errors)); kv(5, "time_error", num(z.time_error));
    if (z.kind == SimSpec::GPS_) {kv(5, "lla_error", lst(z.lla_err, 3)); kv(5, "pos_a_in_b_error", lst(z.pos_err, 3));} else {
      kv(5, "pos_error", lst(z.pos_err, 3)); kv(5, "ang_error", lst(z.ang_err, 3));
    }
    if (z.kind == SimSpec::IMU_) {
      kv(5, "acc_error", lst(z.ae, 3)); kv(5, "omg_error", lst(z.we, 3));
      kv(5, "acc_bias_error", lst(z.bae, 3)); kv(5, "omg_bias_error", lst(z.bge, 3));
    }
    int k = z.kind == SimSpec::IMU_ ? 0 : z.kind == SimSpec::CAM_ ? 1 : 4;
    add(k, n);
    bo[k] += o;
    o.clear();
    if (z.kind == SimSpec::CAM_ && z.tracker) {
      add(2, "t" + n);
      o += std::string(12, ' ') + "t" + n + ":\n";
      kv(4, "pixel_error", num(z.px_error)); kv(4, "min_track_length", std::to_string(z.min_track));
      kv(4, "max_track_length", std::to_string(z.max_track));
      o += std::string(16, ' ') + "sim_params:\n";
      kv(5, "feature_count", std::to_string(z.features)); kv(5, "no_errors", b(z.trk_no_errors));
      bo[2] += o; o.clear();
    }
    if (z.kind == SimSpec::CAM_ && z.fid) {
      add(3, "f" + n);
      o += std::string(12, ' ') + "f" + n + ":\n";
      kv(4, "fiducial_type", "1"); kv(4, "squares_x", "5"); kv(4, "squares_y", "7");
      kv(4, "square_length", "0.04"); kv(4, "marker_length", "0.02"); kv(4, "id", std::to_string(z.fid));
      kv(4, "pos_f_in_l", lst(z.fpos, 3)); kv(4, "ang_f_to_l", lst(z.fang, 4)); kv(4, "variance", lst(z.var, 6));
      kv(4, "is_extrinsic", b(z.fid_ext));
      o += std::string(16, ' ') + "sim_params:\n";
      kv(5, "no_errors", b(z.fid_no_errors)); kv(5, "pos_error", lst(z.fpe, 3)); kv(5, "ang_error", lst(z.fae, 3));
      kv(5, "t_vec_error", lst(z.te, 3)); kv(5, "r_vec_error", lst(z.re, 3));
      bo[3] += o; o.clear();
    }
    std::swap(o, keep);
  }
  for (int k = 0; k < 5; ++k) {o += I + sec[k] + "_list: [" + li[k] + "]\n";}
  for (int k = 0; k < 5; ++k) {o += I + sec[k] + ":" + (bo[k].empty() ? " {}\n" : "\n" + bo[k]);}
  return o;
}
