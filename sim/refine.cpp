// One-step refinement of the filter against the reference model, plus state invariants.
#include <stdarg.h>

#include <algorithm>
#include <fstream>
#include <limits>

#include "checks.hpp"
#include "exec.hpp"
#include "seam.hpp"
#include "world.hpp"

std::string fmt(const char * f, ...)
{
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

bool fail(RunOut & out, int op, const std::string & cls, const std::string & what)
{
  if (!out.viol) {out.viol = true; out.op = op; out.cls = cls; out.what = what;}
  return false;
}

void mix_str(uint64_t & h, const std::string & s) {for (char c : s) {h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;}}

uint64_t hash_obs(const Obs & o)
{
  uint64_t h = 1469598103934665603ull;
  mixd(h, o.t); mix(h, o.size);
  VectorXd f = flatten(o.st);
  for (Eigen::Index i = 0; i < f.size(); ++i) {mixd(h, f(i));}
  for (Eigen::Index i = 0; i < o.raw.size(); ++i) {mixd(h, o.raw.data()[i]);}
  mix(h, static_cast<uint64_t>(o.grav)); mix(h, static_cast<uint64_t>(o.lla));
  for (int i = 0; i < 3; ++i) {mixd(h, o.ref_lla(i));}
  mixd(h, o.ref_ang);
  return h;
}

// ------------------------------------------------------------------ helpers
static bool same_bits(const Obs & a, const Obs & b)
{
  return hash_obs(a) == hash_obs(b);
}

// error-state difference got - exp, with magnitudes of the values
struct Diff {VectorXd d, mag; std::vector<std::string> name;};

static bool same_structure(const State & a, const State & b, std::string & why)
{
  auto keys = [&](auto & x, auto & y, const char * n) {
      if (x.size() != y.size()) {why = std::string(n) + " count"; return false;}
      auto i = x.begin(); auto j = y.begin();
      for (; i != x.end(); ++i, ++j) {
        if (i->first != j->first) {why = std::string(n) + " identifiers"; return false;}
      }
      return true;
    };
  if (!keys(a.imu_states, b.imu_states, "IMU") || !keys(a.gps_states, b.gps_states, "GPS") ||
    !keys(a.cam_states, b.cam_states, "camera") || !keys(a.fid_states, b.fid_states, "fiducial"))
  {return false;}
  std::vector<std::pair<unsigned, const AugState *>> p, q;
  for (auto & e : a.aug_states) {for (auto & s : e.second) {p.emplace_back(e.first, &s);}}
  for (auto & e : b.aug_states) {for (auto & s : e.second) {q.emplace_back(e.first, &s);}}
  if (p.size() != q.size()) {
    why = fmt("window holds %zu poses, expected %zu", p.size(), q.size());
    return false;
  }
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i].first != q[i].first || p[i].second->frame_id != q[i].second->frame_id ||
      p[i].second->time != q[i].second->time)
    {
      why = fmt(
        "window pose %zu is (camera %u frame %d t=%.9g), expected (camera %u frame %d t=%.9g)", i,
        p[i].first, static_cast<int>(p[i].second->frame_id), p[i].second->time, q[i].first,
        static_cast<int>(q[i].second->frame_id), q[i].second->time);
      return false;
    }
  }
  return true;
}

static Diff diff(const State & g, const State & e)
{
  std::vector<double> d, m;
  Diff o;
  auto v3 = [&](const Vector3d & x, const Vector3d & y, const std::string & n) {
      for (int i = 0; i < 3; ++i) {
        d.push_back(x(i) - y(i)); m.push_back(std::max(std::abs(x(i)), std::abs(y(i))));
        o.name.push_back(n);
      }
    };
  auto q3 = [&](const Quaterniond & x, const Quaterniond & y, const std::string & n) {
      Vector3d v = rlog(y.conjugate() * x);
      for (int i = 0; i < 3; ++i) {d.push_back(v(i)); m.push_back(1); o.name.push_back(n);}
    };
  const BodyState & a = g.body_state, & b = e.body_state;
  v3(a.pos_b_in_l, b.pos_b_in_l, "body position"); v3(a.vel_b_in_l, b.vel_b_in_l, "body velocity");
  v3(a.acc_b_in_l, b.acc_b_in_l, "body acceleration");
  q3(a.ang_b_to_l, b.ang_b_to_l, "body orientation");
  v3(a.ang_vel_b_in_l, b.ang_vel_b_in_l, "body angular rate");
  v3(a.ang_acc_b_in_l, b.ang_acc_b_in_l, "body angular acceleration");
  auto num = [](unsigned i) {return std::to_string(i);};
  for (auto & x : g.imu_states) {
    auto & y = e.imu_states.at(x.first);
    if (y.GetIsExtrinsic()) {
      v3(x.second.pos_i_in_b, y.pos_i_in_b, "IMU " + num(x.first) + " position");
      q3(x.second.ang_i_to_b, y.ang_i_to_b, "IMU " + num(x.first) + " orientation");
    }
    if (y.GetIsIntrinsic()) {
      v3(x.second.acc_bias, y.acc_bias, "IMU " + num(x.first) + " acceleration bias");
      v3(x.second.omg_bias, y.omg_bias, "IMU " + num(x.first) + " rate bias");
    }
  }
  for (auto & x : g.gps_states) {
    auto & y = e.gps_states.at(x.first);
    if (y.GetIsExtrinsic()) {v3(x.second.pos_a_in_b, y.pos_a_in_b, "GPS antenna position");}
  }
  for (auto & x : g.cam_states) {
    auto & y = e.cam_states.at(x.first);
    if (y.GetIsExtrinsic()) {
      v3(x.second.pos_c_in_b, y.pos_c_in_b, "camera position");
      q3(x.second.ang_c_to_b, y.ang_c_to_b, "camera orientation");
    }
  }
  for (auto & x : g.fid_states) {
    auto & y = e.fid_states.at(x.first);
    if (y.GetIsExtrinsic()) {
      v3(x.second.pos_f_in_l, y.pos_f_in_l, "fiducial position");
      q3(x.second.ang_f_to_l, y.ang_f_to_l, "fiducial orientation");
    }
  }
  for (auto & x : g.aug_states) {
    auto it = e.aug_states.find(x.first);
    for (size_t i = 0; i < x.second.size(); ++i) {
      v3(x.second[i].pos_b_in_l, it->second[i].pos_b_in_l, "window position");
      q3(x.second[i].ang_b_to_l, it->second[i].ang_b_to_l, "window orientation");
    }
  }
  o.d = Eigen::Map<VectorXd>(d.data(), static_cast<Eigen::Index>(d.size()));
  o.mag = Eigen::Map<VectorXd>(m.data(), static_cast<Eigen::Index>(m.size()));
  return o;
}

// The state as a vector follows the same layout, and setting it from that vector changes nothing but the window.
static std::string vector_error(const Obs & o)
{
  if (o.st.GetStateSize() != o.size) {return fmt("the state says its size is %u, the filter %u", o.st.GetStateSize(), o.size);}
  VectorXd v = o.st.ToVector();
  if (v.size() != static_cast<Eigen::Index>(o.size)) {return fmt("the state vector has %ld entries, the filter %u", static_cast<long>(v.size()), o.size);}
  if (!v.allFinite() || !flatten(o.st).allFinite()) {return "";}
  State zero = o.st, set = o.st;
  auto wipe = [](State & s) {
      Quaterniond one(1, 0, 0, 0);
      Vector3d n = Vector3d::Zero();
      BodyState & b = s.body_state;
      b.pos_b_in_l = n; b.vel_b_in_l = n; b.acc_b_in_l = n; b.ang_b_to_l = one; b.ang_vel_b_in_l = n; b.ang_acc_b_in_l = n;
      for (auto & x : s.imu_states) {
        if (x.second.GetIsExtrinsic()) {x.second.pos_i_in_b = n; x.second.ang_i_to_b = one;}
        if (x.second.GetIsIntrinsic()) {x.second.acc_bias = n; x.second.omg_bias = n;}
      }
      for (auto & x : s.gps_states) {if (x.second.GetIsExtrinsic()) {x.second.pos_a_in_b = n;}}
      for (auto & x : s.cam_states) {if (x.second.GetIsExtrinsic()) {x.second.pos_c_in_b = n; x.second.ang_c_to_b = one;}}
      for (auto & x : s.fid_states) {if (x.second.GetIsExtrinsic()) {x.second.pos_f_in_l = n; x.second.ang_f_to_l = one;}}
      for (auto & x : s.aug_states) {for (auto & y : x.second) {y.pos_b_in_l = n; y.ang_b_to_l = one;}}
    };
  wipe(zero);
  Diff d = diff(o.st, zero);
  auto far_off = [](double a, double b) {return !(std::abs(a - b) <= 1e-6 * (1 + std::abs(b)));};
  for (Eigen::Index i = 0; i < v.size() && i < d.d.size(); ++i) {
    if (far_off(v(i), d.d(i)) && !(d.name[static_cast<size_t>(i)].find("orientation") != std::string::npos && std::abs(std::abs(v(i)) - std::abs(d.d(i))) < 1e-3)) {
      return fmt("entry %ld of the state vector is %.9g, the %s there is %.9g", static_cast<long>(i), v(i), d.name[static_cast<size_t>(i)].c_str(), d.d(i));
    }
  }
  VectorXd fixed = flatten(o.st);
  wipe(set);
  for (auto & x : o.st.aug_states) {set.aug_states[x.first] = x.second;}
  set.SetState(v);
  d = diff(set, o.st);
  for (Eigen::Index i = 0; i < d.d.size(); ++i) {
    if (!(std::abs(d.d(i)) <= 1e-6 * (1 + d.mag(i)))) {
      return fmt("setting the state from its own vector changes the %s by %.3g", d.name[static_cast<size_t>(i)].c_str(), d.d(i));
    }
  }
  if (flatten(set).size() != fixed.size()) {return "setting the state from its own vector changes its sensors";}
  return "";
}

// Layout invariants, judged from what the filter reports about itself.
std::string layout_error(const Obs & o, bool any_reg)
{
  if (o.raw.rows() != static_cast<Eigen::Index>(o.size) ||
    o.raw.cols() != static_cast<Eigen::Index>(o.size))
  {
    return fmt(
      "covariance is %ldx%ld, state size %u", static_cast<long>(o.raw.rows()),
      static_cast<long>(o.raw.cols()), o.size);
  }
  unsigned i = 18;
  auto at = [&](const char * n, long got, std::string & e) {
      if (e.empty() && got != static_cast<long>(i)) {
        e = fmt("%s index is %ld, expected %u", n, got, i);
      }
    };
  std::string e;
  unsigned s0 = i;
  auto start = [&](const char * n, unsigned got, std::string & err) {
      if (any_reg && err.empty() && got != i) {err = fmt("%s start is %u, expected %u", n, got, i);}
    };
  start("IMU section", o.imu_start, e);
  for (auto & x : o.st.imu_states) {
    bool ex = x.second.GetIsExtrinsic(), in = x.second.GetIsIntrinsic();
    if (ex || in) {at("IMU", x.second.index, e);}
    if (ex) {at("IMU extrinsic", x.second.index_extrinsic, e); i += 6;}
    if (in) {at("IMU intrinsic", x.second.index_intrinsic, e); i += 6;}
    if (e.empty() && x.second.size != static_cast<unsigned>((ex ? 6 : 0) + (in ? 6 : 0))) {
      e = "IMU state size does not match its flags";
    }
  }
  if (e.empty() && o.imu_size != i - s0) {e = fmt("IMU section size is %u, expected %u", o.imu_size, i - s0);}
  s0 = i; start("GPS section", o.gps_start, e);
  for (auto & x : o.st.gps_states) {
    if (x.second.GetIsExtrinsic()) {at("GPS", x.second.index, e); i += 3;}
  }
  if (e.empty() && o.gps_size != i - s0) {e = fmt("GPS section size is %u, expected %u", o.gps_size, i - s0);}
  s0 = i; start("camera section", o.cam_start, e);
  for (auto & x : o.st.cam_states) {
    if (x.second.GetIsExtrinsic()) {at("camera", x.second.index, e); i += 6;}
  }
  if (e.empty() && o.cam_size != i - s0) {e = fmt("camera section size is %u, expected %u", o.cam_size, i - s0);}
  start("fiducial section", o.fid_start, e);
  for (auto & x : o.st.fid_states) {
    if (x.second.GetIsExtrinsic()) {at("fiducial", x.second.index, e); i += 6;}
  }
  s0 = i; start("window section", o.aug_start, e);
  for (auto & x : o.st.aug_states) {
    for (auto & a : x.second) {at("window pose", a.index, e); i += 6;}
  }
  if (e.empty() && o.aug_size != i - s0) {e = fmt("window section size is %u, expected %u", o.aug_size, i - s0);}
  if (e.empty() && o.size != i) {e = fmt("state size is %u, the parts add up to %u", o.size, i);}
  return e;
}

std::string finite_error(const Obs & o)
{
  VectorXd f = flatten(o.st);
  if (!f.allFinite()) {return "an estimate is not finite";}
  std::string e;
  auto q = [&](const Quaterniond & x, const char * n) {
      if (e.empty() && std::abs(x.norm() - 1) > 1e-9) {e = fmt("%s quaternion has norm %.12g", n, x.norm());}
    };
  q(o.st.body_state.ang_b_to_l, "body");
  for (auto & x : o.st.imu_states) {q(x.second.ang_i_to_b, "IMU");}
  for (auto & x : o.st.cam_states) {q(x.second.ang_c_to_b, "camera");}
  for (auto & x : o.st.fid_states) {q(x.second.ang_f_to_l, "fiducial");}
  for (auto & x : o.st.aug_states) {for (auto & a : x.second) {q(a.ang_b_to_l, "window");}}
  if (!std::isfinite(o.t)) {e = "filter time is not finite";}
  if (o.lla && (!o.ref_lla.allFinite() || !std::isfinite(o.ref_ang))) {e = "GPS reference is not finite";}
  return e;
}

std::string cov_error(const Obs & o, double slack)
{
  if (!o.raw.allFinite() || !o.P.allFinite()) {return "covariance is not finite";}
  Eigen::Index n = o.P.rows();
  if (o.P.cols() != n) {return "covariance is not square";}
  VectorXd s(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    if (o.P(i, i) < 0) {return fmt("variance %ld is %.6g", static_cast<long>(i), o.P(i, i));}
    s(i) = o.P(i, i) > 0 ? 1 / std::sqrt(o.P(i, i)) : 0;
  }
  MatrixXd C = s.asDiagonal() * o.P * s.asDiagonal();
  for (Eigen::Index i = 0; i < n; ++i) {
    for (Eigen::Index j = 0; j < i; ++j) {
      double a = std::abs(C(i, j) - C(j, i));
      if (a > 1e-7 + slack) {return fmt("covariance is not symmetric at (%ld,%ld): relative difference %.3g",
                 static_cast<long>(i), static_cast<long>(j), a);}
      if ((s(i) == 0 || s(j) == 0) && std::abs(o.P(i, j)) > 1e-12) {
        return "zero variance with a non-zero covariance";
      }
    }
  }
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(0.5 * (C + C.transpose()), Eigen::EigenvaluesOnly);
  double lo = es.eigenvalues()(0);
  if (lo < -1e-6 - slack) {return fmt("covariance is not positive semi-definite: normalised eigenvalue %.3g", lo);}
  return "";
}

static bool eq(const Vector3d & a, const Vector3d & b) {return a == b;}
static bool eq(const Quaterniond & a, const Quaterniond & b) {return a.coeffs() == b.coeffs();}

static std::string fixed_error(const State & a, const State & b, bool calibrated_too)
{
  std::string e;
  auto chk = [&](bool same, const std::string & n) {if (e.empty() && !same) {e = n + " changed";}};
  for (auto & x : a.imu_states) {
    auto it = b.imu_states.find(x.first);
    if (it == b.imu_states.end()) {continue;}
    if (!x.second.GetIsExtrinsic() || calibrated_too) {
      chk(eq(x.second.pos_i_in_b, it->second.pos_i_in_b) && eq(x.second.ang_i_to_b, it->second.ang_i_to_b),
        "IMU extrinsics");
    }
    if (!x.second.GetIsIntrinsic() || calibrated_too) {
      chk(eq(x.second.acc_bias, it->second.acc_bias) && eq(x.second.omg_bias, it->second.omg_bias),
        "IMU biases");
    }
    chk(x.second.pos_stability == it->second.pos_stability &&
      x.second.ang_stability == it->second.ang_stability &&
      x.second.acc_bias_stability == it->second.acc_bias_stability &&
      x.second.omg_bias_stability == it->second.omg_bias_stability, "IMU stability");
  }
  for (auto & x : a.gps_states) {
    auto it = b.gps_states.find(x.first);
    if (it == b.gps_states.end()) {continue;}
    if (!x.second.GetIsExtrinsic() || calibrated_too) {
      chk(eq(x.second.pos_a_in_b, it->second.pos_a_in_b), "GPS antenna position");
    }
  }
  for (auto & x : a.cam_states) {
    auto it = b.cam_states.find(x.first);
    if (it == b.cam_states.end()) {continue;}
    if (!x.second.GetIsExtrinsic() || calibrated_too) {
      chk(eq(x.second.pos_c_in_b, it->second.pos_c_in_b) && eq(x.second.ang_c_to_b, it->second.ang_c_to_b),
        "camera extrinsics");
    }
    const Intrinsics & k = x.second.intrinsics, & l = it->second.intrinsics;
    chk(k.f_x == l.f_x && k.f_y == l.f_y && k.k_1 == l.k_1 && k.k_2 == l.k_2 && k.p_1 == l.p_1 &&
      k.p_2 == l.p_2 && k.pixel_size == l.pixel_size && k.width == l.width && k.height == l.height,
      "camera intrinsics");
  }
  for (auto & x : a.fid_states) {
    auto it = b.fid_states.find(x.first);
    if (it == b.fid_states.end()) {continue;}
    if (!x.second.GetIsExtrinsic() || calibrated_too) {
      chk(eq(x.second.pos_f_in_l, it->second.pos_f_in_l) && eq(x.second.ang_f_to_l, it->second.ang_f_to_l),
        "fiducial pose");
    }
  }
  return e;
}

// Where the filter left the model's step; empty if nowhere (or if the model does not know).
std::string step_error(const Obs & post, const RefResult & r)
{
  if (!r.check_state || r.cond >= 1e9) {return "";}
  std::string why;
  if (!same_structure(post.st, r.exp.st, why)) {return why;}
  if (post.t != r.exp.t) {return fmt("filter time is %.17g, expected %.17g", post.t, r.exp.t);}
  Eigen::Index n = post.P.rows();
  if (n != r.exp.P.rows()) {return "state size";}
  Diff d = diff(post.st, r.exp.st);
  for (Eigen::Index i = 0; i < n; ++i) {
    double xt = r.xt.size() == n ? r.xt(i) : 0;
    double tol = (1e-8 + 1e-13 * r.cond) * xt + 1e-9 * (1 + d.mag(i));
    if (!(std::abs(d.d(i)) <= tol)) {
      return fmt("%s differs from the model by %.6g (%.3g tolerances)", d.name[static_cast<size_t>(i)].c_str(), d.d(i), std::abs(d.d(i)) / tol);
    }
  }
  for (Eigen::Index i = 0; i < n; ++i) {
    for (Eigen::Index j = 0; j < n; ++j) {
      double pe = r.pe.size() == n ? r.pe(i) * r.pe(j) : 0;
      double s = std::sqrt(std::max(0.0, r.exp.P(i, i)) * std::max(0.0, r.exp.P(j, j)));
      double tol = (1e-7 + 1e-14 * r.cond) * s + 1e-13 * static_cast<double>(n) * pe + 1e-18;
      if (!(std::abs(post.P(i, j) - r.exp.P(i, j)) <= tol)) {
        return fmt("covariance (%s, %s) is %.9g, model %.9g", d.name[static_cast<size_t>(i)].c_str(), d.name[static_cast<size_t>(j)].c_str(),
          post.P(i, j), r.exp.P(i, j));
      }
    }
  }
  return "";
}

// ------------------------------------------------------------------ log rows
struct LogFile
{
  size_t pos{0};             // bytes consumed
  size_t rows{0};
  size_t fields{0};
  double t_first{0};
  double t_max{0};
  bool any{false};
};

struct LogCheck
{
  std::string dir;
  std::map<std::string, LogFile> f;
  std::map<std::string, size_t> expect_rate;
};

static bool field_ok(double got, double exp, double tol)
{
  if (std::isnan(exp)) {return true;}
  double s = std::max(std::abs(got), std::abs(exp));
  return std::abs(got - exp) <= 1e-5 * s + 1e-9 + tol;
}

static bool row_matches(const std::vector<std::string> & c, const Row & r, std::string & why)
{
  if (c.size() != r.v.size() + 1) {
    why = fmt("row has %zu fields, expected %zu", c.size(), r.v.size() + 1);
    return false;
  }
  double t = std::strtod(c[0].c_str(), nullptr);
  double tt = r.kind == "tri" ? 6e-3 * std::abs(r.t) + 1e-9 : 6e-6 * std::abs(r.t) + 1e-9;
  if (std::abs(t - r.t) > tt) {why = fmt("row time %s, expected %.9g", c[0].c_str(), r.t); return false;}
  for (size_t i = 0; i < r.v.size(); ++i) {
    char * end = nullptr;
    double g = std::strtod(c[i + 1].c_str(), &end);
    if (end == c[i + 1].c_str() || *end) {why = "field is not a number: " + c[i + 1]; return false;}
    double tol = i < r.tol.size() ? r.tol[i] : 0;
    if (!field_ok(g, r.v[i], tol)) {
      why = fmt("field %zu is %s, expected %.9g", i + 1, c[i + 1].c_str(), r.v[i]);
      return false;
    }
  }
  return true;
}

// ------------------------------------------------------------------ the run
void run_refine(const Plan & p, const std::string & dir, RunOut & out)
{
  const Cfg & c = p.cfg;
  const std::string & P = p.prop;
  World w(c, dir);
  Ref ref(c);
  Obs pre = w.snap();
  bool suspect = false, any_reg = false;
  double reach = 1;
  std::map<std::string, LogFile> logs;
  std::map<int, State> reg_state;
  const bool do_logs = P == "C13";
  auto E = [&](const char * id) {out.cnt[std::string("eval.") + id] += 1;};
  const bool gps_truth = c.extra.count("true_heading") != 0;
  for (int k = 0; k < static_cast<int>(p.ops.size()); ++k) {
    const Op & op = p.ops[static_cast<size_t>(k)];
    if (!w.possible(op)) {out.cnt["skipped"] += 1; continue;}
    out.op = k;
    out.cnt["ops"] += 1;
    if (op.tag) {out.cnt[std::string("fault.") + fault_names[op.tag]] += 1;}
    *g_progress = k;
    if (op.k == 'G' && op.d.size() >= 15) {
      // the local trajectory the fix belongs to
      w.ekf->m_state.body_state.pos_b_in_l = Vector3d(op.d[12], op.d[13], op.d[14]);
      pre = w.snap();
    }
    w.apply(op);
    if (op.k == 'A') {pre = w.snap(); continue;}
    if (op.k == 'M' || op.k == 'F' || op.k == 'X') {continue;}
    Obs post = w.snap();
    mix(out.hash, hash_obs(post));
    unsigned id = op.s >= 0 ? w.id_of(op.s) : 0;
    RefResult r = ref.step(pre, op, id);
    if (op.k == 'R') {any_reg = true;}
    // ---- abstract state reached
    {
      uint64_t h = 7;
      mix(h, static_cast<uint64_t>(op.k)); mix(h, static_cast<uint64_t>(op.tag));
      mix(h, static_cast<uint64_t>(c.root * 2 + c.fej)); mix(h, static_cast<uint64_t>(c.aug));
      mix(h, static_cast<uint64_t>(post.grav * 2 + post.lla));
      mix(h, r.predicted * 1ull + r.window_changed * 2 + r.msckf * 4 + r.fiducial * 8 + r.gps_used * 16 +
        r.gps_multi * 32 + r.stationary * 64 + r.moving * 128 + r.kalman * 256 + r.registered * 512 +
        r.refused * 1024);
      mix(h, post.st.imu_states.size() * 64 + post.st.gps_states.size() * 16 +
        post.st.cam_states.size() * 4 + post.st.fid_states.size());
      mix(h, std::min<unsigned>(post.aug_size / 6, 8));
      mix(h, static_cast<uint64_t>(post.t > pre.t));
      out.states.insert(h);
    }
    bool alone = post.t == pre.t || op.k == 'P';   // nothing but the update, or nothing but the prediction
    // ---- C01
    if (P == "C01") {
      E("C01");
      if (post.t != r.exp.t) {
        fail(out, k, "time", fmt("after op %d (%c) filter time is %.17g, expected %.17g", k, op.k, post.t, r.exp.t));
        return;
      }
      if (post.t < pre.t) {fail(out, k, "time", "filter time ran backwards"); return;}
      if (op.k == 'P' && op.t < pre.t && !same_bits(pre, post)) {
        fail(out, k, "past", fmt("prediction to %.17g in the past of %.17g changed the filter", op.t, pre.t));
        return;
      }
      if (op.k != 'R' && op.k != 'P' && post.t == pre.t && op.t < pre.t) {out.cnt["probe.late_message"] += 1;}
    }
    // ---- C02
    if (P == "C02") {
      E("C02");
      std::string e = layout_error(post, any_reg);
      if (e.empty()) {e = vector_error(post);}
      if (!e.empty()) {fail(out, k, "layout", fmt("after op %d (%c): ", k, op.k) + e); return;}
    }
    if (post.raw.rows() != static_cast<Eigen::Index>(post.size)) {return;}
    // An update whose innovation cannot be inverted in double precision: the filter has diverged on
    // grossly wrong values.  Nothing is promised about the numbers from here on.
    reach = std::max(reach, r.cond);      // rounding met so far
    {
      double wn = post.st.body_state.ang_vel_b_in_l.norm(), pn = post.st.body_state.pos_b_in_l.norm();
      bool gone = P == "C04" ? reach > 1e13 || wn > 1e5 : P == "C03" ? reach > 1e9 || wn > 3e3 || pn > 1e5 :
        reach > 1e9 || wn > 3e3 || pn > 1e5;
      if (gone && P != "C01" && P != "C02" && P != "C08" && P != "C20") {out.cnt["diverged"] += 1; return;}
    }
    // ---- C04
    if (P == "C04") {
      E("C04");
      std::string e = finite_error(post);
      if (!e.empty()) {fail(out, k, "finite", fmt("after op %d (%c): ", k, op.k) + e); return;}
    }
    if (!flatten(post.st).allFinite() || !post.P.allFinite()) {
      if (P == "C03") {fail(out, k, "finite", fmt("after op %d (%c): not finite", k, op.k));}
      return;
    }
    // ---- C03
    if (P == "C03") {
      E("C03");
      std::string e = cov_error(post, 1e-14 * reach);
      if (!e.empty()) {fail(out, k, "covariance", fmt("after op %d (%c): ", k, op.k) + e); return;}
      bool layout_ok = layout_error(post, any_reg).empty();
      if (r.kalman && r.check_state && layout_ok && !(r.moving && r.window_changed) && r.Ppred.rows() == post.P.rows() && r.cond < 1e10) {
        out.cnt["eval.C03.variance"] += 1;
        for (Eigen::Index i = 0; i < post.P.rows(); ++i) {
          double b = r.Ppred(i, i), pe = r.pe.size() == post.P.rows() ? r.pe(i) : 0;
          if (post.P(i, i) > b * (1 + 1e-7) + 1e-12 * pe * pe + 1e-15) {
            fail(out, k, "variance", fmt(
                "after op %d (%c): variance %ld is %.9g, prediction gave %.9g", k, op.k,
                static_cast<long>(i), post.P(i, i), b));
            return;
          }
        }
      }
    }
    // ---- C08
    if (P == "C08") {
      E("C08");
      bool all = op.k == 'P' || op.k == 'R' || op.k == 'D' || (r.check_state && r.check_flags && !r.kalman);
      std::string e = fixed_error(pre.st, post.st, all);
      if (e.empty() && op.k == 'R') {
        // what was registered is what the filter holds
        e = fixed_error(r.exp.st, post.st, true);
      }
      if (!e.empty()) {fail(out, k, "constant", fmt("op %d (%c): ", k, op.k) + e); return;}
    }
    // ---- the recovered frame is the true one
    if (P == "C10" && gps_truth && post.lla && !pre.lla) {
      out.cnt["probe.gps_truth"] += 1;
      Vector3d to(c.extra.at("true_lat"), c.extra.at("true_lon"), c.extra.at("true_alt"));
      double te = (r_lla_to_ecef(post.ref_lla) - r_lla_to_ecef(to)).norm();
      double ta = std::remainder(post.ref_ang - c.extra.at("true_heading"), 2 * M_PI);
      if (te > c.extra.at("tol_pos") || std::abs(ta) > c.extra.at("tol_ang")) {
        fail(out, k, "truth", fmt("op %d: recovered origin is off by %.6g m and heading by %.6g rad", k, te, ta));
        return;
      }
    }
    // ---- flags
    bool mism = false;
    if (r.check_flags) {
      if (post.grav != r.exp.grav) {
        mism = true;
        if (P == "C09") {
          fail(out, k, "gravity", fmt("op %d (%c): gravity established is %d, expected %d (score %.9g)", k, op.k,
            post.grav, r.exp.grav, r.score));
          return;
        }
      }
      if (post.lla != r.exp.lla) {
        mism = true;
        if (P == "C10") {
          fail(out, k, "init", fmt("op %d (%c): GPS frame initialised is %d, expected %d", k, op.k, post.lla, r.exp.lla));
          return;
        }
      } else if (post.lla) {
        Vector3d d = r_lla_to_ecef(post.ref_lla) - r_lla_to_ecef(r.exp.ref_lla);
        double a = std::remainder(post.ref_ang - r.exp.ref_ang, 2 * M_PI);
        bool was = pre.lla;
        double dt = was ? 0 : 1e-3, at = was ? 0 : 1e-7;
        if (!was && r.gps_multi && gps_truth) {dt = 0.01; at = 1e-5;}
        if (d.norm() > dt || std::abs(a) > at) {
          mism = true;
          if (P == "C10") {
            fail(out, k, "reference", fmt("op %d (%c): GPS reference is off by %.6g m, %.6g rad", k, op.k, d.norm(), a));
            return;
          }
        }
      }
      if (op.k == 'G' && P == "C10") {
        E("C10");
        if (pre.lla && r.gps_used) {out.cnt["probe.gps_after_init"] += 1;}
        if (!post.lla && !pre.lla) {
          // a waiting fix changes no estimate beyond the prediction
          out.cnt["probe.gps_wait"] += 1;
        }
      }
    }
    // ---- refinement
    std::string cls, what;
    const std::string cat =
      op.k == 'P' ? (r.window_changed ? "C11" : "C05") :
      (op.k == 'R' || op.k == 'D') ? "C20" :
      op.k == 'I' ? (r.stationary || !r.kalman ? "C09" : "C06") :
      op.k == 'G' ? (r.gps_wait ? "C10" : "C06") :
      op.k == 'C' ? (r.msckf || !CamOp::parse(op).tracks.empty() ? "C12" : r.fiducial ? "C06" : "C11") : "";
    // which properties does this operation speak to
    bool mine = P == cat || (P == "C05" && op.k == 'P') || (P == "C11" && (op.k == 'P' || op.k == 'C')) ||
      (P == "C06" && (op.k == 'I' || op.k == 'G' || op.k == 'C')) || (P == "C09" && op.k == 'I') ||
      (P == "C10" && op.k == 'G') || (P == "C12" && op.k == 'C');
    if (mine && r.check_state) {E(P.c_str());}
    if (mine && !r.check_state) {out.cnt["ambiguous." + P] += 1;}
    if (r.check_state && r.cond < 1e9) {
      std::string why;
      if (!same_structure(post.st, r.exp.st, why)) {
        mism = true;
        cls = why.find("window") == 0 ? "window" : "structure";
        what = why;
        if ((P == "C11" && cls == "window") || (P == "C20" && cls == "structure" && (op.k == 'R' || op.k == 'D'))) {
          fail(out, k, cls, fmt("op %d (%c): ", k, op.k) + what);
          return;
        }
      } else if (post.P.rows() != r.exp.P.rows()) {
        mism = true;
      } else {
        Diff d = diff(post.st, r.exp.st);
        Eigen::Index n = post.P.rows(), bad = -1;
        double worst = 1;
        double tx = 1e-8 + 1e-13 * r.cond;
        for (Eigen::Index i = 0; i < n; ++i) {
          double xt = r.xt.size() == n ? r.xt(i) : 0;
          double tol = tx * xt + 1e-9 * (1 + d.mag(i));
          double q = std::abs(d.d(i)) / tol;
          if (!(q <= worst)) {worst = q; bad = i;}
        }
        std::string where;
        bool window_bad = false, est_bad = false;
        if (bad >= 0) {
          est_bad = true;
          where = d.name[static_cast<size_t>(bad)];
          what = fmt("%s differs from the model by %.6g (%.3g tolerances)", where.c_str(), d.d(bad), worst);
          cls = "state";
          window_bad = where.find("window") == 0;
        } else {
          Eigen::Index bi = -1, bj = -1;
          worst = 1;
          for (Eigen::Index i = 0; i < n; ++i) {
            for (Eigen::Index j = 0; j < n; ++j) {
              double pe = r.pe.size() == n ? r.pe(i) * r.pe(j) : 0;
              double s = std::sqrt(std::max(0.0, r.exp.P(i, i)) * std::max(0.0, r.exp.P(j, j)));
              double tol = (1e-7 + 1e-14 * r.cond) * s + 1e-13 * static_cast<double>(n) * pe + 1e-18;
              double q = std::abs(post.P(i, j) - r.exp.P(i, j)) / tol;
              if (!(q <= worst)) {worst = q; bi = i; bj = j;}
            }
          }
          if (bi >= 0) {
            est_bad = true;
            cls = "covariance";
            what = fmt("covariance (%s, %s) is %.9g, model %.9g (%.3g tolerances)",
              d.name[static_cast<size_t>(bi)].c_str(), d.name[static_cast<size_t>(bj)].c_str(),
              post.P(bi, bj), r.exp.P(bi, bj), worst);
            if (getenv("SIM_VERBOSE")) {
              what += fmt(" cond %.3g sd %.3g %.3g err %.3g %.3g pred %.3g %.3g", r.cond,
                std::sqrt(r.exp.P(bi, bi)), std::sqrt(r.exp.P(bj, bj)), r.pe(bi), r.pe(bj),
                std::sqrt(r.Ppred(bi, bi)), std::sqrt(r.Ppred(bj, bj)));
            }
            window_bad = d.name[static_cast<size_t>(bi)].find("window") == 0 ||
              d.name[static_cast<size_t>(bj)].find("window") == 0;
          }
        }
        if (est_bad) {
          mism = true;
          bool rep = false;
          if (P == "C05") {rep = op.k == 'P';} else if (P == "C11") {
            rep = (op.k == 'P' && r.window_changed && alone) ||
              (op.k == 'C' && cat == "C11" && alone) || (op.k == 'C' && alone && window_bad && cat != "C12");
          } else if (P == "C20") {rep = op.k == 'R' || op.k == 'D';} else if (P == "C09") {
            rep = op.k == 'I' && (r.stationary || !r.kalman) && (alone || !suspect);
            if (op.k == 'I' && !rep && (where == "body acceleration" || where == "body angular rate")) {rep = alone || !suspect;}
          } else if (P == "C06") {rep = cat == "C06" && (alone || !suspect);
            if (op.k == 'I' && r.stationary) {rep = alone || !suspect;}
          } else if (P == "C10") {rep = op.k == 'G' && (r.gps_wait || r.gps_multi) && (alone || !suspect);
          } else if (P == "C12") {rep = cat == "C12" && (alone || !suspect);}
          if (rep) {
            fail(out, k, cls, fmt("op %d (%c%s): ", k, op.k, r.note.c_str()) + what);
            return;
          }
          if (op.k == 'P') {suspect = true;}
        }
      }
    }
    if (mism) {out.cnt["foreign"] += 1;}
    // ---- logs
    if (do_logs && c.log) {
      std::map<std::string, std::vector<Row>> byf;
      for (auto & x : r.rows) {byf[x.file].push_back(x);}
      // every file that exists or should
      for (auto & e : byf) {logs[e.first];}
      if (op.k == 'R') {
        std::string n = "_" + std::to_string(id) + ".csv";
        int kind = c.sensors[static_cast<size_t>(op.s)].kind;
        if (kind == K_IMU) {logs["imu" + n];}
        if (kind == K_GPS) {logs["gps" + n];}
        if (kind == K_CAM) {logs["msckf" + n]; logs["triangulation" + n]; logs["fiducial" + n];}
        logs["body_state.csv"]; logs["aug_state.csv"];
      }
      for (auto & e : logs) {
        LogFile & lf = e.second;
        std::ifstream in(dir + e.first, std::ios::binary);
        std::string data;
        if (in) {
          in.seekg(0, std::ios::end);
          auto sz = static_cast<size_t>(in.tellg());
          if (sz > lf.pos) {
            data.resize(sz - lf.pos);
            in.seekg(static_cast<std::streamoff>(lf.pos));
            in.read(&data[0], static_cast<std::streamsize>(data.size()));
          }
        }
        double rate = 0;
        for (size_t s = 0; s < c.sensors.size(); ++s) {
          std::string suf = "_" + std::to_string(w.registered(static_cast<int>(s)) ? w.id_of(static_cast<int>(s)) : 0) + ".csv";
          const SensorSpec & q = c.sensors[s];
          const char * pre_n = q.kind == K_IMU ? "imu" : q.kind == K_GPS ? "gps" : "?";
          if (e.first == std::string(pre_n) + suf) {rate = q.log_rate;}
          if (q.kind == K_CAM && (e.first == "msckf" + suf || e.first == "triangulation" + suf || e.first == "fiducial" + suf)) {
            rate = q.log_rate;
          }
          if (q.kind == K_FID && q.cam >= 0 && w.registered(q.cam) &&
            e.first == "fiducial_" + std::to_string(w.id_of(q.cam)) + ".csv")
          {
            rate = q.log_rate;
          }
        }
        bool unlimited = e.first == "aug_state.csv";
        if (e.first == "body_state.csv" || e.first == "aug_state.csv") {rate = c.log_rate;}
        auto & cand = byf[e.first];
        std::vector<std::string> lines;
        if (!data.empty()) {
          if (data.back() != '\n') {fail(out, k, "torn", e.first + " ends in an incomplete line"); return;}
          lines = split(data, '\n');
          if (!lines.empty() && lines.back().empty()) {lines.pop_back();}
          lf.pos += data.size();
        }
        size_t li = 0;
        if (!lf.any && !lines.empty()) {
          lf.any = true;
          lf.fields = split(lines[0], ',').size();
          if (lines[0].compare(0, 4, "time") != 0) {fail(out, k, "header", e.first + " has no header: " + lines[0].substr(0, 60)); return;}
          li = 1;
        }
        size_t ci = 0;
        for (; li < lines.size(); ++li) {
          E("C13");
          auto f = split(lines[li], ',');
          if (lines[li].compare(0, 4, "time") == 0) {fail(out, k, "header", e.first + " has a second header"); return;}
          if (f.size() != lf.fields) {
            fail(out, k, "fields", fmt("%s: row has %zu fields, header %zu", e.first.c_str(), f.size(), lf.fields));
            return;
          }
          std::string why = "more rows than events";
          bool ok = false;
          for (; ci < cand.size() && !ok; ++ci) {ok = row_matches(f, cand[ci], why);}
          if (!ok && r.check_state && r.check_flags && !mism && r.cond < 1e6) {
            fail(out, k, "row", fmt("op %d (%c) %s: ", k, op.k, e.first.c_str()) + why);
            return;
          }
          // Where the row is not foreseen, its time is known as precisely as it is printed
          double tp = std::atof(f[0].c_str()), slack = ok ? 0 : 1e-5 * std::fabs(tp) + 1e-9;
          double t = ok ? cand[ci - 1].t : tp;
          if (lf.rows == 0) {lf.t_first = t - slack; lf.t_max = t + slack;}
          lf.t_max = std::max(lf.t_max, t + slack);
          ++lf.rows;
          if (!unlimited && rate > 0) {
            double lim = 1 + rate * (lf.t_max - lf.t_first);
            out.cnt["probe.rate"] += 1;
            if (static_cast<double>(lf.rows) > lim * (1 + 1e-12) + 1e-6) {
              fail(out, k, "rate", fmt("%s holds %zu rows after %.9g s at rate %.9g", e.first.c_str(), lf.rows, lf.t_max - lf.t_first, rate));
              return;
            }
          }
        }
        // rows that must be there
        if (r.check_state && r.check_flags && !mism && rate > 0 && !cand.empty() && lines.empty()) {
          double t = cand.back().t;
          bool must = unlimited || lf.rows == 0 ||
            static_cast<double>(lf.rows) + 1 + 1e-6 <= rate * (t - lf.t_first);
          if (e.first.find("triangulation") == 0) {
            bool sure = must;
            must = false;
            for (auto & x : cand) {if (!std::isnan(x.v[1])) {must = sure;}}
          }
          if (must) {
            out.cnt["probe.mustlog"] += 1;
            fail(out, k, "lost", fmt("op %d (%c): no row in %s although the rate allows it (%zu rows, t=%.9g)", k, op.k, e.first.c_str(), lf.rows, t));
            return;
          }
        }
      }
    }
    if (std::getenv("SIM_VERBOSE")) {
      std::fprintf(stderr, "op %d %c s=%d t=%.9g tag=%d: now=%.9g n=%u maxP=%.3g x=%.3g v=%.3g w=%.3g cond=%.3g%s%s%s\n", k, op.k, op.s, op.t, op.tag, post.t, post.size,
        post.P.size() ? post.P.cwiseAbs().maxCoeff() : 0, post.st.body_state.pos_b_in_l.norm(), post.st.body_state.vel_b_in_l.norm(),
        post.st.body_state.ang_vel_b_in_l.norm(), r.cond, r.stationary ? " stat" : "", r.moving ? " mov" : "", r.check_state ? "" : " ambiguous");
    }
    ref.resync(post, op, r);
    pre = post;
  }
  for (int i = 1; i < 16; ++i) {if (seam::fired[i]) {out.cnt[fmt("disk.%d", i)] += static_cast<double>(seam::fired[i]);}}
}
