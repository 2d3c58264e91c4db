#include "ref.hpp"

#include <algorithm>
#include <limits>

static const Vector3d GRAV(0, 0, 9.80665);
static const double NANV = std::numeric_limits<double>::quiet_NaN();

Matrix3d rskew(const Vector3d & v)
{
  Matrix3d m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}

Quaterniond rexp(const Vector3d & v)
{
  double a = v.norm();
  if (!(a > 1e-9)) {return Quaterniond(1, 0, 0, 0);}
  Vector3d u = v / a;
  double s = std::sin(a / 2);
  return Quaterniond(std::cos(a / 2), u.x() * s, u.y() * s, u.z() * s);
}

Vector3d rlog(const Quaterniond & q)
{
  Vector3d v = q.vec();
  double n = v.norm(), w = q.w();
  if (n < 1e-300) {return Vector3d::Zero();}
  double ang = 2 * std::atan2(n, std::abs(w));
  if (w < 0) {v = -v;}
  return v / n * ang;
}

Matrix3d rqj(const Quaterniond & q)
{
  Vector3d v = rlog(q);
  double n = std::max(v.norm(), 1e-9);
  Matrix3d S = rskew(v);
  // 1-cos(n) = 2 sin^2(n/2)
  double c1 = 2 * std::pow(std::sin(n / 2), 2) / (n * n);
  double c2 = n < 1e-3 ? 1.0 / 6 - n * n / 120 : (n - std::sin(n)) / (n * n * n);
  return Matrix3d::Identity() - c1 * S + c2 * S * S;
}

void rapply(State & s, const VectorXd & d)
{
  int i = 0;
  auto v3 = [&](Vector3d & x) {x += Vector3d(d(i), d(i + 1), d(i + 2)); i += 3;};
  auto q3 = [&](Quaterniond & q) {q = q * rexp(Vector3d(d(i), d(i + 1), d(i + 2))); i += 3;};
  v3(s.body_state.pos_b_in_l); v3(s.body_state.vel_b_in_l); v3(s.body_state.acc_b_in_l);
  q3(s.body_state.ang_b_to_l); v3(s.body_state.ang_vel_b_in_l); v3(s.body_state.ang_acc_b_in_l);
  for (auto & e : s.imu_states) {
    if (e.second.GetIsExtrinsic()) {v3(e.second.pos_i_in_b); q3(e.second.ang_i_to_b);}
    if (e.second.GetIsIntrinsic()) {v3(e.second.acc_bias); v3(e.second.omg_bias);}
  }
  for (auto & e : s.gps_states) {if (e.second.GetIsExtrinsic()) {v3(e.second.pos_a_in_b);}}
  for (auto & e : s.cam_states) {
    if (e.second.GetIsExtrinsic()) {v3(e.second.pos_c_in_b); q3(e.second.ang_c_to_b);}
  }
  for (auto & e : s.fid_states) {
    if (e.second.GetIsExtrinsic()) {v3(e.second.pos_f_in_l); q3(e.second.ang_f_to_l);}
  }
  for (auto & e : s.aug_states) {
    for (auto & a : e.second) {v3(a.pos_b_in_l); q3(a.ang_b_to_l);}
  }
}

VectorXd flatten(const State & s)
{
  std::vector<double> o;
  auto v3 = [&](const Vector3d & x) {for (int i = 0; i < 3; ++i) {o.push_back(x(i));}};
  auto q4 = [&](const Quaterniond & q) {
      o.push_back(q.w()); o.push_back(q.x()); o.push_back(q.y()); o.push_back(q.z());
    };
  v3(s.body_state.pos_b_in_l); v3(s.body_state.vel_b_in_l); v3(s.body_state.acc_b_in_l);
  q4(s.body_state.ang_b_to_l); v3(s.body_state.ang_vel_b_in_l); v3(s.body_state.ang_acc_b_in_l);
  for (auto & e : s.imu_states) {
    v3(e.second.pos_i_in_b); q4(e.second.ang_i_to_b); v3(e.second.acc_bias); v3(e.second.omg_bias);
  }
  for (auto & e : s.gps_states) {v3(e.second.pos_a_in_b);}
  for (auto & e : s.cam_states) {v3(e.second.pos_c_in_b); q4(e.second.ang_c_to_b);}
  for (auto & e : s.fid_states) {v3(e.second.pos_f_in_l); q4(e.second.ang_f_to_l);}
  for (auto & e : s.aug_states) {
    for (auto & a : e.second) {o.push_back(a.time); v3(a.pos_b_in_l); q4(a.ang_b_to_l);}
  }
  return Eigen::Map<VectorXd>(o.data(), static_cast<Eigen::Index>(o.size()));
}

// ---------------------------------------------------------------- geodesy (WGS84)
static const double WA = 6378137.0, WF = 1 / 298.257223563, WE2 = WF * (2 - WF);
static const double D2R = M_PI / 180;

Vector3d r_lla_to_ecef(const Vector3d & l)
{
  double la = l(0) * D2R, lo = l(1) * D2R;
  double n = WA / std::sqrt(1 - WE2 * std::sin(la) * std::sin(la));
  return Vector3d(
    (n + l(2)) * std::cos(la) * std::cos(lo), (n + l(2)) * std::cos(la) * std::sin(lo),
    (n * (1 - WE2) + l(2)) * std::sin(la));
}

Matrix3d r_enu_rot(const Vector3d & l)
{
  double la = l(0) * D2R, lo = l(1) * D2R;
  Matrix3d m;
  m << -std::sin(lo), std::cos(lo), 0,
    -std::cos(lo) * std::sin(la), -std::sin(lo) * std::sin(la), std::cos(la),
    std::cos(lo) * std::cos(la), std::sin(lo) * std::cos(la), std::sin(la);
  return m;
}

Vector3d r_ecef_to_lla(const Vector3d & e)
{
  double p = std::hypot(e(0), e(1));
  double lo = std::atan2(e(1), e(0));
  double la = std::atan2(e(2), p * (1 - WE2));
  for (int k = 0; k < 30; ++k) {
    double n = WA / std::sqrt(1 - WE2 * std::sin(la) * std::sin(la));
    la = std::atan2(e(2) + WE2 * n * std::sin(la), p);
  }
  double n = WA / std::sqrt(1 - WE2 * std::sin(la) * std::sin(la));
  double alt = p * std::cos(la) + e(2) * std::sin(la) - WA * WA / n;
  return Vector3d(la / D2R, lo / D2R, alt);
}

double r_max_distance(const std::vector<Vector3d> & p)
{
  double m = 0;
  for (auto & a : p) {for (auto & b : p) {m = std::max(m, std::hypot(a(0) - b(0), a(1) - b(1)));}}
  return m;
}

// ---------------------------------------------------------------- camera operation encoding
CamOp CamOp::parse(const Op & op)
{
  CamOp c;
  size_t i = 0;
  auto g = [&]() {return op.d.at(i++);};
  c.frame = static_cast<unsigned>(g());
  int nt = static_cast<int>(g());
  for (int k = 0; k < nt; ++k) {
    Track t;
    int np = static_cast<int>(g());
    t.truth = g() != 0;
    t.pos = Vector3d(0, 0, 0);
    for (int j = 0; j < 3; ++j) {t.pos(j) = g();}
    for (int j = 0; j < np; ++j) {
      TrackPt p;
      p.frame = static_cast<unsigned>(g()); p.t = g();
      p.x = static_cast<float>(g()); p.y = static_cast<float>(g());
      t.pts.push_back(p);
    }
    c.tracks.push_back(t);
  }
  int nb = static_cast<int>(g());
  for (int k = 0; k < nb; ++k) {
    Board b;
    b.spec = static_cast<int>(g());
    for (int j = 0; j < 3; ++j) {b.pos(j) = g();}
    double q[4];
    for (double & v : q) {v = g();}
    b.ang = Quaterniond(q[0], q[1], q[2], q[3]);
    for (int j = 0; j < 3; ++j) {b.perr(j) = g();}
    for (int j = 0; j < 3; ++j) {b.aerr(j) = g();}
    c.boards.push_back(b);
  }
  return c;
}

void CamOp::store(Op & op) const
{
  op.d.clear();
  auto p = [&](double v) {op.d.push_back(v);};
  p(frame); p(static_cast<double>(tracks.size()));
  for (auto & t : tracks) {
    p(static_cast<double>(t.pts.size())); p(t.truth);
    for (int j = 0; j < 3; ++j) {p(t.pos(j));}
    for (auto & q : t.pts) {
      p(q.frame); p(q.t); p(static_cast<double>(q.x)); p(static_cast<double>(q.y));
    }
  }
  p(static_cast<double>(boards.size()));
  for (auto & b : boards) {
    p(b.spec);
    for (int j = 0; j < 3; ++j) {p(b.pos(j));}
    p(b.ang.w()); p(b.ang.x()); p(b.ang.y()); p(b.ang.z());
    for (int j = 0; j < 3; ++j) {p(b.perr(j));}
    for (int j = 0; j < 3; ++j) {p(b.aerr(j));}
  }
}

// ---------------------------------------------------------------- reference filter
Ref::Ref(const Cfg & cfg) : c(cfg), root(cfg.root != 0)
{
  lla = c.gps_init == 0;
  ref_lla = Vector3d(c.lla[0], c.lla[1], c.lla[2]);
  ref_ang = c.heading;
  if (c.set_max_track) {max_len = static_cast<unsigned>(c.max_track);}
  if (c.do_init) {now = c.t0; tinit = true;}
}

double Ref::local(double t)
{
  if (!tinit) {tref = t; tinit = true; now = 0; return 0;}
  return t - tref;
}

void Ref::layout(Obs & o) const
{
  unsigned i = 18;
  o.st.body_state.index = 0;
  o.imu_start = i;
  for (auto & e : o.st.imu_states) {
    e.second.index = i;
    if (e.second.GetIsExtrinsic()) {e.second.index_extrinsic = i; i += 6;}
    if (e.second.GetIsIntrinsic()) {e.second.index_intrinsic = i; i += 6;}
  }
  o.gps_start = i; o.imu_size = i - o.imu_start;
  for (auto & e : o.st.gps_states) {e.second.index = i; if (e.second.GetIsExtrinsic()) {i += 3;}}
  o.cam_start = i; o.gps_size = i - o.gps_start;
  for (auto & e : o.st.cam_states) {e.second.index = i; if (e.second.GetIsExtrinsic()) {i += 6;}}
  o.fid_start = i; o.cam_size = i - o.cam_start;
  for (auto & e : o.st.fid_states) {e.second.index = i; if (e.second.GetIsExtrinsic()) {i += 6;}}
  o.aug_start = i;
  for (auto & e : o.st.aug_states) {for (auto & a : e.second) {a.index = i; i += 6;}}
  o.aug_size = i - o.aug_start;
  o.size = i;
}

VectorXd Ref::noise(const Obs & o) const
{
  VectorXd q = VectorXd::Zero(o.size);
  if (!any_reg) {return q;}
  for (int i = 0; i < 18; ++i) {q(i) = c.pn[i];}
  int i = 18;
  auto three = [&](double v) {for (int k = 0; k < 3; ++k) {q(i++) = v;}};
  for (auto & e : o.st.imu_states) {
    if (e.second.GetIsExtrinsic()) {three(e.second.pos_stability); three(e.second.ang_stability);}
    if (e.second.GetIsIntrinsic()) {
      three(e.second.acc_bias_stability); three(e.second.omg_bias_stability);
    }
  }
  for (auto & e : o.st.gps_states) {if (e.second.GetIsExtrinsic()) {three(e.second.pos_stability);}}
  for (auto & e : o.st.cam_states) {
    if (e.second.GetIsExtrinsic()) {three(e.second.pos_stability); three(e.second.ang_stability);}
  }
  for (auto & e : o.st.fid_states) {
    if (e.second.GetIsExtrinsic()) {three(e.second.pos_stability); three(e.second.ang_stability);}
  }
  return q;
}

static void add(std::vector<double> & v, const Vector3d & x) {for (int i = 0; i < 3; ++i) {v.push_back(x(i));}}
static void add(std::vector<double> & v, const Quaterniond & q)
{
  v.push_back(q.w()); v.push_back(q.x()); v.push_back(q.y()); v.push_back(q.z());
}
static void addd(std::vector<double> & v, const MatrixXd & P, unsigned i, unsigned n)
{
  for (unsigned k = 0; k < n; ++k) {v.push_back(P(i + k, i + k));}
}

void Ref::row_body(const Obs & o, RefResult & r)
{
  Row w;
  w.file = "body_state.csv"; w.kind = "body"; w.t = o.t;
  const BodyState & b = o.st.body_state;
  add(w.v, b.pos_b_in_l); add(w.v, b.vel_b_in_l); add(w.v, b.acc_b_in_l); add(w.v, b.ang_b_to_l);
  add(w.v, b.ang_vel_b_in_l); add(w.v, b.ang_acc_b_in_l);
  addd(w.v, o.P, 0, 18);
  w.v.push_back(o.size); w.v.push_back(NANV);
  r.rows.push_back(w);
}

void Ref::row_aug(const Obs & o, RefResult & r)
{
  Row w;
  w.file = "aug_state.csv"; w.kind = "aug"; w.t = o.t;
  add(w.v, o.st.body_state.pos_b_in_l); add(w.v, o.st.body_state.ang_b_to_l);
  r.rows.push_back(w);
}

static void xform(RefResult & r, const MatrixXd & G);

void Ref::push_window(Obs & o, unsigned key, unsigned frame, RefResult & r)
{
  AugState a;
  a.time = o.t; a.frame_id = frame;
  a.pos_b_in_l = o.st.body_state.pos_b_in_l; a.ang_b_to_l = o.st.body_state.ang_b_to_l;
  // index of the insertion
  layout(o);
  unsigned at = o.aug_start;
  for (auto & e : o.st.aug_states) {
    if (e.first <= key) {at += 6 * static_cast<unsigned>(e.second.size());}
  }
  o.st.aug_states[key].push_back(a);
  unsigned n = static_cast<unsigned>(o.P.rows());
  MatrixXd G = MatrixXd::Zero(n + 6, n);
  for (unsigned i = 0; i < n; ++i) {G(i < at ? i : i + 6, i) = 1;}
  for (unsigned k = 0; k < 3; ++k) {G(at + k, k) = 1; G(at + 3 + k, 9 + k) = 1;}
  o.P = (G * o.P * G.transpose()).eval();
  xform(r, G);
  layout(o);
  r.window_changed = true;
}

void Ref::drop_window(Obs & o, unsigned key, unsigned k, RefResult & r)
{
  layout(o);
  unsigned at = o.st.aug_states[key][k].index;
  unsigned n = static_cast<unsigned>(o.P.rows());
  MatrixXd G = MatrixXd::Zero(n - 6, n);
  for (unsigned i = 0; i < n - 6; ++i) {G(i, i < at ? i : i + 6) = 1;}
  o.P = (G * o.P * G.transpose()).eval();
  xform(r, G);
  o.st.aug_states[key].erase(o.st.aug_states[key].begin() + k);
  layout(o);
  r.window_changed = true;
}

void Ref::augment_auto(Obs & o, RefResult & r)
{
  if (c.aug != 3 && c.aug != 4) {return;}
  auto & w = o.st.aug_states[0];
  bool need = false;
  if (w.empty()) {
    need = true;
  } else if (c.aug == 3) {
    need = std::abs(o.t - aug_prev) > c.aug_dt;
  } else {
    double age = o.t - w.back().time;
    if (age > max_dur) {need = true;} else if (age > min_aug) {
      const BodyState & b = o.st.body_state;
      Vector3d dp = b.pos_b_in_l - age * b.vel_b_in_l - w.back().pos_b_in_l;
      Vector3d da = rlog(
        b.ang_b_to_l * rexp(b.ang_vel_b_in_l * age).conjugate() *
        w.back().ang_b_to_l.conjugate());
      double np = dp.norm(), na = da.norm();
      need = np > c.aug_pos || na > c.aug_ang;
      if (std::abs(np - c.aug_pos) < 1e-7 * (1 + np) || std::abs(na - c.aug_ang) < 1e-7) {
        r.check_state = false; r.note = "augmentation error at the threshold";
      }
    }
  }
  for (int i = static_cast<int>(w.size()) - 2; i >= 0; --i) {
    if (o.t - w[static_cast<unsigned>(i + 1)].time > max_dur) {
      drop_window(o, 0, static_cast<unsigned>(i), r);
    }
  }
  if (need && frame_rx) {
    aug_prev = o.t;
    push_window(o, 0, 0, r);
    row_aug(o, r);
    frame_rx = false;
  }
}

void Ref::augment_frame(Obs & o, unsigned cam, unsigned frame, RefResult & r)
{
  frame_rx = true;
  if (c.aug == 1 || (c.aug == 2 && cam == primary)) {
    // make room first: the same result, and the window never exceeds its length
    if (o.st.aug_states[cam].size() >= max_len) {drop_window(o, cam, 0, r);}
    push_window(o, cam, frame, r);
    row_aug(o, r);
  }
}

void Ref::predict(Obs & o, double t, RefResult & r)
{
  if (t < now) {r.Ppred = o.P; return;}
  if (gravity) {
    double dt = t - now;
    BodyState & b = o.st.body_state;
    Vector3d a = zero_acc ? Vector3d(0, 0, 0) : Vector3d(b.acc_b_in_l - GRAV);
    b.vel_b_in_l = b.vel_b_in_l + dt * a;
    b.pos_b_in_l = b.pos_b_in_l + dt * b.vel_b_in_l;
    b.ang_b_to_l = rexp(b.ang_vel_b_in_l * dt) * b.ang_b_to_l;
    MatrixXd F = MatrixXd::Identity(o.size, o.size);
    for (int i = 0; i < 3; ++i) {F(i, 3 + i) = dt;}
    MatrixXd Q = noise(o).asDiagonal();
    o.P = (F * (o.P + Q * dt) * F.transpose()).eval();
    r.predicted = true;
  }
  now = t;
  o.t = t;
  r.Ppred = o.P;
  augment_auto(o, r);
  row_body(o, r);
}

void Ref::kalman(
  Obs & o, const MatrixXd & H, const VectorXd & res, const MatrixXd & R, RefResult & r,
  double res_err)
{
  MatrixXd S = H * o.P * H.transpose() + R;
  S = (0.5 * (S + S.transpose())).eval();
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(S);
  double lo = es.eigenvalues()(0), hi = es.eigenvalues()(S.rows() - 1);
  r.cond = std::max(r.cond, lo > 0 ? hi / lo : 1e300);
  MatrixXd PHt = o.P * H.transpose();
  auto dec = S.ldlt();
  MatrixXd K = dec.solve(PHt.transpose()).transpose();
  VectorXd dx = K * res;
  double w = std::sqrt(std::abs(res.dot(dec.solve(res))));
  Eigen::Index n = o.P.rows();
  if (r.xt.size() != n) {r.xt = VectorXd::Zero(n);}
  if (r.pe.size() != n) {r.pe = VectorXd::Zero(n);}
  MatrixXd A = MatrixXd::Identity(n, n) - K * H;
  // rounding of the gain times Jacobian products enters through their absolute values
  MatrixXd aA = A.cwiseAbs() + K.cwiseAbs() * H.cwiseAbs(), aP = o.P.cwiseAbs();
  MatrixXd aM = aA * aP * aA.transpose();
  for (Eigen::Index i = 0; i < n; ++i) {
    r.xt(i) += std::sqrt(std::max(o.P(i, i), 0.0)) * w + K.row(i).cwiseAbs().sum() * res_err / 1e-8;
    r.pe(i) = std::max(r.pe(i), std::sqrt(aM(i, i)));
  }
  rapply(o.st, dx);
  MatrixXd P2 = A * o.P * A.transpose() + K * R * K.transpose();
  o.P = 0.5 * (P2 + P2.transpose());
}

static void xform(RefResult & r, const MatrixXd & G)
{
  if (r.xt.size() == G.cols()) {r.xt = (G * r.xt).eval();} else {r.xt.resize(0);}
  if (r.pe.size() == G.cols()) {r.pe = (G * r.pe).eval();} else {r.pe.resize(0);}
  if (r.Ppred.rows() == G.cols()) {r.Ppred = (G * r.Ppred * G.transpose()).eval();}
}

void Ref::reg(Obs & o, int s, RefResult & r, bool)
{
  const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
  unsigned id = ids.at(s);
  Quaterniond ang(q.ang[0], q.ang[1], q.ang[2], q.ang[3]);
  Vector3d pos(q.pos[0], q.pos[1], q.pos[2]);
  std::vector<double> var;
  layout(o);
  unsigned at = 0;
  auto lower = [](double v) {return std::max(v, 1e-6);};
  bool sensor_mode = c.direct == 0;
  if (q.kind == K_IMU) {
    if (o.st.imu_states.count(id)) {r.refused = true; return;}
    ImuState x;
    x.SetIsExtrinsic(q.ext != 0); x.SetIsIntrinsic(q.intr != 0);
    x.pos_stability = q.stab[0]; x.ang_stability = q.stab[1];
    x.acc_bias_stability = q.stab[2]; x.omg_bias_stability = q.stab[3];
    x.pos_i_in_b = pos; x.ang_i_to_b = ang;
    x.acc_bias = Vector3d(q.ba[0], q.ba[1], q.ba[2]);
    x.omg_bias = Vector3d(q.bg[0], q.bg[1], q.bg[2]);
    for (int i = 0; i < 12; ++i) {
      if (i < 6 ? q.ext : q.intr) {var.push_back(sensor_mode ? lower(q.var[i]) : q.var[i]);}
    }
    o.st.imu_states[id] = x;
    layout(o);
    at = o.st.imu_states[id].index;
  } else if (q.kind == K_GPS) {
    if (o.st.gps_states.count(id)) {r.refused = true; return;}
    GpsState x;
    x.SetIsExtrinsic(q.ext != 0); x.pos_a_in_b = pos; x.pos_stability = q.stab[0];
    if (q.ext) {for (int i = 0; i < 3; ++i) {var.push_back(q.var[i]);}}
    o.st.gps_states[id] = x;
    layout(o);
    at = o.st.gps_states[id].index;
  } else if (q.kind == K_CAM) {
    if (o.st.cam_states.count(id)) {r.refused = true; return;}
    CamState x;
    x.SetIsExtrinsic(q.ext != 0); x.pos_c_in_b = pos; x.ang_c_to_b = ang; x.rate = q.rate;
    x.pos_stability = q.stab[0]; x.ang_stability = q.stab[1];
    x.intrinsics.f_x = q.intrin[0]; x.intrinsics.f_y = q.intrin[1];
    x.intrinsics.k_1 = q.intrin[2]; x.intrinsics.k_2 = q.intrin[3];
    x.intrinsics.p_1 = q.intrin[4]; x.intrinsics.p_2 = q.intrin[5];
    x.intrinsics.width = q.intrin[6]; x.intrinsics.height = q.intrin[7];
    x.intrinsics.pixel_size = q.intrin[8];
    if (q.ext) {
      for (int i = 0; i < 6; ++i) {var.push_back(sensor_mode ? lower(q.var[i]) : q.var[i]);}
    }
    o.st.cam_states[id] = x;
    if (primary == 0) {primary = id;}
    max_period = std::max(max_period, 1 / q.rate);
    max_dur = max_period * (max_len + 1);
    min_aug = std::min(min_aug, 1 / q.rate);
    layout(o);
    at = o.st.cam_states[id].index;
  } else {
    if (o.st.fid_states.count(id)) {r.refused = true; return;}
    FidState x;
    x.SetIsExtrinsic(q.ext != 0); x.pos_f_in_l = pos; x.ang_f_to_l = ang; x.id = id;
    if (!sensor_mode) {x.pos_stability = q.stab[0]; x.ang_stability = q.stab[1];}
    if (q.ext) {for (int i = 0; i < 6; ++i) {var.push_back(q.var[i]);}}
    o.st.fid_states[id] = x;
    layout(o);
    at = o.st.fid_states[id].index;
  }
  any_reg = true;
  r.registered = true;
  unsigned n = static_cast<unsigned>(o.P.rows()), m = static_cast<unsigned>(var.size());
  MatrixXd N = MatrixXd::Zero(n + m, n + m);
  for (unsigned i = 0; i < n; ++i) {
    for (unsigned j = 0; j < n; ++j) {N(i < at ? i : i + m, j < at ? j : j + m) = o.P(i, j);}
  }
  for (unsigned i = 0; i < m; ++i) {N(at + i, at + i) = var[i];}
  o.P = N;
  r.Ppred = o.P;
}

RefResult Ref::step(const Obs & pre, const Op & op, unsigned assigned_id)
{
  RefResult r;
  Obs o = pre;
  now = pre.t;
  gravity = pre.grav;
  lla = pre.lla;
  if (lla) {ref_lla = pre.ref_lla; ref_ang = pre.ref_ang;}
  r.Ppred = o.P;
  switch (op.k) {
    case 'R': ids[op.s] = assigned_id; reg(o, op.s, r, false); break;
    case 'D': reg(o, op.s, r, true); break;
    case 'P': r.noop = op.t < now; predict(o, op.t, r); break;
    case 'I': imu(o, op, r); break;
    case 'G': gps(o, op, r); break;
    case 'C': cam(o, op, r); break;
    default: break;
  }
  layout(o);
  o.t = now;
  o.grav = gravity;
  o.lla = lla; o.ref_lla = ref_lla; o.ref_ang = ref_ang;
  o.gps_buf = static_cast<unsigned>(gps_t.size());
  r.exp = o;
  return r;
}

void Ref::resync(const Obs & post, const Op & op, const RefResult & r)
{
  gravity = post.grav;
  if (op.k == 'I' && r.score_ambiguous) {
    const BodyState & b = post.st.body_state;
    bool stat = b.ang_vel_b_in_l == Vector3d(0, 0, 0) && b.acc_b_in_l == GRAV;
    latched[op.s] = !stat;
    zero_acc = stat;
  }
  if (post.lla) {lla = true; ref_lla = post.ref_lla; ref_ang = post.ref_ang;} else {lla = false;}
  // window rule when the model could not decide
  if ((c.aug == 3 || c.aug == 4) && !r.check_state) {
    auto it = post.st.aug_states.find(0);
    if (it != post.st.aug_states.end() && !it->second.empty() && it->second.back().time == post.t) {
      aug_prev = post.t;
    }
  }
}
