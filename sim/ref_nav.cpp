#include "ref.hpp"

#include <algorithm>
#include <limits>

static const Vector3d GRAV(0, 0, 9.80665);
static const double NANV = std::numeric_limits<double>::quiet_NaN();

static void add(std::vector<double> & v, const Vector3d & x) {for (int i = 0; i < 3; ++i) {v.push_back(x(i));}}
static void add(std::vector<double> & v, const Quaterniond & q)
{
  v.push_back(q.w()); v.push_back(q.x()); v.push_back(q.y()); v.push_back(q.z());
}
static void addd(std::vector<double> & v, const MatrixXd & P, unsigned i, unsigned n)
{
  for (unsigned k = 0; k < n; ++k) {v.push_back(P(i + k, i + k));}
}


void Ref::imu(Obs & o, const Op & op, RefResult & r)
{
  const SensorSpec & q = c.sensors[static_cast<size_t>(op.s)];
  unsigned id = ids.at(op.s);
  Vector3d a(op.d[0], op.d[1], op.d[2]), w(op.d[3], op.d[4], op.d[5]);
  Matrix3d Ra, Rw;
  for (int i = 0; i < 9; ++i) {Ra(i / 3, i % 3) = op.d[6 + i]; Rw(i / 3, i % 3) = op.d[15 + i];}
  double lt = local(op.t);
  o.t = now;
  VectorXd res = VectorXd::Zero(6);
  auto log_row = [&](bool stat, double score, const VectorXd & rs) {
      const ImuState & x = o.st.imu_states[id];
      Row g;
      g.file = "imu_" + std::to_string(id) + ".csv"; g.kind = "imu"; g.t = lt;
      g.v.push_back(stat); g.v.push_back(score);
      add(g.v, x.pos_i_in_b); add(g.v, x.ang_i_to_b); add(g.v, x.acc_bias); add(g.v, x.omg_bias);
      if (q.ext) {addd(g.v, o.P, x.index_extrinsic, 6);}
      if (q.intr) {addd(g.v, o.P, x.index_intrinsic, 6);}
      add(g.v, a); add(g.v, w);
      for (int i = 0; i < 6; ++i) {g.v.push_back(i < rs.size() ? rs(i) : 0.0);}
      g.v.push_back(NANV);
      r.rows.push_back(g);
    };
  if (!latched[op.s]) {
    layout(o);
    int m = q.intr ? 6 : 3;
    auto jac = [&]() {
        const ImuState & x = o.st.imu_states[id];
        MatrixXd J = MatrixXd::Zero(m, o.size);
        Matrix3d S = rskew(
          x.ang_i_to_b.conjugate() * (o.st.body_state.ang_b_to_l.conjugate() * GRAV));
        J.block<3, 3>(0, 9) = -S * rqj(o.st.body_state.ang_b_to_l).transpose();
        if (q.ext) {J.block<3, 3>(0, x.index_extrinsic + 3) = -S;}
        if (q.intr) {
          J.block<3, 3>(0, x.index_intrinsic) = -Matrix3d::Identity();
          J.block<3, 3>(3, x.index_intrinsic + 3) = -Matrix3d::Identity();
        }
        return J;
      };
    const ImuState x0 = o.st.imu_states[id];
    MatrixXd J = jac();
    MatrixXd R = MatrixXd::Zero(m, m);
    R.block<3, 3>(0, 0) = Ra;
    if (q.intr) {R.block<3, 3>(3, 3) = Rw;}
    VectorXd rs(m);
    rs.segment<3>(0) = -(a - x0.acc_bias - x0.ang_i_to_b.conjugate() *
      (o.st.body_state.ang_b_to_l.conjugate() * GRAV));
    if (q.intr) {rs.segment<3>(3) = -(w - x0.omg_bias);}
    MatrixXd S = J * o.P * J.transpose() + c.scale * R;
    double score = std::abs(rs.dot(S.ldlt().solve(rs)));
    r.score = score;
    if (std::abs(score - c.chi2) < 1e-5 * (c.chi2 + score)) {
      r.score_ambiguous = true; r.check_state = false; r.check_flags = false;
      r.note = "stationarity score at the threshold";
    }
    if (score > c.chi2 && gravity) {
      latched[op.s] = true;
    } else {
      if (score < c.chi2) {gravity = true;}
      r.stationary = true;
      predict(o, lt, r);
      layout(o);
      kalman(o, jac(), rs, R, r, 1e-13);
      r.kalman = true;
      o.st.body_state.acc_b_in_l = GRAV;
      o.st.body_state.ang_vel_b_in_l = Vector3d::Zero();
      o.st.body_state.ang_acc_b_in_l = Vector3d::Zero();
      zero_acc = true;
      log_row(true, score, rs);
      row_body(o, r);
      return;
    }
  }
  // In motion
  r.moving = true;
  const MatrixXd P0 = o.P;
  const double t0 = now;
  zero_acc = false;
  const ImuState x = o.st.imu_states[id];
  BodyState & b = o.st.body_state;
  if (o.st.imu_states.size() == 1) {
    b.acc_b_in_l = b.ang_b_to_l * (x.ang_i_to_b * (a - x.acc_bias));
    b.ang_vel_b_in_l = b.ang_b_to_l * (x.ang_i_to_b * (w - x.omg_bias));
    b.ang_acc_b_in_l = Vector3d::Zero();
  } else {
    layout(o);
    const Matrix3d Ri = x.ang_i_to_b.toRotationMatrix().transpose();
    const Matrix3d Rb = b.ang_b_to_l.toRotationMatrix().transpose();
    const Vector3d p = x.pos_i_in_b, W = b.ang_vel_b_in_l, A = b.ang_acc_b_in_l;
    VectorXd z(6);
    z << a, w;
    VectorXd pred(6);
    pred.segment<3>(0) = x.acc_bias + Ri *
      (b.acc_b_in_l + A.cross(p) + W.cross(W.cross(p)) + 2 * W.cross(b.vel_b_in_l));
    pred.segment<3>(3) = x.omg_bias + Ri * (Rb * W);
    res = z - pred;
    MatrixXd H = MatrixXd::Zero(6, o.size);
    H.block<3, 3>(0, 6) = Ri * Rb;
    H.block<3, 3>(0, 12) = Ri * (rskew(W) * rskew(p).transpose() + rskew(W.cross(p)).transpose());
    H.block<3, 3>(0, 15) = -Ri * rskew(p);
    H.block<3, 3>(3, 12) = Ri * Rb;
    unsigned ie = o.st.imu_states[id].index_extrinsic, ii = o.st.imu_states[id].index_intrinsic;
    if (q.ext) {
      H.block<3, 3>(0, ie) = Ri * (rskew(A) + rskew(W) * rskew(W));
      H.block<3, 3>(0, ie + 3) = rskew(
        Ri * (A.cross(p) + W.cross(W.cross(p)) + Rb * b.acc_b_in_l));
      H.block<3, 3>(3, ie + 3) = rskew(Ri * (Rb * W));
    }
    if (q.intr) {
      H.block<3, 3>(0, ii) = Matrix3d::Identity();
      H.block<3, 3>(3, ii + 3) = Matrix3d::Identity();
    }
    MatrixXd R = MatrixXd::Zero(6, 6);
    R.block<3, 3>(0, 0) = Ra; R.block<3, 3>(3, 3) = Rw;
    kalman(o, H, res, R, r, 1e-13);
    r.kalman = true;
  }
  Obs alt = o;
  alt.P = P0;
  predict(o, lt, r);
  if (r.predicted) {
    double dt = lt - t0;
    MatrixXd F = MatrixXd::Identity(P0.rows(), P0.rows());
    for (int i = 0; i < 3; ++i) {F(i, 3 + i) = dt;}
    MatrixXd Q = noise(alt).asDiagonal();
    if (r.Ppred.rows() == P0.rows()) {r.Ppred = F * (P0 + Q * dt) * F.transpose();}
  } else if (r.Ppred.rows() == P0.rows()) {r.Ppred = P0;}
  layout(o);
  log_row(false, c.chi2, res);
  row_body(o, r);
}

void Ref::gps(Obs & o, const Op & op, RefResult & r)
{
  const SensorSpec & q = c.sensors[static_cast<size_t>(op.s)];
  unsigned id = ids.at(op.s);
  Vector3d fix(op.d[0], op.d[1], op.d[2]);
  Matrix3d R;
  for (int i = 0; i < 9; ++i) {R(i / 3, i % 3) = op.d[3 + i];}
  double lt = local(op.t);
  o.t = now;
  predict(o, lt, r);
  layout(o);
  Vector3d res(0, 0, 0), pl(0, 0, 0);
  double ang0 = ref_ang;
  bool was = lla;
  Fej & f = fej_gps[op.s];
  auto to_local = [&](const Vector3d & ecef, const Vector3d & ref, double ang) {
      Vector3d e = r_enu_rot(ref) * (ecef - r_lla_to_ecef(ref));
      return Vector3d(
        std::cos(ang) * e(0) - std::sin(ang) * e(1), std::sin(ang) * e(0) + std::cos(ang) * e(1),
        e(2));
    };
  auto jac = [&]() {
      if (!c.fej || !f.set) {f.p = o.st.gps_states[id].pos_a_in_b; f.set = true;}
      MatrixXd H = MatrixXd::Zero(3, o.size);
      const Quaterniond & b = o.st.body_state.ang_b_to_l;
      H.block<3, 3>(0, 0) = Matrix3d::Identity();
      H.block<3, 3>(0, 9) = -b.toRotationMatrix() * rskew(f.p) * rqj(b);
      if (q.ext) {H.block<3, 3>(0, o.st.gps_states[id].index) = b.toRotationMatrix();}
      return H;
    };
  if (!lla) {
    r.gps_wait = true;
    gps_t.push_back(lt); gps_ecef.push_back(r_lla_to_ecef(fix));
    gps_xyz.push_back(o.st.body_state.pos_b_in_l);
    size_t n = gps_t.size();
    if (n >= 4) {
      r.lla_attempt = true;
      Vector3d mean(0, 0, 0);
      for (auto & e : gps_ecef) {mean += e;}
      mean /= static_cast<double>(n);
      Vector3d mlla = r_ecef_to_lla(mean);
      std::vector<Vector3d> enu;
      for (auto & e : gps_ecef) {enu.push_back(r_enu_rot(mlla) * (e - r_lla_to_ecef(mlla)));}
      Vector3d cs(0, 0, 0), ct(0, 0, 0);
      for (size_t i = 0; i < n; ++i) {cs += enu[i]; ct += gps_xyz[i];}
      cs /= static_cast<double>(n); ct /= static_cast<double>(n);
      double dot = 0, crs = 0, mag = 0;
      for (size_t i = 0; i < n; ++i) {
        Vector3d s = enu[i] - cs, t = gps_xyz[i] - ct;
        dot += s(0) * t(0) + s(1) * t(1);
        crs += s(0) * t(1) - s(1) * t(0);
        mag += std::hypot(s(0), s(1)) * std::hypot(t(0), t(1));
      }
      double ang = std::atan2(crs, dot);
      bool degenerate = std::hypot(dot, crs) < 1e-6 * mag || mag < 1e-6;
      Matrix3d Rot = Matrix3d::Identity();
      Rot(0, 0) = Rot(1, 1) = std::cos(ang); Rot(0, 1) = -std::sin(ang); Rot(1, 0) = std::sin(ang);
      Vector3d tr = ct - Rot * cs;
      bool ok = false, amb = false;
      if (c.gps_init == 1) {
        double d = r_max_distance(enu);
        ok = d > c.baseline;
        amb = std::abs(d - c.baseline) < 3.0;
      } else {
        Vector3d em(0, 0, 0);
        std::vector<Vector3d> err;
        for (size_t i = 0; i < n; ++i) {err.push_back(gps_xyz[i] - (Rot * enu[i] + tr)); em += err[i];}
        em /= static_cast<double>(n);
        double ss = 0, sl = 0, cnt = 0;
        for (size_t i = 0; i < n; ++i) {
          ss += (err[i] - em).squaredNorm();
          double bd = (gps_xyz[i] - ct).norm(), en = err[i].norm();
          if (std::abs(bd - en) < 1e-6 * (1e-3 + bd)) {amb = true;}
          if (bd > en) {sl += std::pow(en / bd, 2); cnt += 1;}
        }
        double ps = std::sqrt(ss) / static_cast<double>(n);
        double as = cnt > 0 ? std::sqrt(sl) / cnt : 0;
        ok = ps < c.pos_th && as != 0 && as < std::tan(c.ang_th);
        if (degenerate) {amb = true;}
        if (std::abs(ps - c.pos_th) < 1e-5 * (c.pos_th + ps)) {amb = true;}
        if (as < 1e-8 || std::abs(as - std::tan(c.ang_th)) < 1e-5 * (as + 1e-3)) {amb = true;}
        if (ps > c.pos_th * 1.001 || as > std::tan(c.ang_th) * 1.001) {
          if (!degenerate) {amb = false; ok = false;}
        }
      }
      if (degenerate && ok) {amb = true;}
      if (amb) {r.lla_ambiguous = true; r.check_flags = false; r.check_state = false;}
      if (ok) {
        lla = true;
        ref_ang = ang;
        Vector3d e0 = -(Rot.transpose() * tr);
        ref_lla = r_ecef_to_lla(r_lla_to_ecef(mlla) + r_enu_rot(mlla).transpose() * e0);
      }
      if (lla) {
        r.gps_multi = true;
        MatrixXd H1 = jac();
        MatrixXd H(3 * n, o.size);
        VectorXd rs(3 * n);
        for (size_t i = 0; i < n; ++i) {
          H.block(3 * static_cast<Eigen::Index>(i), 0, 3, o.size) = H1;
          rs.segment<3>(3 * static_cast<Eigen::Index>(i)) =
            to_local(gps_ecef[i], ref_lla, ref_ang) - gps_xyz[i];
        }
        kalman(o, H, rs, MatrixXd::Identity(H.rows(), H.rows()), r, 3e-8);
        r.kalman = true;
      }
    }
  } else {
    r.gps_used = true;
    pl = to_local(r_lla_to_ecef(fix), ref_lla, ref_ang);
    MatrixXd H = jac();
    res = pl - (o.st.body_state.pos_b_in_l + o.st.body_state.ang_b_to_l * f.p);
    kalman(o, H, res, R, r, 3e-8);
    r.kalman = true;
  }
  o.lla = lla; o.ref_lla = ref_lla; o.ref_ang = ref_ang;
  Row g;
  g.file = "gps_" + std::to_string(id) + ".csv"; g.kind = "gps"; g.t = lt;
  add(g.v, fix);
  add(g.v, pl);
  if (was) {add(g.v, ref_lla); g.v.push_back(ang0);} else {
    for (int i = 0; i < 4; ++i) {g.v.push_back(NANV);}
  }
  g.v.push_back(lla);
  if (q.ext) {
    add(g.v, o.st.gps_states[id].pos_a_in_b); addd(g.v, o.P, o.st.gps_states[id].index, 3);
  }
  add(g.v, res); g.v.push_back(NANV);
  r.rows.push_back(g);
}

