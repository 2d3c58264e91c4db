#include "ref.hpp"

#include <algorithm>
#include <limits>

static const Vector3d GRAV(0, 0, 9.80665);
static const double NANV = std::numeric_limits<double>::quiet_NaN();

static void add(std::vector<double> & v, const Vector3d & x) {for (int i = 0; i < 3; ++i) {v.push_back(x(i));}}
static void add(std::vector<double> & v, const Quaterniond & q)
{
  v.push_back(q.w()); v.push_back(q.x()); v.push_back(q.y()); v.push_back(q.z());
}
static void addd(std::vector<double> & v, const MatrixXd & P, unsigned i, unsigned n)
{
  for (unsigned k = 0; k < n; ++k) {v.push_back(P(i + k, i + k));}
}


AugState Ref::find_pose(const Obs & o, unsigned cam, unsigned frame, double t, bool & held) const
{
  AugState a;
  held = false;
  if (c.aug == 1 || (c.aug == 2 && cam == primary)) {
    auto it = o.st.aug_states.find(cam);
    if (it == o.st.aug_states.end()) {return a;}
    for (auto & x : it->second) {if (x.frame_id == frame) {a = x; held = true;}}
    a.alpha = 0;
    return a;
  }
  unsigned key = c.aug == 2 ? primary : 0;
  auto it = o.st.aug_states.find(key);
  if (it == o.st.aug_states.end() || it->second.empty()) {return a;}
  const auto & w = it->second;
  held = true;
  AugState x0 = w.front(), x1 = w.front();
  double al = 0;
  if (t < w.front().time) {
  } else if (t < w.back().time) {
    for (size_t i = 0; i + 1 < w.size(); ++i) {
      if (w[i].time <= t && t <= w[i + 1].time && w[i + 1].time > w[i].time) {
        x0 = w[i]; x1 = w[i + 1]; al = (t - w[i].time) / (w[i + 1].time - w[i].time);
      }
    }
  } else {
    x0 = w.back();
    x1.pos_b_in_l = o.st.body_state.pos_b_in_l; x1.ang_b_to_l = o.st.body_state.ang_b_to_l;
    double span = o.t - x0.time;
    al = span > 0 ? (t - x0.time) / span : 0.0;
  }
  a.pos_b_in_l = x0.pos_b_in_l + al * (x1.pos_b_in_l - x0.pos_b_in_l);
  // slerp on the shorter arc
  Quaterniond q1 = x1.ang_b_to_l;
  if (x0.ang_b_to_l.dot(q1) < 0) {q1.coeffs() = -q1.coeffs();}
  Vector3d d = rlog(x0.ang_b_to_l.conjugate() * q1);
  double n = d.norm();
  Quaterniond step = n < 1e-12 ? Quaterniond(1, 0, 0, 0) : Quaterniond(Eigen::AngleAxisd(al * n, d / n));
  a.ang_b_to_l = x0.ang_b_to_l * step;
  a.time = t; a.index = x0.index; a.alpha = al;
  return a;
}

void Ref::msckf(Obs & o, int s, double lt, const CamOp & co, RefResult & r)
{
  predict(o, lt, r);
  if (co.tracks.empty()) {return;}
  const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
  unsigned id = ids.at(s);
  layout(o);
  Fej & f = fej_cam[s];
  if (!c.fej || !f.set) {
    f.p = o.st.cam_states[id].pos_c_in_b; f.q = o.st.cam_states[id].ang_c_to_b; f.set = true;
  }
  const Intrinsics & K = o.st.cam_states[id].intrinsics;
  double fx = K.f_x / K.pixel_size, fy = K.f_y / K.pixel_size;
  const Matrix3d Rcb = f.q.toRotationMatrix();
  const Matrix3d Rbc = Rcb.transpose();
  unsigned n = o.size, ci = o.st.cam_states[id].index;
  std::vector<MatrixXd> Hs;
  std::vector<VectorXd> rsv;
  Eigen::Index rows = 0;
  int ntr = -1;
  for (auto & tr : co.tracks) {
    ++ntr;
    std::vector<TrackPt> pts;
    std::vector<AugState> poses;
    for (auto & p : tr.pts) {
      bool held;
      AugState a = find_pose(o, id, p.frame, p.t, held);
      if (held) {pts.push_back(p); poses.push_back(a);}
    }
    if (pts.size() < 2) {continue;}
    // linear triangulation in the local frame
    Matrix3d A = Matrix3d::Zero();
    Vector3d bb = Vector3d::Zero();
    Vector3d c0 = poses[0].ang_b_to_l * f.p + poses[0].pos_b_in_l;
    Matrix3d R0 = poses[0].ang_b_to_l.toRotationMatrix() * Rcb;
    for (size_t i = 0; i < pts.size(); ++i) {
      Vector3d ray(
        (static_cast<double>(pts[i].x) - K.width / 2) / fx,
        (static_cast<double>(pts[i].y) - K.height / 2) / fy, 1);
      Vector3d u = R0.transpose() * (poses[i].ang_b_to_l * (f.q * ray.normalized()));
      Vector3d cc = R0.transpose() * (poses[i].ang_b_to_l * f.p + poses[i].pos_b_in_l - c0);
      Matrix3d Ai = Matrix3d::Identity() - u * u.transpose();
      A += Ai; bb += Ai * cc;
    }
    Eigen::SelfAdjointEigenSolver<Matrix3d> es(A);
    bool tri_ok = es.eigenvalues()(0) > 1e-7 * es.eigenvalues()(2);
    Vector3d fc0 = tri_ok ? Vector3d(A.ldlt().solve(bb)) : Vector3d(0, 0, NANV);
    bool in = fc0.z() >= q.min_feat && fc0.z() <= 100.0;
    bool edge = !tri_ok || std::abs(fc0.z() - q.min_feat) < 1e-5 * (1 + q.min_feat) ||
      std::abs(fc0.z() - 100.0) < 1e-3;
    Vector3d ftri = R0 * fc0 + c0;
    if (in || edge) {
      Row g;
      g.file = "triangulation_" + std::to_string(id) + ".csv"; g.kind = "tri"; g.t = lt;
      g.v.push_back(ntr);
      double tol = 1e-3 * (1 + fc0.norm());
      bool cmp = tri_ok && !edge && es.eigenvalues()(0) > 1e-4 * es.eigenvalues()(2);
      for (int i = 0; i < 3; ++i) {g.v.push_back(cmp ? ftri(i) : NANV);}
      g.tol = {0, tol, tol, tol};
      r.rows.push_back(g);
    }
    Vector3d pf;
    if (tr.truth) {pf = tr.pos;} else {
      if (edge || es.eigenvalues()(0) < 1e-5 * es.eigenvalues()(2)) {
        r.check_state = false; r.note = "triangulation is ill-conditioned";
      }
      if (!in) {continue;}
      pf = ftri;
    }
    Eigen::Index m = static_cast<Eigen::Index>(pts.size());
    VectorXd res(2 * m);
    MatrixXd Hf = MatrixXd::Zero(2 * m, 3), Hx = MatrixXd::Zero(2 * m, n);
    for (Eigen::Index i = 0; i < m; ++i) {
      const AugState & a = poses[static_cast<size_t>(i)];
      const TrackPt & p = pts[static_cast<size_t>(i)];
      Matrix3d Rlb = a.ang_b_to_l.toRotationMatrix().transpose();
      Matrix3d Rlc = Rbc * Rlb;
      Vector3d fb = Rlb * (pf - a.pos_b_in_l);
      Vector3d fc = Rbc * (fb - f.p);
      if (std::abs(fc.z()) < 1e-3) {r.check_state = false; r.note = "feature in the camera plane";}
      Eigen::Vector2d z(
        (static_cast<double>(p.x) - K.width / 2) / fx, (static_cast<double>(p.y) - K.height / 2) / fy);
      res.segment<2>(2 * i) = z - Eigen::Vector2d(fc.x() / fc.z(), fc.y() / fc.z());
      MatrixXd Hp(2, 3);
      Hp << 1 / fc.z(), 0, -fc.x() / (fc.z() * fc.z()), 0, 1 / fc.z(), -fc.y() / (fc.z() * fc.z());
      double x = z(0), y = z(1), r2 = x * x + y * y;
      MatrixXd Hd(2, 2);
      double rad = 1 + K.k_1 * r2 + K.k_2 * r2 * r2;
      double drad = 2 * K.k_1 + 4 * K.k_2 * r2;
      Hd(0, 0) = rad + drad * x * x + 2 * K.p_1 * y + 6 * K.p_2 * x;
      Hd(0, 1) = drad * x * y + 2 * K.p_1 * x + 2 * K.p_2 * y;
      Hd(1, 0) = Hd(0, 1);
      Hd(1, 1) = rad + drad * y * y + 2 * K.p_2 * x + 6 * K.p_1 * y;
      MatrixXd B = Hd * Hp;
      Hf.block<2, 3>(2 * i, 0) = B * Rlc;
      MatrixXd Ht(3, 6);
      Ht.block<3, 3>(0, 0) = -Rlc;
      Ht.block<3, 3>(0, 3) = Rlc * rskew(pf - a.pos_b_in_l) * rqj(a.ang_b_to_l).transpose();
      if (q.ext) {
        Hx.block<2, 3>(2 * i, ci) = -B * Rbc;
        Hx.block<2, 3>(2 * i, ci + 3) = B * Rbc * rskew(fb - f.p) * rqj(f.q).transpose();
      }
      MatrixXd Hc = B * Ht;
      if (a.alpha != 0.0) {
        Hx.block<2, 6>(2 * i, a.index) = Hc * (1 - a.alpha);
        MatrixXd H1 = Hc * a.alpha;
        if (a.index + 12 > n) {
          Hx.block<2, 3>(2 * i, 0) = H1.block<2, 3>(0, 0);
          Hx.block<2, 3>(2 * i, 9) = H1.block<2, 3>(0, 3);
        } else {
          Hx.block<2, 6>(2 * i, a.index + 6) = H1;
        }
      } else {
        Hx.block<2, 6>(2 * i, a.index) = Hc;
      }
    }
    Eigen::JacobiSVD<MatrixXd> sv(Hf, Eigen::ComputeFullU);
    if (sv.singularValues()(2) < 1e-6 * sv.singularValues()(0)) {
      r.check_state = false; r.note = "feature Jacobian is rank deficient";
    }
    MatrixXd N = sv.matrixU().rightCols(2 * m - 3);
    Hs.push_back(N.transpose() * Hx);
    rsv.push_back(N.transpose() * res);
    rows += 2 * m - 3;
  }
  if (rows == 0) {return;}
  MatrixXd H(rows, n);
  VectorXd rs(rows);
  Eigen::Index k = 0;
  for (size_t i = 0; i < Hs.size(); ++i) {
    H.block(k, 0, Hs[i].rows(), n) = Hs[i]; rs.segment(k, rsv[i].size()) = rsv[i];
    k += Hs[i].rows();
  }
  double px = std::max(q.px_error, 0.5);
  if (rows <= 1) {
    // a single projected row: too little to be used, whether it is compressed or not
    r.check_state = false; r.note = "single residual";
  }
  kalman(o, H, rs, px * px * MatrixXd::Identity(rows, rows), r, 1e-12);
  r.kalman = true;
  r.msckf = true;
  Row g;
  g.file = "msckf_" + std::to_string(id) + ".csv"; g.kind = "msckf"; g.t = lt;
  add(g.v, o.st.cam_states[id].pos_c_in_b); add(g.v, o.st.cam_states[id].ang_c_to_b);
  if (q.ext) {addd(g.v, o.P, ci, 6);}
  g.v.push_back(static_cast<double>(co.tracks.size())); g.v.push_back(NANV);
  r.rows.push_back(g);
}

void Ref::fiducial(Obs & o, int s, double lt, const Board & bd, RefResult & r)
{
  predict(o, lt, r);
  layout(o);
  const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
  const SensorSpec & fs = c.sensors[static_cast<size_t>(bd.spec)];
  unsigned id = ids.at(s), fid = ids.at(bd.spec);
  Fej & f = fej_fid[bd.spec];
  if (!c.fej || !f.set) {
    f.p = o.st.cam_states[id].pos_c_in_b; f.q = o.st.cam_states[id].ang_c_to_b;
    f.pf = o.st.fid_states[fid].pos_f_in_l; f.qf = o.st.fid_states[fid].ang_f_to_l;
    f.set = true;
  }
  const BodyState & b = o.st.body_state;
  Matrix3d Rbc = f.q.toRotationMatrix().transpose();
  Matrix3d Rlb = b.ang_b_to_l.toRotationMatrix().transpose();
  Matrix3d Rlc = Rbc * Rlb, Rfl = f.qf.toRotationMatrix();
  VectorXd res(6);
  res.segment<3>(0) = bd.pos - Rbc * (Rlb * (f.pf - b.pos_b_in_l) - f.p);
  Quaterniond qp = f.q.conjugate() * b.ang_b_to_l.conjugate() * f.qf;
  Quaterniond qr = qp * bd.ang.conjugate();
  res.segment<3>(3) = rlog(qr);
  if (res.segment<3>(3).norm() > M_PI - 1e-5) {
    r.check_state = false; r.note = "orientation residual at pi";
  }
  MatrixXd H = MatrixXd::Zero(6, o.size);
  H.block<3, 3>(0, 0) = -Rlc;
  H.block<3, 3>(0, 9) = Rlc * rskew(f.pf - b.pos_b_in_l) * rqj(b.ang_b_to_l).transpose();
  H.block<3, 3>(3, 9) = -Rlc * Rfl * rqj(b.ang_b_to_l).transpose();
  unsigned ci = o.st.cam_states[id].index, fi = o.st.fid_states[fid].index;
  if (q.ext) {
    H.block<3, 3>(0, ci) = -Rbc;
    H.block<3, 3>(0, ci + 3) = Rbc * rskew(Rlb * (f.pf - b.pos_b_in_l) - f.p) *
      rqj(f.q).transpose();
    H.block<3, 3>(3, ci + 3) = -Rbc * rqj(f.q).transpose() * Rlb * Rfl;
  }
  if (fs.ext) {
    H.block<3, 3>(0, fi) = Matrix3d::Identity();
    H.block<3, 3>(3, fi + 3) = Matrix3d::Identity();
  }
  MatrixXd R = MatrixXd::Zero(6, 6);
  for (int i = 0; i < 3; ++i) {R(i, i) = bd.perr(i); R(3 + i, 3 + i) = bd.aerr(i);}
  kalman(o, H, res, R, r, 1e-12);
  r.kalman = true;
  r.fiducial = true;
  Row g;
  g.file = "fiducial_" + std::to_string(id) + ".csv"; g.kind = "fid"; g.t = lt;
  g.v.push_back(fid);
  add(g.v, bd.pos); add(g.v, bd.ang);
  add(g.v, o.st.cam_states[id].pos_c_in_b); add(g.v, o.st.cam_states[id].ang_c_to_b);
  for (int i = 0; i < 6; ++i) {g.v.push_back(res(i));}
  if (fs.ext) {
    add(g.v, o.st.fid_states[fid].pos_f_in_l); add(g.v, o.st.fid_states[fid].ang_f_to_l);
    addd(g.v, o.P, fi, 6);
  }
  if (q.ext) {addd(g.v, o.P, ci, 6);}
  g.v.push_back(NANV);
  r.rows.push_back(g);
}

void Ref::cam(Obs & o, const Op & op, RefResult & r)
{
  CamOp co = CamOp::parse(op);
  double lt = local(op.t);
  o.t = now;
  predict(o, lt, r);
  augment_frame(o, ids.at(op.s), co.frame, r);
  if (!co.tracks.empty()) {msckf(o, op.s, lt, co, r);}
  for (auto & b : co.boards) {fiducial(o, op.s, lt, b, r);}
}

