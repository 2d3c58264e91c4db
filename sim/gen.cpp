// Seeded generation of plans: the workload, the schedule and every fault are decided here.
#include <algorithm>
#include <functional>

#include "checks.hpp"
#include "gen.hpp"
#include "scen.hpp"

Traj::Traj(Rng & r, double rest_, double amp, double rot) : rest(rest_)
{
  for (int k = 0; k < 3; ++k) {
    for (int j = 0; j < 2; ++j) {
      A[k][j] = r.u(-amp, amp) / (j + 1); W[k][j] = r.u(0.2, 1.2) * (j + 1);
      B[k][j] = r.u(-rot, rot) / (j + 1); V[k][j] = r.u(0.2, 1.2) * (j + 1);
    }
  }
  double y = r.u(-3, 3);
  q0 = Quaterniond(Eigen::AngleAxisd(y, Vector3d::UnitZ()));
  if (r.p(0.3)) {
    q0 = q0 * rexp(Vector3d(r.u(-0.5, 0.5), r.u(-0.5, 0.5), 0));
  }
}
double Traj::g(double t) const
{
  if (t <= rest) {return 0;}
  double s = std::min(1.0, (t - rest) / 1.5);
  return s * s * s * (10 - 15 * s + 6 * s * s);
}
Vector3d Traj::pos(double t) const
{
  Vector3d p(0, 0, 0);
  for (int k = 0; k < 3; ++k) {
    for (int j = 0; j < 2; ++j) {p(k) += A[k][j] * std::sin(W[k][j] * (t - rest));}
  }
  return g(t) * p;
}
Quaterniond Traj::ang(double t) const
{
  Vector3d p(0, 0, 0);
  for (int k = 0; k < 3; ++k) {
    for (int j = 0; j < 2; ++j) {p(k) += B[k][j] * std::sin(V[k][j] * (t - rest));}
  }
  return q0 * rexp(g(t) * p);
}
Vector3d Traj::vel(double t) const {double h = 1e-4; return (pos(t + h) - pos(t - h)) / (2 * h);}
Vector3d Traj::acc(double t) const
{
  double h = 1e-3;
  return (pos(t + h) - 2 * pos(t) + pos(t - h)) / (h * h);
}
Vector3d Traj::omega(double t) const          // body rate in the body frame
{
  double h = 1e-4;
  return rlog(ang(t - h).conjugate() * ang(t + h)) / (2 * h);
}

static Quaterniond rand_rot(Rng & r, double a)
{
  return rexp(Vector3d(r.u(-a, a), r.u(-a, a), r.u(-a, a)));
}
static void setv(double * d, const Vector3d & v) {for (int i = 0; i < 3; ++i) {d[i] = v(i);}}
static void setq(double * d, const Quaterniond & q) {d[0] = q.w(); d[1] = q.x(); d[2] = q.y(); d[3] = q.z();}
static Quaterniond getq(const double * d) {return Quaterniond(d[0], d[1], d[2], d[3]);}
static Vector3d getv(const double * d) {return Vector3d(d[0], d[1], d[2]);}

static Matrix3d spd(Rng & r, double v, bool corr)
{
  Matrix3d m = Matrix3d::Identity() * v;
  if (corr) {
    Matrix3d a;
    for (int i = 0; i < 9; ++i) {a(i / 3, i % 3) = r.u(-1, 1);}
    m = v * (0.3 * Matrix3d::Identity() + a * a.transpose() / 3);
    m = (0.5 * (m + m.transpose())).eval();
  } else if (r.p(0.3)) {
    for (int i = 0; i < 3; ++i) {m(i, i) *= r.u(0.3, 3);}
  }
  return m;
}

static Vector3d to_lla(const Cfg & c, const Vector3d & local)
{
  Vector3d ref(c.lla[0], c.lla[1], c.lla[2]);
  double a = -c.heading;
  Vector3d enu(
    std::cos(a) * local(0) - std::sin(a) * local(1),
    std::sin(a) * local(0) + std::cos(a) * local(1), local(2));
  return r_ecef_to_lla(r_lla_to_ecef(ref) + r_enu_rot(ref).transpose() * enu);
}

static double dyadic(double t) {return std::round(t * 1024) / 1024;}

static void random_cfg(Rng & r, const Prof & f, Plan & p)
{
  Cfg & c = p.cfg;
  c.root = r.p(f.root); c.fej = r.p(f.fej);
  c.aug = f.aug >= 0 ? f.aug : r.i(0, 4);
  c.direct = r.p(f.direct);
  c.gps_init = r.p(f.gps_const) ? 0 : r.i(1, 2);
  c.do_init = r.p(f.init);
  c.aug_dt = r.u(0.1, 1.0); c.aug_pos = r.lu(1e-3, 0.5); c.aug_ang = r.lu(1e-3, 0.5);
  double q = r.lu(1e-6, 1e-1);
  for (double & v : c.pn) {v = q * (r.p(0.5) ? 1 : r.lu(0.1, 10));}
  c.baseline = r.lu(4, 80); c.pos_th = r.lu(0.02, 2); c.ang_th = r.lu(0.01, 0.5);
  c.chi2 = r.lu(0.3, 10); c.scale = r.p(0.5) ? 100 : r.lu(1, 1000);
  c.lla[0] = r.u(-80, 80); c.lla[1] = r.u(-179, 179); c.lla[2] = r.u(-100, 3000);
  if (r.p(0.1)) {   // next to the date line, the prime meridian, the equator
    int w = r.i(0, 2);
    double d = (r.p(0.5) ? 1 : -1) * r.lu(1e-7, 1e-2);
    if (w == 0) {c.lla[1] = d > 0 ? 180 - d : -180 - d;} else if (w == 1) {c.lla[1] = d;} else {c.lla[0] = d;}
  }
  c.heading = r.u(-3.1, 3.1);
  c.max_track = r.i(2, f.max_track); c.set_max_track = r.p(0.8);
  if (!c.set_max_track && f.max_track < 20) {c.set_max_track = 1;}
  c.log = r.p(f.log); c.log_rate = c.log ? (r.p(0.3) ? 1000 : r.lu(0.2, 50)) : 0;
  c.log_level = 0;
  if (c.do_init) {
    c.t0 = r.p(0.5) ? 0 : r.u(0, 5);
    setv(c.body, Vector3d(r.n(), r.n(), r.n()) * r.lu(0.01, 3));
    setv(c.body + 3, Vector3d(r.n(), r.n(), r.n()) * r.lu(1e-3, 0.3));
    setq(c.body + 9, rand_rot(r, 0.3));
    if (r.p(0.4)) {setv(c.body + 6, Vector3d(r.n(), r.n(), 9.80665 + r.n()) );}
    if (r.p(0.2)) {setv(c.body + 13, 0.2 * Vector3d(r.n(), r.n(), r.n()));}
  }
}

static SensorSpec random_sensor(Rng & r, const Prof & f, int kind)
{
  SensorSpec s;
  s.kind = kind;
  s.ext = r.p(f.ext); s.intr = kind == K_IMU && r.p(f.intr);
  for (double & v : s.pos) {v = r.u(-0.6, 0.6);}
  setq(s.ang, rand_rot(r, 0.8));
  for (double & v : s.ba) {v = r.p(0.5) ? 0 : r.u(-0.1, 0.1);}
  for (double & v : s.bg) {v = r.p(0.5) ? 0 : r.u(-0.02, 0.02);}
  for (double & v : s.stab) {v = r.lu(1e-9, 1e-2);}
  double base = r.lu(1e-5, 1);
  for (double & v : s.var) {v = base * (r.p(0.5) ? 1 : r.lu(0.1, 10));}
  if (f.tiny_var && r.p(0.3)) {for (double & v : s.var) {v = r.p(0.3) ? 0 : r.lu(1e-9, 1e-5);}}
  s.log_rate = r.p(0.15) ? 0 : r.p(0.4) ? 1000 : r.lu(0.2, 30);
  if (kind == K_IMU) {s.rate = r.u(10, 40);}
  if (kind == K_GPS) {s.rate = r.u(1, 6);}
  if (kind == K_CAM) {
    s.rate = r.u(2, 8);
    s.intrin[0] = s.intrin[1] = r.u(0.006, 0.012);
    if (r.p(0.5)) {s.intrin[2] = r.u(-0.1, 0.1); s.intrin[3] = r.u(-0.02, 0.02); s.intrin[4] = r.u(-0.01, 0.01); s.intrin[5] = r.u(-0.01, 0.01);}
    s.px_error = r.p(f.coarse_px) ? r.u(3, 30) : r.p(0.3) ? (r.p(0.4) ? 0 : r.u(0.1, 0.6)) : r.u(0.5, 3);
    s.min_feat = r.u(0.3, 2);
  }
  if (kind == K_FID) {
    setv(s.pos, Vector3d(r.u(2, 8), r.u(-4, 4), r.u(-2, 2)));
    setq(s.ang, rand_rot(r, 1.5));
  }
  return s;
}

struct Ev
{
  double deliver, t;         // delivery and true time
  int s;
  char k;
  int tag;
  unsigned seq;
  double skew;
};

Plan gen_filter(Rng & r, const Prof & f, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed;
  random_cfg(r, f, p);
  Cfg & c = p.cfg;
  int ni = r.i(f.imu[0], f.imu[1]), ng = r.i(f.gps[0], f.gps[1]), nc = r.i(f.cam[0], f.cam[1]);
  int nf = nc > 0 ? r.i(f.fid[0], f.fid[1]) : 0;
  if (ni + ng + nc == 0) {ni = 1;}
  auto ids = [&](int n) {
      std::vector<unsigned> v;
      while (static_cast<int>(v.size()) < n) {
        unsigned x = static_cast<unsigned>(r.i(1, 30));
        if (std::find(v.begin(), v.end(), x) == v.end()) {v.push_back(x);}
      }
      return v;
    };
  std::vector<unsigned> I = ids(ni), G = ids(ng), K = ids(nc), D = ids(nf);
  if (r.p(1 - f.unordered)) {
    for (auto * v : {&I, &G, &K, &D}) {std::sort(v->begin(), v->end());}
  }
  std::vector<int> cams;
  for (int i = 0; i < ni; ++i) {SensorSpec s = random_sensor(r, f, K_IMU); s.id = I[static_cast<size_t>(i)]; c.sensors.push_back(s);}
  for (int i = 0; i < ng; ++i) {SensorSpec s = random_sensor(r, f, K_GPS); s.id = G[static_cast<size_t>(i)]; c.sensors.push_back(s);}
  for (int i = 0; i < nc; ++i) {
    SensorSpec s = random_sensor(r, f, K_CAM); s.id = K[static_cast<size_t>(i)];
    cams.push_back(static_cast<int>(c.sensors.size())); c.sensors.push_back(s);
  }
  for (int i = 0; i < nf; ++i) {
    SensorSpec s = random_sensor(r, f, K_FID); s.id = D[static_cast<size_t>(i)];
    s.cam = cams[f.one_fid ? static_cast<size_t>(i) % cams.size() : static_cast<size_t>(r.i(0, nc - 1))];
    if (f.one_fid && i >= nc) {continue;}
    c.sensors.push_back(s);
  }
  const int ns = static_cast<int>(c.sensors.size());
  double span = r.u(f.span[0], f.span[1]);
  Traj tr(r, r.u(0.0, span * 0.4), r.lu(0.3, f.amp), r.u(0.05, 1.0));
  double epoch = r.p(0.3) ? 0 : r.p(0.5) ? r.u(-100, 1000) : 1.5e9 + r.i(0, 1000);
  if (c.do_init) {epoch = c.t0 + r.u(0, 0.1);}
  if (f.dyadic) {epoch = dyadic(epoch);}
  const bool from_zero = r.p(0.1);        // the first message is stamped zero
  // the body really starts where the filter was told, roughly
  if (c.do_init && r.p(0.8)) {tr.q0 = getq(c.body + 9);} else if (!c.do_init && r.p(f.aligned)) {tr.q0 = Quaterniond(1, 0, 0, 0);}
  // true calibration: registered values are slightly off when calibrated
  std::vector<SensorSpec> truth = c.sensors;
  for (auto & s : truth) {
    if (s.ext) {
      Vector3d d(r.n(), r.n(), r.n());
      setv(s.pos, getv(s.pos) + 0.5 * std::sqrt(std::min(s.var[0], 0.05)) * d);
      setq(s.ang, getq(s.ang) * rexp(0.5 * std::sqrt(std::min(s.var[3], 0.05)) * Vector3d(r.n(), r.n(), r.n())));
    }
  }
  // registration schedule
  std::vector<double> reg_at(static_cast<size_t>(ns), -1);
  for (int s = 0; s < ns; ++s) {
    if (r.p(f.late_reg)) {reg_at[static_cast<size_t>(s)] = r.u(0, span * 0.8); p.faults["late_registration"] += 1;}
    const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
    if (q.kind == K_FID) {
      reg_at[static_cast<size_t>(s)] = std::max(reg_at[static_cast<size_t>(s)], reg_at[static_cast<size_t>(q.cam)] + 1e-6);
    }
  }
  if (f.late_reg <= 0 || r.p(0.5)) {
    // at least one message source from the start
    if (ns > 0 && c.sensors[0].kind != K_FID) {reg_at[0] = -1;}
  }
  // outages
  struct Out {double a, b; int s;};
  std::vector<Out> outs;
  if (r.p(f.outage)) {
    int n = r.i(1, 3);
    for (int i = 0; i < n; ++i) {
      double a = r.u(0, span); outs.push_back({a, a + r.u(0.1, span * 0.5), ns > 0 ? r.i(-1, ns - 1) : -1});
    }
  }
  double skew_s = -1, skew_a = 0, skew_b = 0;
  if (r.p(f.skew) && ns > 0) {skew_s = r.i(0, ns - 1); skew_a = r.u(-0.2, 0.2); skew_b = r.u(-0.01, 0.01);}
  std::vector<Ev> ev;
  for (int s = 0; s < ns; ++s) {
    const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
    if (q.kind == K_FID) {continue;}
    double off = r.u(0, 1 / q.rate);
    unsigned seq = static_cast<unsigned>(r.i(0, 3));
    if (r.p(0.2)) {const unsigned from[] = {250, 65530, 2147483640u, 4294967000u}; seq += from[r.i(0, 3)];}
    for (int n = 0;; ++n) {
      double t = off + n / q.rate * 1.0;
      if (r.p(0.3)) {t += r.u(-0.2, 0.2) / q.rate;}
      if (t >= span) {break;}
      if (t < 0 || t < reg_at[static_cast<size_t>(s)]) {continue;}
      Ev e{t, t, s, q.kind == K_IMU ? 'I' : q.kind == K_GPS ? 'G' : 'C', 0, seq++, 0};
      bool lost = false;
      for (auto & o : outs) {if ((o.s < 0 || o.s == s) && t >= o.a && t < o.b) {lost = true;}}
      if (lost) {p.faults["outage"] += 1; continue;}
      if (r.p(f.loss)) {p.faults[q.kind == K_CAM ? "dropped_frame" : "loss"] += 1; continue;}
      if (s == static_cast<int>(skew_s)) {e.skew = skew_a + skew_b * t; e.tag = F_SKEW;}
      if (r.p(f.late)) {e.deliver += r.p(0.5) ? r.u(0, 0.3) : r.u(0, 2.0); e.tag = F_LATE;}
      if (r.p(f.reorder)) {e.deliver += r.u(-0.1, 0.1); e.tag = F_REORDER;}
      if (r.p(f.outlier)) {e.tag = F_OUTLIER;}
      if (r.p(f.jump)) {e.skew += r.p(0.5) ? r.u(-3, 3) : r.u(-50, 50); e.tag = F_JUMP;}
      ev.push_back(e);
      if (r.p(f.dup)) {Ev d = e; d.deliver += r.p(0.5) ? 0 : r.u(0, 0.5); d.tag = F_DUP; ev.push_back(d);}
    }
  }
  std::stable_sort(ev.begin(), ev.end(), [](const Ev & a, const Ev & b) {return a.deliver < b.deliver;});
  if (static_cast<int>(ev.size()) > f.max_ops) {ev.resize(static_cast<size_t>(f.max_ops));}
  // ---- emit
  double tref = 0, now = c.do_init ? c.t0 : 0, mn = 0;
  bool tinit = c.do_init != 0;
  std::vector<std::vector<TrackPt>> none;
  struct Feat {Vector3d p; std::vector<TrackPt> pts; bool truth;};
  std::map<int, std::vector<Feat>> feats;
  size_t crowd = r.p(f.crowd) ? static_cast<size_t>(r.i(20, 40)) : 5;
  if (crowd > 5) {p.faults["crowded_frames"] += 1;}
  std::vector<bool> done(static_cast<size_t>(ns), false);
  std::vector<int> order(static_cast<size_t>(ns));
  for (int i = 0; i < ns; ++i) {order[static_cast<size_t>(i)] = i;}
  if (r.p(f.unordered)) {for (int i = ns - 1; i > 0; --i) {std::swap(order[static_cast<size_t>(i)], order[static_cast<size_t>(r.i(0, i))]);}}
  auto reg_until = [&](double t) {
      for (int pass = 0; pass < 2; ++pass) {
        for (int s : order) {
          if (done[static_cast<size_t>(s)] || reg_at[static_cast<size_t>(s)] > t) {continue;}
          const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
          if (q.kind == K_FID && !done[static_cast<size_t>(q.cam)]) {continue;}
          Op o; o.k = 'R'; o.s = s; o.t = t;
          o.tag = reg_at[static_cast<size_t>(s)] >= 0 ? F_LATEREG : 0;
          p.ops.push_back(o);
          done[static_cast<size_t>(s)] = true;
        }
      }
      if (r.p(f.dup_reg)) {
        int s = r.i(0, ns - 1);
        if (done[static_cast<size_t>(s)]) {Op o; o.k = 'D'; o.s = s; o.t = t; o.tag = F_DUPREG; p.ops.push_back(o);}
      }
    };
  const bool all_truth = f.all_truth;
  double wild = f.wild;
  // With several IMUs the measurement model is quadratic in the angular rate; a filter fed absurd
  // rates diverges like any extended Kalman filter.
  const double wild_imu = ni > 1 ? 0 : wild;
  const bool tame = ni > 1;
  if (f.early_predict > 0 && c.do_init && r.p(f.early_predict)) {
    Op o; o.k = 'P'; o.t = now + r.u(-1, 1); p.ops.push_back(o); now = std::max(now, o.t);
  }
  // everything is silent for a long time
  int silent = r.p(f.silence) ? r.i(0, std::max(0, static_cast<int>(ev.size()) - 1)) : -1;
  for (auto & e : ev) {
    if (silent-- == 0 && tinit) {
      double gap = r.lu(20, 5000);
      epoch += f.dyadic ? dyadic(gap) : gap;
      p.faults["long_silence"] += 1;
    }
    reg_until(e.deliver);
    if (!done[static_cast<size_t>(e.s)]) {continue;}
    const SensorSpec & q = truth[static_cast<size_t>(e.s)];
    double stamp = epoch + e.t + e.skew;
    if (f.dyadic) {stamp = dyadic(stamp);}
    if (!tinit && from_zero) {epoch -= stamp; stamp = 0;}
    double lt;
    if (!tinit) {lt = 0;} else {lt = stamp - tref;}
    if (tinit && r.p(f.presplit)) {
      Op o; o.k = 'P'; o.t = lt; p.ops.push_back(o);
    } else if (tinit && r.p(f.pastpred)) {
      Op o; o.k = 'P'; o.t = now - r.lu(1e-6, 5); o.tag = F_LATE; p.ops.push_back(o);
      if (r.p(0.3)) {o.t = now; p.ops.push_back(o);}
    }
    if (r.p(f.clockjump)) {
      Op o; o.k = 'M'; o.t = stamp; o.tag = F_CLOCK; o.d = {std::floor(r.u(-1, 1) * 1e12)}; p.ops.push_back(o);
    }
    if (r.p(f.disk)) {
      Op o; o.k = 'F'; o.t = stamp;
      int kind = r.i(1, 9);
      if (kind == 6) {kind = 5;}
      o.tag = kind == 1 ? F_DISKFULL : kind == 2 ? F_DISKERR : kind == 3 ? F_SHORTWRITE : kind == 4 ? F_EINTR :
        kind == 5 ? F_STALL : F_OPENFAIL;
      o.d = {static_cast<double>(kind), static_cast<double>(r.p(0.3) ? 1000 : r.i(1, 4)), static_cast<double>(r.i(0, 40))};
      p.ops.push_back(o);
    }
    if (!tinit) {tref = stamp; tinit = true; now = 0; lt = 0;}
    now = std::max(now, lt);
    mn = std::max(mn, now);
    Op o; o.k = e.k; o.s = e.s; o.t = stamp; o.tag = e.tag;
    const bool corr = r.p(f.corr);
    Vector3d bp = tr.pos(e.t);
    Quaterniond bq = tr.ang(e.t);
    if (e.k == 'I') {
      double sa = r.p(f.bad_noise) ? r.lu(0.05, 2) : r.lu(0.003, 0.03), sw = sa * 0.1;
      Quaterniond qi = getq(q.ang);
      Vector3d om = tr.omega(e.t), pi = getv(q.pos);
      double h = 1e-4;
      Vector3d al = (tr.omega(e.t + h) - tr.omega(e.t - h)) / (2 * h);
      Vector3d ab = bq.conjugate() * (tr.acc(e.t) + Vector3d(0, 0, 9.80665));
      Vector3d a = qi.conjugate() * (ab + al.cross(pi) + om.cross(om.cross(pi)));
      Vector3d w = qi.conjugate() * om;
      for (int i = 0; i < 3; ++i) {a(i) += q.ba[i] + sa * r.n(); w(i) += q.bg[i] + sw * r.n();}
      if (e.tag == F_OUTLIER) {double m = tame ? r.lu(0.5, 5) : r.lu(1, 50); for (int i = 0; i < 3; ++i) {a(i) += m * r.n(); w(i) += 0.2 * m * r.n();}}
      if (r.p(f.shock)) {
        o.tag = F_OUTLIER;
        p.faults["imu_shock"] += 1;
        a += r.u(50, 400) * Vector3d(r.n(), r.n(), r.n()).normalized();
        w += r.u(5, 80) * Vector3d(r.n(), r.n(), r.n()).normalized();
      }
      if (r.p(wild_imu)) {
        double m = r.lu(1, 1e7);
        o.tag = F_OUTLIER;
        for (int i = 0; i < 3; ++i) {a(i) = m * r.n(); w(i) = r.lu(1e-6, 1e4) * r.n();}
      }
      Matrix3d Ra = spd(r, std::max(sa * sa, 1e-6), corr), Rw = spd(r, std::max(sw * sw, 1e-6), corr);
      for (int i = 0; i < 3; ++i) {o.d.push_back(a(i));}
      for (int i = 0; i < 3; ++i) {o.d.push_back(w(i));}
      for (int i = 0; i < 9; ++i) {o.d.push_back(Ra(i / 3, i % 3));}
      for (int i = 0; i < 9; ++i) {o.d.push_back(Rw(i / 3, i % 3));}
    } else if (e.k == 'G') {
      double sg = r.lu(0.01, 2);
      Vector3d l = bp + bq * getv(q.pos) + sg * 0.7 * Vector3d(r.n(), r.n(), r.n());
      if (e.tag == F_OUTLIER) {l += r.lu(1, 3000) * Vector3d(r.n(), r.n(), r.n());}
      Vector3d lla = to_lla(c, l);
      if (r.p(wild)) {
        o.tag = F_OUTLIER;
        lla = Vector3d(r.u(-90, 90), r.u(-180, 180), r.p(0.5) ? r.u(-6000, 1e5) : r.u(0, 1e7));
        if (r.p(0.2)) {lla(0) = r.p(0.5) ? 90 : -90;}
        if (r.p(0.2)) {lla(1) = r.p(0.5) ? 180 : -180;}
        if (r.p(0.15)) {lla(0) = r.u(-400, 400); lla(1) = r.u(-800, 800);}
        if (r.p(0.1)) {lla = Vector3d(0, 0, 0);}
      }
      Matrix3d R = spd(r, sg * sg, corr);
      for (int i = 0; i < 3; ++i) {o.d.push_back(lla(i));}
      for (int i = 0; i < 9; ++i) {o.d.push_back(R(i / 3, i % 3));}
    } else {
      CamOp co;
      co.frame = e.seq;
      const SensorSpec & cq = c.sensors[static_cast<size_t>(e.s)];
      Quaterniond cqn = getq(q.ang);
      Vector3d cp = bp + bq * getv(q.pos);
      Quaterniond cam_q = bq * cqn;
      double fx = cq.intrin[0] / cq.intrin[8];
      bool black = r.p(f.blackout);
      if (black) {p.faults["blackout"] += 1;}
      auto & fs = feats[e.s];
      while (fs.size() < crowd) {
        Vector3d pc(r.u(-0.4, 0.4), r.u(-0.3, 0.3), 1);
        double depth = r.p(0.1) ? r.u(0.2, 150) : r.lu(2, 40);
        fs.push_back({cp + cam_q * (pc * depth), {}, all_truth || r.p(f.truth_frac)});
      }
      if (!black) {
        for (auto & ft : fs) {
          Vector3d pc = cam_q.conjugate() * (ft.p - cp);
          if (pc.z() < 0.2) {continue;}
          double x = pc.x() / pc.z() * fx + cq.intrin[6] / 2, y = pc.y() / pc.z() * fx + cq.intrin[7] / 2;
          if (x < -100 || x > cq.intrin[6] + 100 || y < -100 || y > cq.intrin[7] + 100) {continue;}
          double np = e.tag == F_OUTLIER ? 60 : r.p(0.2) ? 8 : 0.7;
          ft.pts.push_back({e.seq, now, static_cast<float>(x + np * r.n()), static_cast<float>(y + np * r.n())});
        }
        size_t budget = crowd > 5 ? static_cast<size_t>(r.i(0, static_cast<int>(crowd))) : static_cast<size_t>(r.i(0, 4));
        for (size_t i = 0; i < fs.size();) {
          bool stale = fs[i].pts.empty() || fs[i].pts.back().frame != e.seq;
          size_t want = f.long_tracks && r.p(0.3) ? static_cast<size_t>(c.max_track + r.i(0, 4)) : static_cast<size_t>(r.i(2, c.max_track));
          if (!fs[i].pts.empty() && budget > 0 && r.p(f.tracks) &&
            (fs[i].pts.size() >= want || (stale && fs[i].pts.size() >= 2) || (f.long_tracks && r.p(0.05))))
          {
            Track t;
            t.pts = fs[i].pts; t.truth = fs[i].truth; t.pos = fs[i].p;
            if (f.long_tracks && r.p(0.1) && t.pts.size() > 2) {t.pts.erase(t.pts.begin() + r.i(0, static_cast<int>(t.pts.size()) - 1));}
            co.tracks.push_back(t);
            --budget;
            fs.erase(fs.begin() + static_cast<long>(i));
            continue;
          }
          if (stale && r.p(0.3)) {fs.erase(fs.begin() + static_cast<long>(i)); continue;}
          ++i;
        }
        for (int s = 0; s < ns; ++s) {
          const SensorSpec & d = truth[static_cast<size_t>(s)];
          if (d.kind != K_FID || d.cam != e.s || !done[static_cast<size_t>(s)] || !r.p(f.boards)) {continue;}
          Board b;
          b.spec = s;
          double sp = r.lu(0.01, 0.3), sa = r.lu(0.01, 0.2);
          b.pos = cam_q.conjugate() * (getv(d.pos) - cp) + 0.7 * sp * Vector3d(r.n(), r.n(), r.n());
          b.ang = cam_q.conjugate() * getq(d.ang) * rexp(0.7 * sa * Vector3d(r.n(), r.n(), r.n()));
          if (e.tag == F_OUTLIER) {b.pos += r.lu(0.5, 30) * Vector3d(r.n(), r.n(), r.n()); b.ang = rand_rot(r, 3);}
          b.ang.normalize();
          for (int i = 0; i < 3; ++i) {b.perr(i) = sp * sp * r.u(0.5, 2); b.aerr(i) = sa * sa * r.u(0.5, 2);}
          co.boards.push_back(b);
        }
      } else {o.tag = F_BLACKOUT;}
      co.store(o);
    }
    p.ops.push_back(o);
    if (r.p(f.dupnow)) {Op d = o; d.tag = F_DUP; p.ops.push_back(d);}
  }
  reg_until(1e300);
  p.sim_time = span;
  if (r.p(f.presplit) && tinit) {Op o; o.k = 'P'; o.t = now + r.u(0, 3); p.ops.push_back(o);}
  return p;
}

static Plan gen_gps_truth(Rng & r, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed;
  Cfg & c = p.cfg;
  c.root = r.p(0.4); c.direct = r.p(0.5); c.gps_init = r.i(1, 2); c.aug = r.p(0.5) ? 0 : r.i(0, 4);
  double head = r.u(-3.14, 3.14);
  if (r.p(0.2)) {const double k[] = {0, M_PI / 2, -M_PI / 2, M_PI, 3, -3}; head = k[r.i(0, 5)];}
  Vector3d org(r.u(-85, 85), r.u(-180, 180), r.u(-100, 4000));
  if (r.p(0.1)) {org(1) = (r.p(0.5) ? 1 : -1) * (180 - r.lu(1e-7, 1e-2));}
  double spread = r.lu(15, 400);
  c.baseline = spread * r.u(0.3, 1.0); c.pos_th = r.lu(0.05, 1); c.ang_th = r.lu(0.02, 0.3);
  c.extra["true_heading"] = head; c.extra["true_lat"] = org(0); c.extra["true_lon"] = org(1); c.extra["true_alt"] = org(2);
  double sg = c.gps_init == 2 ? r.lu(1e-3, 2e-2) : r.p(0.5) ? 0 : 1e-3;
  SensorSpec s = random_sensor(r, Prof(), K_GPS);
  s.id = static_cast<unsigned>(r.i(1, 9));
  c.sensors.push_back(s);
  Op o; o.k = 'R'; o.s = 0; p.ops.push_back(o);
  Vector3d off = r.p(0.5) ? Vector3d(0, 0, 0) : Vector3d(r.u(-500, 500), r.u(-500, 500), r.u(-50, 50));
  Cfg tc = c;
  tc.heading = head; setv(tc.lla, org);
  int n = r.i(5, 25);
  {
    // four fixes can be enough: noise over their baseline, and meridians that are not parallel
    double far = off.norm() + 1.5 * spread, base = 1.3 * spread * 3 / n * 0.4;
    double ang = 1e-4 + 8 * sg / base + 1.5 * far / 6.36e6 * std::abs(std::tan(org(0) * M_PI / 180));
    c.extra["tol_ang"] = ang;
    c.extra["tol_pos"] = 0.1 + far * ang + 20 * sg + far * far / 6.3e6 * 2;
  }
  double t = r.u(0, 100);
  double dir = r.u(-3, 3), bend = r.u(-0.5, 0.5);
  Vector3d q = off;
  double mean = 0;
  (void)mean;
  for (int i = 0; i < n; ++i) {
    q += Vector3d(std::cos(dir), std::sin(dir), r.u(-0.02, 0.02)) * (1.3 * spread / n) * r.u(0.5, 1.5);
    dir += bend * r.u(0, 1);
    if (i == 0 && r.p(0.5)) {q = off;}
    Op g; g.k = 'G'; g.s = 0; g.t = t;
    Vector3d m = q;
    for (int k = 0; k < 3; ++k) {m(k) += sg * r.n();}
    Vector3d lla = to_lla(tc, m);
    for (int k = 0; k < 3; ++k) {g.d.push_back(lla(k));}
    double v = 1;
    for (int k = 0; k < 9; ++k) {g.d.push_back(k % 4 == 0 ? v : 0);}
    for (int k = 0; k < 3; ++k) {g.d.push_back(q(k));}
    if (r.p(0.1)) {g.tag = F_LATE; g.t -= r.u(0, 3);}
    p.ops.push_back(g);
    if (r.p(0.1)) {Op d = g; d.tag = F_DUP; p.ops.push_back(d);}
    t += r.u(0.1, 2);
  }
  p.sim_time = t;
  return p;
}

static Plan gen_datalog(Rng & r, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed; p.profile = 1;
  Cfg & c = p.cfg;
  for (int i = 0; i < 3; ++i) {
    c.extra[fmt("rate%d", i)] = r.p(0.15) ? 0 : r.lu(0.05, 200);
    c.extra[fmt("on%d", i)] = r.p(0.9);
  }
  int n = r.i(5, 150);
  double start[3], t[3];
  for (int i = 0; i < 3; ++i) {start[i] = r.p(0.4) ? 0 : r.p(0.5) ? r.u(-50, 50) : 1.5e9; t[i] = start[i];}
  double step = r.lu(1e-3, 1);
  for (int k = 0; k < n; ++k) {
    Op o; o.k = 'A';
    int i = r.i(0, 2);
    o.d = {static_cast<double>(i), 0};
    if (r.p(0.02)) {o.d[1] = 1;}
    if (r.p(0.01)) {o.d[1] = 2;}
    o.t = t[i];
    if (r.p(0.1)) {o.t -= r.lu(1e-3, 10); o.tag = F_LATE;}
    p.ops.push_back(o);
    if (!r.p(0.1)) {t[i] += r.p(0.05) ? r.u(0, 30) : step * r.u(0, 2);}
    p.sim_time = std::max(p.sim_time, t[i] - start[i]);
  }
  return p;
}

static void gen_site(Rng & r, Cfg & c)
{
  c.lla[0] = r.u(-80, 80); c.lla[1] = r.u(-180, 180); c.lla[2] = r.u(-100, 4000);
  c.heading = r.p(0.2) ? 0 : r.u(-3.14, 3.14);
}

static Plan gen_streams(Rng & r, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed;
  gen_site(r, p.cfg);
  double errors = r.p(0.3) ? 0 : r.p(0.4) ? 1 : 0.6;
  gen_scen(r, p, errors, false);
  if (r.p(0.15)) {
    // many sensors, hardly any messages: the calibration errors as a sample
    p.profile = 1;
    std::vector<Op> base = p.ops;
    p.ops.clear();
    int n = r.i(30, 80);
    for (int i = 0; i < n; ++i) {
      Op o = base[static_cast<size_t>(i) % base.size()];
      SimSpec s = SimSpec::parse(o);
      s.rate = r.u(2, 4) / p.cfg.extra["max_time"]; s.no_errors = 0; s.trk_no_errors = 0; s.fid_no_errors = 0;
      if (r.p(0.5)) {s.time_error = 0;}
      s.store(o);
      o.s = i;
      p.ops.push_back(o);
    }
  }
  for (auto & o : p.ops) {
    SimSpec s = SimSpec::parse(o);
    p.faults[s.no_errors ? "no_errors" : "sensor_errors"] += 1;
    if (!s.no_errors && s.time_error > 0) {p.faults["time_jitter"] += 1;}
  }
  return p;
}

static Plan gen_app(Rng & r, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed;
  Cfg & c = p.cfg;
  gen_site(r, c);
  auto & x = c.extra;
  gen_scen(r, p, r.p(0.5) ? 0 : 0.6, true);
  x["log_rate"] = r.p(0.15) ? 0 : r.p(0.5) ? 10 : r.u(1, 60);
  x["level"] = r.i(0, 5);
  c.aug = r.i(0, 4); c.aug_dt = r.u(0.02, 1); c.aug_pos = r.lu(1e-3, 1); c.aug_ang = r.lu(1e-3, 0.5);
  for (int k = 0; k < 18; k += 3) {c.pn[k] = c.pn[k + 1] = c.pn[k + 2] = r.lu(1e-4, 1);}
  c.root = r.p(0.5); c.fej = r.p(0.3);
  c.gps_init = r.i(0, 2); c.baseline = r.lu(0.1, 50); c.pos_th = r.lu(0.01, 5); c.ang_th = r.lu(0.01, 2);
  c.chi2 = r.lu(0.05, 5); c.scale = r.lu(1, 200);
  for (int k = 0; k < 3; ++k) {x["b" + std::to_string(k)] = r.p(0.7) ? x["po" + std::to_string(k)] : r.u(-1, 1);}
  x["be"] = r.p(0.7) ? 0 : r.lu(1e-3, 0.5); x["bae"] = r.p(0.7) ? 0 : r.lu(1e-3, 0.2);
  x["ge"] = r.p(0.5) ? 0 : r.lu(1e-3, 1); x["he"] = r.p(0.5) ? 0 : r.lu(1e-3, 0.1);
  if (r.p(0.25)) {
    // nothing is wrong and the filter starts at the truth
    p.profile = 2;
    x["truth"] = 0; x["be"] = x["bae"] = x["ge"] = x["he"] = 0;
    for (int k = 0; k < 3; ++k) {std::string n = std::to_string(k); x["ao" + n] = 0; x["b" + n] = x["po" + n];}
    for (auto & o : p.ops) {
      SimSpec s = SimSpec::parse(o);
      s.no_errors = 1;
      for (int k = 2; k < 6; ++k) {s.intrin[k] = 0;}
      s.store(o);
    }
    if (x["log_rate"] == 0) {x["log_rate"] = 10;}
  } else if (r.p(0.4)) {
    p.profile = 1;
    x["cfg"] = r.i(0, 59); x["max_time"] = r.u(0.3, 1.2);
    if (r.p(0.3)) {x["rest"] = r.u(0.1, 1.5);} else {x["rest"] = 0;}
    p.ops.clear();
    p.faults["shipped_configuration"] += 1;
    p.sim_time = x["max_time"];
  }
  for (auto & o : p.ops) {
    SimSpec s = SimSpec::parse(o);
    p.faults[s.no_errors ? "no_errors" : "sensor_errors"] += 1;
  }
  x["clock"] = r.i(0, 2); x["start"] = std::floor(r.u(0, 2e9));
  x["stab"] = r.p(0.3) ? 0 : r.lu(1e-9, 1e-2); x["wire"] = r.p(0.5);
  if (x["clock"] != 0) {p.faults["wall_clock_frozen_or_erratic"] += 1;}
  if (r.p(0.3)) {
    const int k[9] = {1, 2, 3, 4, 5, 7, 8, 9, 2};
    x["f_kind"] = k[r.i(0, 8)]; x["f_after"] = r.p(0.4) ? 0 : r.i(0, 200); x["f_count"] = r.p(0.5) ? r.i(1, 5) : 1000000; x["f_arg"] = r.i(0, 60);
    p.faults["disk_fault"] += 1;
  }
  return p;
}

Plan generate(const std::string & prop, uint64_t seed, bool thorough)
{
  Rng r(seed);
  Prof f;
  if (r.p(thorough ? 0.3 : 0.1)) {f.max_ops *= r.i(2, 4);}
  // swarm: switch whole fault families off at random
  auto sw = [&](double & v, double off) {if (r.p(off)) {v = 0;}};
  bool calm = r.p(0.25);
  sw(f.loss, 0.4); sw(f.late, 0.4); sw(f.reorder, 0.4); sw(f.dup, 0.4); sw(f.outage, 0.5); sw(f.skew, 0.5);
  sw(f.jump, 0.7); sw(f.outlier, 0.4); sw(f.blackout, 0.5); sw(f.late_reg, 0.4); sw(f.dup_reg, 0.5); sw(f.dupnow, 0.4);
  int size = r.i(0, 3);
  if (size == 0) {f.imu[1] = f.gps[1] = f.cam[1] = f.fid[1] = 3;}
  if (size == 1) {f.gps[1] = f.fid[1] = 2;}
  if (calm) {f.loss = f.late = f.reorder = f.dup = f.outage = f.skew = f.jump = f.outlier = f.blackout = f.dupnow = 0;}
  if (prop == "C01") {f.late = 0.2; f.pastpred = 0.2; f.jump = 0.03; f.presplit = 0.3; f.early_predict = 0.5;}
  if (prop == "C02") {f.late_reg = 0.5; f.dup_reg = 0.1; f.unordered = 0.6; f.imu[1] = 3; f.gps[1] = 2; f.cam[1] = 2; f.fid[1] = 2; f.max_ops = 120;}
  if (prop == "C03") {f.wild = r.p(0.3) ? 0.02 : 0; f.presplit = 0.3; f.corr = 0.3;}
  if (prop == "C04") {f.wild = r.p(0.6) ? r.lu(0.01, 0.3) : 0; f.jump = 0.02; f.outlier = 0.05; f.presplit = 0.2;}
  if (prop == "C05") {f.presplit = 0.7; f.late_reg = 0.3;}
  if (prop == "C06") {f.presplit = 0.8; f.imu[0] = 1; f.gps[0] = 1; f.fid[1] = 2; f.gps_const = 0.8; f.corr = 0.4; f.tracks = 0.1; f.boards = 0.8;}
  if (prop == "C08") {f.ext = 0.4; f.intr = 0.4; f.late_reg = 0.3;}
  if (prop == "C09") {f.imu[0] = 1; f.imu[1] = 3; f.cam[1] = 1; f.presplit = 0.7; f.outlier = 0.05; f.aligned = 0.7;}
  if (prop == "C10") {
    if (r.p(0.6)) {return gen_gps_truth(r, prop, seed);}
    f.gps[0] = 1; f.gps[1] = 2; f.gps_const = 0.1; f.cam[1] = 1; f.presplit = 0.7; f.amp = 60; f.imu[0] = 1;
  }
  if (prop == "C11") {f.cam[0] = 1; f.cam[1] = 3; f.presplit = 0.8; f.max_track = 6; f.tracks = 0.15; f.aug = r.i(1, 4); f.gps[1] = 1;}
  if (prop == "C12") {f.cam[0] = 1; f.cam[1] = 2; f.presplit = 0.85; f.tracks = 0.9; f.boards = 0.1; f.long_tracks = true; f.gps[1] = 1; f.imu[1] = 1; f.aug = r.p(0.6) ? 1 : r.i(2, 4); f.ext = 0.6; f.max_track = 8; if (r.p(0.12)) {f.max_track = 30; f.max_ops = 160;} f.crowd = 0.1; f.coarse_px = 0.2;}
  if (prop == "C13") {f.log = 1; f.one_fid = true; f.presplit = 0.3; f.late_reg = 0.2; f.dup_reg = 0;}
  if (prop == "C20") {f.late_reg = 0.6; f.dup_reg = 0.2; f.unordered = 0.6; f.imu[1] = 3; f.gps[1] = 2; f.cam[1] = 2; f.fid[1] = 2; f.direct = 0.6; f.max_ops = 120; f.ext = 0.7; f.intr = 0.6; f.tiny_var = r.p(0.5); if (r.p(0.4)) {f.cam[0] = 1; f.aug = r.i(1, 4);}}
  if (prop == "C07") {f.cam[1] = 2; f.corr = 0.3; f.unordered = 0.3; f.late_reg = 0.3; f.outlier = 0.01; f.jump = 0; f.imu[1] = r.p(0.3) ? 2 : 1; f.tracks = 0.6;}
  if (prop == "C14") {f.log = 1; f.disk = r.p(0.7) ? 0.15 : 0; f.clockjump = r.p(0.5) ? 0.05 : 0;}
  if (prop == "C15") {f.log = 1; f.max_ops = r.p(0.15) ? 260 : 80;}
  if (prop == "C16") {f.init = r.p(0.3) ? 1 : 0.4; f.late_reg = std::max(f.late_reg, 0.2); f.log = 0.8; f.tracks = 0.8; f.truth_frac = 0.3; f.clockjump = r.p(0.3) ? 0.05 : 0;}
  if (prop == "C19") {f.log = 0.7; f.dyadic = true; f.init = 0;}
  for (const char * q : {"C01", "C05", "C11", "C13", "C14", "C15", "C16", "C19"}) {if (prop == q) {f.silence = 0.1;}}
  for (const char * q : {"C05", "C06"}) {if (prop == q && r.p(0.2)) {f.shock = 0.05;}}
  if (prop == "C13" && r.p(0.25)) {return gen_datalog(r, prop, seed);}
  if (prop == "C17") {return gen_streams(r, prop, seed);}
  if (prop == "C22") {return gen_app(r, prop, seed);}
  if (prop == "C21") {return gen_images(r, prop, seed);}
  if (prop == "C25") {return gen_ros(r, f, prop, seed);}
  if (prop == "C18") {return gen_recover(r, prop, seed);}
  if (prop == "C16" && seed % 8 >= 6) {
    Plan p = gen_app(r, prop, seed);
    p.cfg.extra["f_kind"] = 0; p.cfg.extra["app"] = 1;
    p.faults.erase("disk_fault");
    p.faults["memory_pattern"] += 1; p.faults["wall_clock_changed"] += 1;
    return p;
  }
  f.one_fid = f.one_fid || f.log > 0;      // two boards of one camera would share a log file
  Plan p = gen_filter(r, f, prop, seed);
  Cfg & c = p.cfg;
  if (prop == "C14") {
    c.extra["logs"] = r.p(0.85); c.extra["level"] = r.i(0, 4); c.extra["clock"] = r.i(0, 2); c.extra["full"] = r.p(0.2);
    c.extra["dirmode"] = r.p(0.7) ? 0 : r.i(1, 2);
    if (c.extra["dirmode"] != 0) {p.faults["missing_directory"] += 1;}
    if (c.extra["full"] != 0) {p.faults["stdout_full"] += 1;}
    if (c.extra["clock"] != 0) {p.faults["wall_clock_frozen_or_erratic"] += 1;}
  }
  if (prop == "C20") {
    for (auto & o : p.ops) {if (o.k == 'D' && seed % 2 == 0) {p.profile = 2;}}
  }
  if (prop == "C15") {
    c.extra["crash_op"] = r.p(0.2) ? r.i(0, 3) : r.i(0, static_cast<int>(p.ops.size()) - 1);
    c.extra["mode"] = r.p(0.6) ? 0 : 1; c.extra["write"] = r.u(); c.extra["bytes"] = r.p(0.2) ? 0 : r.i(1, 120);
  }
  if (prop == "C16") {
    c.extra["level"] = r.i(0, 4); c.extra["clock"] = r.i(0, 2); c.extra["start"] = std::floor(r.u(0, 2e9));
    p.faults["memory_pattern"] += 1;
    p.faults["wall_clock_changed"] += 1;
  }
  if (prop == "C19") {
    double s = r.p(0.3) ? static_cast<double>(r.i(-5000, 5000)) : r.p(0.5) ? 1.5e9 + r.i(0, 100000) : -static_cast<double>(r.i(0, 2000000000));
    if (r.p(0.2)) {
      // put one message exactly at the zero of the clock
      std::vector<double> t;
      for (auto & o : p.ops) {if (o.k == 'I' || o.k == 'G' || o.k == 'C') {t.push_back(o.t);}}
      if (!t.empty()) {s = -t[static_cast<size_t>(r.i(0, static_cast<int>(t.size()) - 1))];}
    } else {s += r.i(0, 1023) / 1024.0;}
    c.extra["shift"] = s;
    p.faults["epoch_shift"] += 1;
  }
  return p;
}
