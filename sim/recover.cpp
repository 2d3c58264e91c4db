// Recovery: an inertial unit that stays good, a satellite receiver that misbehaves for a while.
// The plan holds the scenario and the list of faults; the message streams follow from them.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <set>

#include "checks.hpp"
#include "exec.hpp"
#include "gen.hpp"
#include "scen.hpp"
#include "world.hpp"

namespace
{
struct Msg {double deliver; int seq; Op op; bool imu; bool clean; double t;};

Vector3d to_lla(const Cfg & c, const Vector3d & local)
{
  Vector3d ref(c.lla[0], c.lla[1], c.lla[2]);
  double a = -c.heading;
  Vector3d enu(
    std::cos(a) * local(0) - std::sin(a) * local(1), std::sin(a) * local(0) + std::cos(a) * local(1), local(2));
  return r_ecef_to_lla(r_lla_to_ecef(ref) + r_enu_rot(ref).transpose() * enu);
}
}  // namespace

void run_recover(const Plan & p, const std::string & dir, RunOut & out)
{
  (void)dir;
  *g_progress = 0;
  Cfg c = p.cfg;
  Rng tr(static_cast<uint64_t>(xget(p, "traj")));
  Traj m(tr, xget(p, "rest"), xget(p, "amp"), xget(p, "rot"));
  m.q0 = Quaterniond(Eigen::AngleAxisd(xget(p, "yaw"), Vector3d::UnitZ()));
  double span = xget(p, "span"), epoch = xget(p, "epoch"), sa = xget(p, "sa"), sw = xget(p, "sw"), sg = xget(p, "sg");
  double settle = xget(p, "settle");
  const SensorSpec & si = c.sensors[0], & sgp = c.sensors[1];
  Quaterniond qi(si.ang[0], si.ang[1], si.ang[2], si.ang[3]);
  Vector3d arm(sgp.pos[0], sgp.pos[1], sgp.pos[2]);
  // ---- streams
  std::vector<Msg> v;
  Rng noise(static_cast<uint64_t>(xget(p, "noise")));
  int seq = 0;
  for (int n = 0;; ++n) {
    double t = n / si.rate;
    if (t >= span) {break;}
    Msg x{t, seq++, Op(), true, true, t};
    Quaterniond q = m.ang(t);
    Vector3d a = qi.conjugate() * (q.conjugate() * (m.acc(t) + Vector3d(0, 0, 9.80665))), w = qi.conjugate() * m.omega(t);
    for (int k = 0; k < 3; ++k) {a(k) += si.ba[k] + sa * noise.n(); w(k) += si.bg[k] + sw * noise.n();}
    x.op.k = 'I'; x.op.s = 0; x.op.t = epoch + t;
    for (int k = 0; k < 3; ++k) {x.op.d.push_back(a(k));}
    for (int k = 0; k < 3; ++k) {x.op.d.push_back(w(k));}
    for (int k = 0; k < 9; ++k) {x.op.d.push_back(k % 4 == 0 ? sa * sa : 0);}
    for (int k = 0; k < 9; ++k) {x.op.d.push_back(k % 4 == 0 ? sw * sw : 0);}
    v.push_back(x);
  }
  std::vector<Msg> g;
  for (int n = 0;; ++n) {
    double t = 0.013 + n / sgp.rate;
    if (t >= span) {break;}
    Msg x{t, seq++, Op(), false, true, t};
    Vector3d l = m.pos(t) + m.ang(t) * arm;
    for (int k = 0; k < 3; ++k) {l(k) += sg * noise.n();}
    Vector3d lla = to_lla(c, l);
    x.op.k = 'G'; x.op.s = 1; x.op.t = epoch + t;
    for (int k = 0; k < 3; ++k) {x.op.d.push_back(lla(k));}
    for (int k = 0; k < 9; ++k) {x.op.d.push_back(k % 4 == 0 ? sg * sg : 0);}
    g.push_back(x);
  }
  // ---- faults
  std::vector<Msg> good = v;
  good.insert(good.end(), g.begin(), g.end());
  std::vector<Msg> more;
  double first = 1e300, last = 0;
  bool gps_only = true;
  int kinds = 0;
  auto hit = [&](double t) {first = std::min(first, t); last = std::max(last, t);};
  std::vector<bool> gone_g(g.size(), false), gone_i(v.size(), false);
  for (auto & o : p.ops) {
    if (o.k != 'A' || o.d.size() < 5) {continue;}
    auto & list = o.s == 0 ? v : g;
    auto & gone = o.s == 0 ? gone_i : gone_g;
    size_t i = static_cast<size_t>(o.d[0]);
    if (i >= list.size()) {continue;}
    if (o.s == 0) {gps_only = false;}
    Msg & x = list[i];
    hit(x.t);
    if (o.tag == F_LOSS) {gone[i] = true;}
    if (o.tag == F_OUTAGE) {
      for (size_t k = i; k < list.size() && k < i + static_cast<size_t>(o.d[1]); ++k) {gone[k] = true; hit(list[k].t);}
    }
    if (o.tag == F_LATE || o.tag == F_REORDER) {x.deliver += o.d[1];}
    if (o.tag == F_DUP) {Msg y = x; y.deliver += o.d[1]; y.seq = seq++; more.push_back(y); hit(y.deliver);}
    if (o.tag == F_OUTLIER && o.s == 1) {
      Vector3d l = m.pos(x.t) + m.ang(x.t) * arm + Vector3d(o.d[2], o.d[3], o.d[4]);
      Vector3d lla = to_lla(c, l);
      for (int k = 0; k < 3; ++k) {x.op.d[static_cast<size_t>(k)] = lla(k);}
    }
    if (o.tag == F_OUTLIER && o.s == 0) {for (int k = 0; k < 3; ++k) {x.op.d[static_cast<size_t>(k)] += o.d[static_cast<size_t>(2 + k)];}}
    x.clean = false;
    hit(x.deliver);
    out.cnt["ops"] += 1;
    kinds |= 1 << (o.tag + (o.s == 0 ? 12 : 0));
    out.cnt[std::string("fault.") + fault_names[o.tag]] += 1;
  }
  std::vector<Msg> bad;
  for (size_t i = 0; i < v.size(); ++i) {if (!gone_i[i]) {bad.push_back(v[i]);}}
  for (size_t i = 0; i < g.size(); ++i) {if (!gone_g[i]) {bad.push_back(g[i]);}}
  bad.insert(bad.end(), more.begin(), more.end());
  // both filters predict to the same instants: a fix that never arrives, or arrives too late, becomes a prediction
  auto stops = [&](std::vector<Msg> & in, const std::vector<Msg> & other) {
      std::set<double> have;
      for (auto & x : in) {if (!x.imu) {have.insert(x.op.t);}}
      for (auto & x : other) {
        if (x.imu || !have.insert(x.op.t).second) {continue;}
        Msg y = x; y.op.k = 'P'; y.op.d.clear(); y.clean = false; y.deliver = y.t; y.seq = seq++;
        in.push_back(y);
      }
    };
  for (auto & x : bad) {if (!x.imu && x.deliver > x.t) {Msg y = x; y.op.k = 'P'; y.op.d.clear(); y.clean = false; y.deliver = y.t; y.seq = -1; more.push_back(y);}}
  stops(bad, good);
  for (auto & x : more) {if (x.seq == -1) {bad.push_back(x);}}
  // ---- two runs
  auto set = [](double * d, const Vector3d & x) {for (int k = 0; k < 3; ++k) {d[k] = x(k);}};
  c.do_init = 1; c.t0 = epoch;
  set(c.body, m.pos(0)); set(c.body + 3, m.vel(0)); set(c.body + 6, m.acc(0) + Vector3d(0, 0, 9.80665));
  c.body[9] = m.q0.w(); c.body[10] = m.q0.x(); c.body[11] = m.q0.y(); c.body[12] = m.q0.z();
  struct Est {double t; Vector3d p, v; Quaterniond q; bool lla; double vp, vv; double cur;};
  auto go = [&](std::vector<Msg> & in) {
      std::stable_sort(in.begin(), in.end(), [](const Msg & a, const Msg & b) {return a.deliver < b.deliver || (a.deliver == b.deliver && a.seq < b.seq);});
      std::vector<Est> e;
      World w(c, "", 0);
      Op reg; reg.k = 'R'; reg.s = 0; w.apply(reg); reg.s = 1; w.apply(reg);
      bool lla_before = false;
      for (auto & x : in) {
        if (x.t < first) {lla_before = w.ekf->IsLlaInitialized();}
        w.apply(x.op);
        *g_progress = static_cast<int>(e.size());
        if (x.imu || !x.clean || x.t <= last + (std::getenv("SIM_VERBOSE") ? 0 : settle)) {continue;}
        const BodyState & b = w.ekf->m_state.body_state;
        Eigen::VectorXd d = w.ekf->GetVariances(0, 18);
        e.push_back({x.t, b.pos_b_in_l, b.vel_b_in_l, b.ang_b_to_l, lla_before || c.gps_init == 0, d.segment<3>(0).maxCoeff(), d.segment<3>(3).maxCoeff(), w.ekf->GetCurrentTime()});
      }
      return e;
    };
  std::vector<Est> ea = go(good), eb = go(bad);
  out.cnt["eval.C18"] += 1;
  if (ea.size() != eb.size()) {fail(out, -1, "harness", "the two runs have different clean phases"); return;}
  if (ea.empty()) {out.cnt["probe.no_clean_phase"] += 1; return;}
  if (!ea[0].lla || !eb[0].lla) {out.cnt["probe.frame_not_ready"] += 1; return;}
  double om = xget(p, "om"), size = xget(p, "size"), dp = 0, dv = 0, gp = 0, gv = 0, wp = 0, wv = 0, wq = 0, rp = 1, rv = 1, dq = 0;
  uint64_t h = 3;
  auto ratio = [](double a, double b) {return std::max(a / b, b / a);};
  for (size_t k = 0; k < ea.size(); ++k) {
    const Est & a = ea[k], & b = eb[k];
    if (!b.p.allFinite() || !b.v.allFinite()) {fail(out, 0, "finite", "the estimate is not finite after the faults"); return;}
    if (b.cur != a.cur) {fail(out, 0, "time", fmt("after the faults the filter is at %.9g instead of %.9g", b.cur, a.cur)); return;}
    dp = std::max(dp, (a.p - b.p).norm()); dv = std::max(dv, (a.v - b.v).norm());
    dq = std::max(dq, rlog(a.q * b.q.inverse()).norm());
    gp = std::max(gp, (a.p - m.pos(a.t)).norm()); gv = std::max(gv, (a.v - m.vel(a.t)).norm());
    wp = std::max(wp, (b.p - m.pos(b.t)).norm()); wv = std::max(wv, (b.v - m.vel(b.t)).norm());
    wq = std::max(wq, rlog(b.q * m.ang(b.t).inverse()).norm());
    rp = std::max(rp, ratio(a.vp, b.vp)); rv = std::max(rv, ratio(a.vv, b.vv));
    mixd(h, b.p(0)); mixd(h, b.v(1));
    if (std::getenv("SIM_VERBOSE")) {
      std::fprintf(stderr, "t %.3f dp %.3g dv %.3g dq %.3g | error %.3g %.3g\n", a.t, (a.p - b.p).norm(), (a.v - b.v).norm(),
        rlog(a.q * b.q.inverse()).norm(), (b.p - m.pos(b.t)).norm(), (b.v - m.vel(b.t)).norm());
    }
    out.cnt["eval.clean_fixes"] += 1;
  }
  out.hash = h;
  uint64_t st = 7;
  for (int k : {int(c.root), int(c.aug), int(c.direct), int(c.gps_init), int(c.fej), int(kinds)}) {mix(st, static_cast<uint64_t>(k));}
  out.states.insert(st);
  // how far the fault-free filter itself is from the truth sets the scale; a missed sample of a good IMU moves the
  // estimate more lastingly than a bad fix, so faults of the IMU get the wider band
  // (attitude is not judged: what it differs by acts as an acceleration on the position loop)
  double f = gps_only ? 0.1 : 0.3, tp = f * (sg + gp) + 1e-6 * size + 20 * dq / (om * om), tv = f * (sg * om + gv) + 1e-6 * size * om + 20 * dq / om;
  double bound = 8 * (sg + 9.81 * wq / (om * om)) + 0.5;
  if (std::getenv("SIM_CAL")) {
    std::ofstream fo(std::getenv("SIM_CAL"), std::ios::app);
    fo << fmt("seed %llu nf %zu size %.3g sg %.3g om %.3g dp %.3g dv %.3g gp %.3g wp %.3g wv %.3g wq %.3g gi %d only %d tp %.3g tv %.3g bound %.3g rp %.4g rv %.4g settle %.3g\n",
      static_cast<unsigned long long>(p.seed), p.ops.size(), size, sg, om, dp, dv, gp, wp, wv, wq, c.gps_init, gps_only, tp, tv, bound, rp, rv, settle);
  }
  if (dp > tp || dv > tv) {
    fail(out, 0, "not recovered", fmt("%.1f s of clean data after the last fault the estimate is %.3g m and %.3g m/s away from a filter that saw no fault (allowed %.3g, %.3g)", settle, dp, dv, tp, tv));
    return;
  }
  if (rp > 1.2 || rv > 1.2) {
    fail(out, 0, "covariance not recovered", fmt("%.1f s of clean data after the last fault the position or velocity variance is %.3g times that of a filter that saw no fault", settle, std::max(rp, rv)));
    return;
  }
  if (gps_only && c.gps_init == 0 && wp > bound) {
    fail(out, 0, "not near the truth", fmt("%.1f s of clean data after the last fault the position is %.3g m from the truth (allowed %.3g)", settle, wp, bound));
  }
}

Plan gen_recover(Rng & r, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed;
  Cfg & c = p.cfg;
  auto & x = c.extra;
  bool imu_faults = r.p(0.3);
  c.root = r.p(0.5); c.fej = r.p(0.2); c.direct = r.p(0.5); c.aug = r.p(0.5) ? 0 : 3; c.aug_dt = r.u(0.2, 1);
  c.gps_init = r.p(0.75) ? 0 : r.i(1, 2);
  c.max_track = r.i(2, 5); c.set_max_track = 1;
  c.lla[0] = r.u(-80, 80); c.lla[1] = r.u(-179, 179); c.lla[2] = r.u(-100, 3000); c.heading = r.u(-3.1, 3.1);
  c.chi2 = r.lu(0.3, 1); c.scale = 100;
  c.baseline = r.lu(0.2, 3); c.pos_th = 100; c.ang_th = 10;
  SensorSpec i, g;
  i.kind = K_IMU; i.id = static_cast<unsigned>(r.i(1, 9)); i.rate = r.u(40, 100);
  i.ext = r.p(0.2); i.intr = r.p(0.2);
  for (double & v : i.var) {v = 1e-6;}
  Quaterniond q = rexp(Vector3d(r.u(-0.8, 0.8), r.u(-0.8, 0.8), r.u(-0.8, 0.8)));
  i.ang[0] = q.w(); i.ang[1] = q.x(); i.ang[2] = q.y(); i.ang[3] = q.z();
  for (int k = 0; k < 3; ++k) {i.ba[k] = r.p(0.5) ? 0 : r.u(-0.1, 0.1); i.bg[k] = r.p(0.5) ? 0 : r.u(-0.02, 0.02);}
  g.kind = K_GPS; g.id = i.id + static_cast<unsigned>(r.i(1, 9)); g.rate = r.u(2, 10);
  x["sa"] = r.lu(3e-3, 0.05); x["sw"] = imu_faults ? 0 : r.lu(1e-4, 3e-3); x["sg"] = r.lu(0.03, 2);
  if (imu_faults) {for (double & v : i.bg) {v = 0;} i.intr = 0;}
  c.sensors = {i, g};
  double pp = r.lu(1e-6, 1e-2), pv = r.lu(1e-4, 1), pa = r.lu(1e-3, 1), pq = r.lu(1e-8, 1e-4);
  // a filter that can settle in reasonable time
  double size = r.lu(1, 1000), sg = x["sg"];
  double om = std::pow(pv * g.rate / (sg * sg), 0.25), need = 2.5 * std::log(10 * size / sg + 30);
  if (need / om > 30) {om = need / 30; pv = std::pow(om, 4) * sg * sg / g.rate;}
  pp = std::min(pp, om * om * sg * sg / g.rate);  // more position noise than this makes the velocity a slow mode
  double settle = 2 + need / om;
  for (int k = 0; k < 3; ++k) {c.pn[k] = pp; c.pn[3 + k] = pv; c.pn[6 + k] = pa; c.pn[9 + k] = pq; c.pn[12 + k] = pq; c.pn[15 + k] = pq;}
  x["om"] = om; x["size"] = size; x["settle"] = settle;
  x["traj"] = r.i(1, 1000000); x["noise"] = r.i(1, 1000000);
  x["rest"] = r.u(0, 2); x["amp"] = r.lu(0.1, 3); x["rot"] = imu_faults ? 0 : r.u(0.02, 0.6); x["yaw"] = r.u(-3, 3);
  double lead = x["rest"] + r.u(1.5, 6), fault = r.u(0.5, 8), judge = 3;
  x["span"] = lead + fault + 3.5 + settle + judge; x["epoch"] = r.p(0.5) ? 0 : r.u(0, 2000);
  bool calm = r.p(0.03);
  for (int s = imu_faults ? 0 : 1; s < 2 && !calm; ++s) {
    double rate = s == 0 ? i.rate : g.rate;
    int first = static_cast<int>(lead * rate), n = std::max(1, static_cast<int>(fault * rate));
    double weight[6];
    for (double & v : weight) {v = r.p(0.5) ? 0 : r.u(0, 0.5) * (s == 0 ? 0.3 : 1);}
    for (int k = 0; k < n; ++k) {
      auto add = [&](int tag, double d1) {
          double z = s == 0 ? std::min(size, 20.0) : size;
          Op o; o.k = 'A'; o.s = s; o.tag = tag; o.t = (first + k) / rate;
          o.d = {static_cast<double>(first + k), d1, z * r.n(), z * r.n(), z * r.n()};
          p.ops.push_back(o);
          p.faults[std::string(s == 0 ? "imu_" : "gps_") + fault_names[tag]] += 1;
        };
      if (r.p(weight[0])) {add(F_LOSS, 0);}
      if (r.p(weight[1])) {add(F_LATE, r.p(0.5) ? r.u(0, 0.5) : r.u(0, 3));}
      if (r.p(weight[2])) {add(F_DUP, r.p(0.5) ? 0 : r.u(0, 2));}
      if (r.p(weight[3] * 0.5)) {add(F_OUTLIER, 0);}
      if (r.p(weight[4])) {add(F_REORDER, r.u(imu_faults ? -0.15 : 0, 0.15));}
      if (r.p(weight[5] * 0.1)) {add(F_OUTAGE, r.i(1, n - k));}
    }
  }
  p.sim_time = x["span"];
  return p;
}
