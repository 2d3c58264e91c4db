// Plans for the ROS node: a configuration, publications with middleware faults, and the schedule of the executor.
#include <algorithm>
#include <cmath>
#include <set>

#include "checks.hpp"
#include "gen.hpp"
#include "scen.hpp"

Plan gen_ros(Rng & r, Prof f, const std::string & prop, uint64_t seed)
{
  Plan p;
  bool images = r.p(0.3);
  if (images) {
    p = gen_images(r, prop, seed);
    Cfg & c = p.cfg;
    int nc = 0;
    for (auto & s : c.sensors) {if (s.kind == K_CAM) {++nc;}}
    // one board per camera, of the default dictionary
    std::set<int> seen;
    std::vector<SensorSpec> keep;
    for (auto & s : c.sensors) {
      if (s.kind == K_FID) {
        if (!seen.insert(s.cam).second) {continue;}
        s.intrin[3] = 0; s.max_track = r.i(1, 8); s.min_track = r.i(0, 3);
      }
      keep.push_back(s);
    }
    c.sensors = keep;
    c.extra["shared"] = nc > 1 && r.p(0.5);
    if (c.extra["shared"] != 0) {
      SensorSpec & a = c.sensors[1];
      for (auto & s : c.sensors) {
        if (s.kind == K_CAM) {s.px_error = a.px_error; s.min_feat = a.min_feat; s.min_track = a.min_track; s.max_track = a.max_track;}
      }
    } else {for (auto & s : c.sensors) {if (s.kind == K_CAM) {s.max_track = r.i(2, 26);}}}
    if (r.p(0.4)) {
      SensorSpec g;
      g.kind = K_GPS; g.ext = r.p(0.5); g.rate = 5;
      for (double & v : g.pos) {v = r.u(-0.6, 0.6);}
      for (double & v : g.var) {v = r.lu(1e-4, 1);}
      g.stab[0] = r.lu(1e-9, 1e-3);
      c.sensors.push_back(g);
    }
    c.log = r.p(0.3); c.log_rate = 50;
    for (auto & s : c.sensors) {s.log_rate = r.p(0.2) ? 0 : r.lu(1, 200); if (s.kind == K_CAM || s.kind == K_IMU) {for (double & v : s.stab) {v = r.lu(1e-9, 1e-3);}}}
    c.gps_init = 0; c.lla[0] = r.u(-80, 80); c.lla[1] = r.u(-170, 170); c.lla[2] = r.u(-50, 1000); c.heading = r.u(-3, 3);
    c.chi2 = r.lu(1, 1e4); c.scale = r.p(0.5) ? 100 : r.lu(1, 500);
  } else {
    f.imu[0] = r.p(0.9) ? 1 : 0; f.imu[1] = 3; f.gps[1] = 2; f.cam[0] = f.cam[1] = 0; f.fid[0] = f.fid[1] = 0;
    f.direct = 0; f.init = 0; f.log = 0.4; f.late_reg = 0; f.dup_reg = 0; f.presplit = 0; f.pastpred = 0; f.early_predict = 0; f.unordered = 0;
    f.max_ops = 90; f.span[0] = 1; f.span[1] = 6; f.clockjump = f.disk = 0;
    p = gen_filter(r, f, prop, seed);
    p.cfg.extra["shared"] = 0;
  }
  Cfg & c = p.cfg;
  auto & x = c.extra;
  c.do_init = 0; c.log_level = r.i(0, 5);
  x["names"] = r.i(0, 999);
  for (auto & s : c.sensors) {if (s.kind == K_FID) {s.log_rate = c.sensors[static_cast<size_t>(s.cam)].log_rate;}}
  for (int k = 0; k < 18; k += 3) {c.pn[k] = r.lu(1e-6, 1e-1); c.pn[k + 1] = c.pn[k + 2] = c.pn[k];}
  std::vector<Op> pub;
  double lo = 1e18;
  for (auto & o : p.ops) {if (o.k == 'I' || o.k == 'G' || o.k == 'J') {pub.push_back(o); lo = std::min(lo, o.t);}}
  double shift = pub.empty() || lo >= 0 ? 0 : std::ceil(-lo);
  if (images) {shift += r.p(0.5) ? 0 : 1.6e9;}
  int gps = -1;
  for (size_t i = 0; i < c.sensors.size(); ++i) {if (c.sensors[i].kind == K_GPS) {gps = static_cast<int>(i);}}
  p.ops.clear();
  bool backlog = r.p(0.5);
  double nofix = r.p(0.5) ? 0 : 0.1, now = 0;
  auto run = [&](int n, bool drain) {
      Op e;
      e.k = 'E';
      for (int i = 0; i < n; ++i) {e.d.push_back(r.u());}
      if (drain) {e.d.push_back(-1);}
      p.ops.push_back(e);
    };
  double loss = images || r.p(0.6) ? 0 : 0.1, swap = r.p(0.6) ? 0 : 0.1, dup = r.p(0.7) ? 0 : 0.1;
  int n = 0;
  for (size_t i = 0; i < pub.size(); ++i) {
    Op o = pub[i];
    o.t += shift;
    if (o.t < 0 || o.t > 2.1e9) {continue;}
    if (r.p(loss)) {p.faults["loss"] += 1; continue;}
    if (o.k == 'J') {o.d.push_back(r.p(0.5) ? 0 : r.i(0, 3));}
    if (o.k == 'G') {
      bool no = r.p(nofix);
      if (no) {
        o.tag = F_BLACKOUT;
        p.faults["no_fix"] += 1;
        if (r.p(0.5)) {for (int k = 0; k < 3; ++k) {o.d[static_cast<size_t>(k)] = r.p(0.5) ? NAN : 0.0;}}
      }
      o.d.push_back(no ? -1 : r.i(0, 2));
    }
    p.ops.push_back(o);
    if (images && gps >= 0 && r.p(0.05)) {
      Op g;
      g.k = 'G'; g.s = gps; g.t = o.t;
      g.d = {c.lla[0] + r.u(-1e-5, 1e-5), c.lla[1] + r.u(-1e-5, 1e-5), c.lla[2] + r.u(-2, 2)};
      double v = r.lu(1e-2, 10);
      for (int k = 0; k < 9; ++k) {g.d.push_back(k % 4 == 0 ? v * (1 + k) : k % 4 == 1 ? 0.1 * v : k == 3 || k == 7 ? 0.1 * v : 0);}
      // symmetric
      g.d[3 + 3] = g.d[3 + 1]; g.d[3 + 7] = g.d[3 + 5]; g.d[3 + 6] = g.d[3 + 2];
      g.d.push_back(r.i(0, 2));
      p.ops.push_back(g);
    }
    if (r.p(dup)) {o.tag = F_DUP; p.faults["duplicate"] += 1; p.ops.push_back(o);}
    if (r.p(swap) && p.ops.size() >= 2) {std::swap(p.ops.back(), p.ops[p.ops.size() - 2]); p.faults["reorder"] += 1;}
    ++n;
    double dt = r.p(0.9) ? r.u(0, 0.2) : r.u(0, 3);
    now += dt;
    Op t;
    t.k = 'T'; t.d = {dt};
    p.ops.push_back(t);
    if (dt > 1) {p.faults["stall"] += 1;}
    if (!backlog || r.p(0.5)) {run(r.i(1, 3), r.p(0.4));} else if (r.p(0.1)) {
      run(r.i(0, 30), r.p(0.3)); p.faults["executor_behind"] += 1;
    }
  }
  if (r.p(0.05)) {p.profile = 1; p.ops.clear(); p.faults["shipped_configuration"] += 1; Op t; t.k = 'T'; t.d = {3.5}; p.ops.push_back(t); Op e; e.k = 'E'; e.d = {-1}; p.ops.push_back(e); n = 0;}
  p.sim_time = now;
  return p;
}
