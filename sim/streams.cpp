// Simulated sensor streams: times, contents, noise, tracks.
#include "streams.hpp"

#include "exec.hpp"

#include <opencv2/opencv.hpp>

#include "ekf/ekf.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/sim/sim_rng.hpp"
#include "world.hpp"

SimMsg of(const ImuMessage & m)
{
  SimMsg s;
  s.type = SimSpec::IMU_; s.id = m.sensor_id; s.t = m.time; s.addr = &m;
  s.a = m.acceleration; s.w = m.angular_rate; s.Ra = m.acceleration_covariance; s.Rw = m.angular_rate_covariance;
  return s;
}
SimMsg of(const GpsMessage & m)
{
  SimMsg s;
  s.type = SimSpec::GPS_; s.id = m.sensor_id; s.t = m.time; s.addr = &m;
  s.a = m.gps_lla; s.Ra = m.pos_covariance;
  return s;
}
SimMsg of(const SimCameraMessage & m)
{
  SimMsg s;
  s.type = SimSpec::CAM_; s.id = m.sensor_id; s.t = m.time; s.addr = &m; s.frame = m.frame_id;
  for (auto & f : m.feature_track_messages) {
    ++s.trackers;
    s.tracks.insert(s.tracks.end(), f->feature_tracks.begin(), f->feature_tracks.end());
  }
  for (auto & b : m.fiducial_track_messages) {if (b->is_board_visible) {s.boards.push_back(b->board_detection);}}
  return s;
}

static Vector3d V3(const double * d) {return Vector3d(d[0], d[1], d[2]);}
static Quaterniond Q4(const double * d) {return Quaterniond(d[0], d[1], d[2], d[3]).normalized();}

// roll, pitch, yaw -> body to local
static Quaterniond rpy(const Vector3d & e)
{
  auto h = [](double a, int k) {Quaterniond q(std::cos(a / 2), 0, 0, 0); q.vec()(k) = std::sin(a / 2); return q;};
  return h(e(2), 2) * h(e(1), 1) * h(e(0), 0);
}

Motion cyclic_motion(const Scen & s)
{
  auto wave = [s](const double * f, double amp, const double * off, int k, int d, double t) {
      double w = 2 * M_PI * f[k], x = t - s.rest;
      if (x < 0) {return d == 0 ? off[k] : 0.0;}
      if (d == 0) {return off[k] + amp / 2 * (1 - std::cos(w * x));}
      if (d == 1) {return amp / 2 * w * std::sin(w * x);}
      return amp / 2 * w * w * std::cos(w * x);
    };
  auto v3 = [wave, s](bool ang, int d, double t) {
      Vector3d o;
      for (int k = 0; k < 3; ++k) {o(k) = ang ? wave(s.af, s.aa, s.ao, k, d, t) : wave(s.pf, s.pa, s.po, k, d, t);}
      return o;
    };
  Motion m;
  m.pos = [v3](double t) {return v3(false, 0, t);};
  m.vel = [v3](double t) {return v3(false, 1, t);};
  m.acc = [v3](double t) {return v3(false, 2, t);};
  m.q = [v3](double t) {return rpy(v3(true, 0, t));};
  // body rates of the rotation Rz Ry Rx, and their derivative
  m.w = [v3](double t) {
      Vector3d e = v3(true, 0, t), d = v3(true, 1, t);
      double sr = std::sin(e(0)), cr = std::cos(e(0)), sp = std::sin(e(1)), cp = std::cos(e(1));
      return Vector3d(d(0) - sp * d(2), cr * d(1) + sr * cp * d(2), -sr * d(1) + cr * cp * d(2));
    };
  m.al = [v3](double t) {
      Vector3d e = v3(true, 0, t), d = v3(true, 1, t), a = v3(true, 2, t);
      double sr = std::sin(e(0)), cr = std::cos(e(0)), sp = std::sin(e(1)), cp = std::cos(e(1));
      return Vector3d(
        a(0) - sp * a(2) - cp * d(1) * d(2),
        cr * a(1) + sr * cp * a(2) - sr * d(0) * d(1) + (cr * cp * d(0) - sr * sp * d(1)) * d(2),
        -sr * a(1) + cr * cp * a(2) - cr * d(0) * d(1) + (-sr * cp * d(0) - cr * sp * d(1)) * d(2));
    };
  return m;
}

Motion engine_motion(std::shared_ptr<TruthEngine> e)
{
  Motion m;
  m.pos = [e](double t) {return Vector3d(e->GetBodyPosition(t));};
  m.vel = [e](double t) {return Vector3d(e->GetBodyVelocity(t));};
  m.acc = [e](double t) {return Vector3d(e->GetBodyAcceleration(t));};
  m.w = [e](double t) {return Vector3d(e->GetBodyAngularRate(t));};
  m.al = [e](double t) {return Vector3d(e->GetBodyAngularAcceleration(t));};
  m.q = [e](double t) {return Quaterniond(e->GetBodyAngularPosition(t));};
  return m;
}

// ------------------------------------------------------------------ statistics
bool check_noise(RunOut & out, int op, const std::string & what, const std::vector<double> & r, double sigma, double tol)
{
  for (double v : r) {
    if (!(std::abs(v) <= 7.5 * sigma + tol)) {
      return fail(out, op, "noise", fmt("%s: an error of %.6g where the configured deviation is %.6g", what.c_str(), v, sigma));
    }
  }
  double n = static_cast<double>(r.size());
  if (r.size() < 12 || sigma < 50 * tol || sigma <= 0) {return true;}
  double s = 0, s2 = 0, lag = 0;
  for (size_t i = 0; i < r.size(); ++i) {s += r[i]; s2 += r[i] * r[i]; if (i) {lag += r[i] * r[i - 1];}}
  out.cnt["probe.noise_samples"] += n;
  if (std::abs(s) > 7.5 * sigma * std::sqrt(n) + tol * n) {
    return fail(out, op, "noise", fmt("%s: the errors average %.6g over %zu samples of deviation %.6g", what.c_str(), s / n, r.size(), sigma));
  }
  double c = s2 / (sigma * sigma) / n, z = (std::cbrt(c) - (1 - 2 / (9 * n))) / std::sqrt(2 / (9 * n));
  double slack = 3 * tol / sigma * std::sqrt(n);
  if (std::abs(z) > 8 + slack) {
    return fail(out, op, "noise", fmt("%s: the errors have deviation %.6g over %zu samples, configured %.6g", what.c_str(), std::sqrt(s2 / n), r.size(), sigma));
  }
  if (std::abs(lag) > sigma * sigma * (30 + (9 + slack) * std::sqrt(n))) {     // the tail is exponential
    return fail(out, op, "noise", fmt("%s: successive errors are correlated (%.3g)", what.c_str(), lag / s2));
  }
  return true;
}

// standardised draws of different sensors
bool check_scatter(RunOut & out, const std::string & what, const std::vector<double> & z)
{
  return check_noise(out, out.op, what, z, 1, 1e-7);
}

static bool pairs(RunOut & out, int op, const std::string & what, const std::vector<double> * r, const Vector3d & sg, double tol)
{
  for (int k = 0; k < 3; ++k) {if (!check_noise(out, op, what + " " + "xyz"[k], r[k], sg(k), tol)) {return false;}}
  double n = static_cast<double>(r[0].size());
  for (int k = 0; k < 3; ++k) {
    int j = (k + 1) % 3;
    if (n < 30 || sg(k) < 50 * tol || sg(j) < 50 * tol || sg(k) <= 0 || sg(j) <= 0) {continue;}
    double s = 0;
    for (size_t i = 0; i < r[k].size(); ++i) {s += r[k][i] / sg(k) * r[j][i] / sg(j);}
    if (std::abs(s) > 20 + 9 * std::sqrt(n) + 5 * n * (tol / sg(k) + tol / sg(j))) {
      return fail(out, op, "noise", fmt("%s: the errors of axes %c and %c are correlated (%.3g)", what.c_str(), "xyz"[k], "xyz"[j], s / n));
    }
  }
  return true;
}

// ------------------------------------------------------------------ times
bool check_times(RunOut & out, int op, const SimSpec & z, double max_time, const std::vector<double> & t)
{
  size_t n = static_cast<size_t>(std::floor(max_time * z.rate));
  if (t.size() != n) {
    return fail(out, op, "count", fmt("a sensor of rate %.9g produced %zu messages in %.9g s, expected %zu", z.rate, t.size(), max_time, n));
  }
  out.cnt["eval.times"] += static_cast<double>(n);
  if (z.no_errors) {
    for (size_t i = 0; i < n; ++i) {
      double e = static_cast<double>(i) / z.rate;
      if (!(std::abs(t[i] - e) <= 1e-12 * (1 + e))) {return fail(out, op, "times", fmt("message %zu of an error-free sensor is at %.12g, expected %.12g", i, t[i], e));}
    }
    return true;
  }
  if (n == 0) {return true;}
  std::vector<double> d;
  double mean = 0;
  for (size_t i = 0; i < n; ++i) {d.push_back(t[i] - static_cast<double>(i) / z.rate); mean += d.back() / static_cast<double>(n);}
  for (size_t i = 0; i < n; ++i) {
    if (!(d[i] >= -8 * z.time_error - 1e-12 && d[i] <= 1 / z.rate + 8 * z.time_error + 1e-12)) {
      return fail(out, op, "times", fmt("message %zu is at %.9g: %.6g away from its schedule", i, t[i], d[i]));
    }
  }
  for (double & v : d) {v -= mean;}
  if (n == 1) {return true;}
  return check_noise(out, op, "message times", d, z.time_error, 1e-11);
}

// ------------------------------------------------------------------ inertial
bool check_imu(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c, const std::vector<SimMsg> & msgs)
{
  std::vector<double> ra[3], rw[3];
  Vector3d sa = V3(z.ae), sw = V3(z.we);
  double worst = 0;
  for (auto & x : msgs) {
    Vector3d w = m.w(x.t), al = m.al(x.t);
    Vector3d b = m.q(x.t).inverse() * (m.acc(x.t) + Vector3d(0, 0, 9.80665)) + al.cross(c.pos) + w.cross(w.cross(c.pos));
    Vector3d ea = x.a - (c.q.inverse() * b + c.ba), ew = x.w - (c.q.inverse() * w + c.bg);
    double tol = 1e-9 * (1 + b.norm() + w.norm() + al.norm()) + c.tol * (3 * b.norm() + al.norm() + 2 * w.squaredNorm() + w.norm() + 1);
    worst = std::max(worst, tol);
    if (z.no_errors) {
      if (!(ea.norm() <= tol) || !(ew.norm() <= tol)) {
        return fail(out, op, "imu", fmt("error-free IMU at %.9g: specific force is off by %.6g, angular rate by %.6g", x.t, ea.norm(), ew.norm()));
      }
    }
    for (int k = 0; k < 3; ++k) {ra[k].push_back(ea(k)); rw[k].push_back(ew(k));}
    Matrix3d Ra = sa.cwiseProduct(sa).asDiagonal(), Rw = sw.cwiseProduct(sw).asDiagonal();
    if (!((x.Ra - Ra).norm() <= 1e-12 * (1e-9 + Ra.norm())) || !((x.Rw - Rw).norm() <= 1e-12 * (1e-9 + Rw.norm()))) {
      return fail(out, op, "covariance", "the covariance of an IMU message is not the square of the configured error");
    }
  }
  out.cnt["eval.imu"] += static_cast<double>(msgs.size());
  if (z.no_errors) {return true;}
  return pairs(out, op, "accelerometer", ra, sa, worst) && pairs(out, op, "gyroscope", rw, sw, worst);
}

// ------------------------------------------------------------------ satellite positions
bool check_gps(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c, const Site & site, const std::vector<SimMsg> & msgs)
{
  Vector3d sg = V3(z.lla_err);
  std::vector<double> r[3];
  for (auto & x : msgs) {
    Matrix3d R = sg.cwiseProduct(sg).asDiagonal();
    if (!((x.Ra - R).norm() <= 1e-12 * (1e-9 + R.norm()))) {return fail(out, op, "covariance", "the covariance of a GPS message is not the square of the configured error");}
    if (!site.known) {continue;}
    Vector3d enu = r_enu_rot(site.lla) * (r_lla_to_ecef(x.a) - r_lla_to_ecef(site.lla));
    double ch = std::cos(site.head), sh = std::sin(site.head);
    Vector3d loc(ch * enu(0) - sh * enu(1), sh * enu(0) + ch * enu(1), enu(2));
    Vector3d e = loc - (m.pos(x.t) + m.q(x.t) * c.pos);
    if (z.no_errors && !(e.norm() <= 2e-6 + 3 * c.tol)) {return fail(out, op, "gps", fmt("error-free GPS at %.9g is off by %.6g m", x.t, e.norm()));}
    for (int k = 0; k < 3; ++k) {r[k].push_back(e(k));}
  }
  out.cnt["eval.gps"] += static_cast<double>(msgs.size());
  return z.no_errors || !site.known || pairs(out, op, "GPS", r, sg, 2e-6 + 3 * c.tol);
}

// ------------------------------------------------------------------ boards
bool check_boards(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c, const BoardTruth & b, const std::vector<SimMsg> & msgs)
{
  Vector3d st = V3(z.te), sr = V3(z.re);
  bool clean = z.no_errors || z.fid_no_errors;
  std::vector<double> rp[3], rq[3];
  double tol = 1e-9 + 20 * (c.tol + b.tol);
  for (auto & x : msgs) {
    if (x.boards.size() != 1) {return fail(out, op, "board", fmt("frame %u carries %zu board detections, expected one", x.frame, x.boards.size()));}
    const BoardDetection & d = x.boards[0];
    if (d.frame_id != x.frame || d.frame_time != x.t) {return fail(out, op, "board", "the detection does not name the frame it was made in");}
    Quaterniond ql = m.q(x.t), qf = c.q.inverse() * ql.inverse() * b.q;
    Vector3d p = c.q.inverse() * (ql.inverse() * (b.pos - m.pos(x.t)) - c.pos);
    Vector3d ep = d.pos_f_in_c - p, eq = rlog(d.ang_f_to_c.normalized() * qf.inverse());
    if (!(std::abs(d.ang_f_to_c.norm() - 1) < 1e-9)) {return fail(out, op, "board", "the orientation of a detection is not a unit quaternion");}
    double lim = tol * (1 + p.norm());
    if (clean && !(ep.norm() <= lim && eq.norm() <= 1e-7 + tol)) {
      return fail(out, op, "board", fmt("error-free detection at %.9g is off by %.6g m and %.6g rad", x.t, ep.norm(), eq.norm()));
    }
    for (int k = 0; k < 3; ++k) {rp[k].push_back(ep(k)); rq[k].push_back(eq(k));}
    Vector3d v = st.cwiseProduct(st), w = sr.cwiseProduct(sr);
    if (!((d.pos_error - v).norm() <= 1e-12 * (1e-9 + v.norm())) || !((d.ang_error - w).norm() <= 1e-12 * (1e-9 + w.norm()))) {
      return fail(out, op, "covariance", fmt("a detection reports the variance %.6g %.6g %.6g for errors of deviation %.6g %.6g %.6g",
        d.pos_error(0), d.pos_error(1), d.pos_error(2), st(0), st(1), st(2)));
    }
  }
  out.cnt["eval.boards"] += static_cast<double>(msgs.size());
  return clean || (pairs(out, op, "board position", rp, st, 10 * tol) && pairs(out, op, "board orientation", rq, sr, 1e-7 + tol));
}

// ------------------------------------------------------------------ features
bool check_tracks(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c,
  const std::vector<Vector3d> & feats, size_t first, const std::vector<SimMsg> & msgs, bool alone)
{
  const double * in = z.intrin;
  double fx = in[0] / in[8], fy = in[1] / in[8], W = in[6], H = in[7];
  bool clean = z.no_errors || z.trk_no_errors;
  struct See {double x, y; int vis; double scale;};   // vis: 0 no, 1 yes, 2 too close to call
  auto look = [&](const SimMsg & f, const Vector3d & p) {
      Vector3d pc = c.q.inverse() * (m.q(f.t).inverse() * (p - m.pos(f.t)) - c.pos);
      See s{0, 0, 0, 1};
      double edge = 1e-7 + 30 * c.tol;
      if (std::abs(pc(2)) < edge) {s.vis = 2; return s;}
      double x = pc(0) / pc(2), y = pc(1) / pc(2), r2 = x * x + y * y, rad = 1 + in[2] * r2 + in[3] * r2 * r2;
      double xd = x * rad + 2 * in[4] * x * y + in[5] * (r2 + 2 * x * x);
      double yd = y * rad + in[4] * (r2 + 2 * y * y) + 2 * in[5] * x * y;
      s.x = fx * xd + W / 2; s.y = fy * yd + H / 2;
      // how much an error of the direction moves the pixel
      double gain = (fx + fy) * (1 + r2) * (1 + std::abs(rad) + (std::abs(in[2]) + std::abs(in[4]) + std::abs(in[5])) * std::sqrt(r2) * 3 + std::abs(in[3]) * 4 * r2 * r2);
      s.scale = (1e-11 + c.tol) * gain * (1 + 1 / std::abs(pc(2))) * (1 + pc.norm());
      double e = 1e-6 + 10 * s.scale;
      if (pc(2) < 0) {return s;}
      double d = std::min(std::min(s.x, W - s.x), std::min(s.y, H - s.y));
      s.vis = !(std::isfinite(d)) ? 2 : d > e ? 1 : d < -e ? 0 : 2;
      return s;
    };
  std::map<unsigned, size_t> frame;
  for (size_t k = 0; k < msgs.size(); ++k) {
    if (k && msgs[k].frame <= msgs[k - 1].frame) {return fail(out, op, "frames", "frame identifiers do not increase");}
    frame[msgs[k].frame] = k;
    if (msgs[k].trackers != (z.tracker ? 1 : 0)) {return fail(out, op, "tracks", fmt("frame %u carries %d tracker messages", msgs[k].frame, msgs[k].trackers));}
  }
  // what was reported
  std::map<int, std::vector<std::pair<size_t, std::pair<size_t, size_t>>>> got;   // feature -> (reported in, first, last)
  for (size_t k = 0; k < msgs.size(); ++k) {
    for (auto & t : msgs[k].tracks) {
      if (static_cast<int>(t.track.size()) < z.min_track || static_cast<int>(t.track.size()) > z.max_track) {
        return fail(out, op, "tracks", fmt("a track of %zu observations, limits are %d and %d", t.track.size(), z.min_track, z.max_track));
      }
      if (t.track.empty()) {return fail(out, op, "tracks", "an empty track");}
      int id = t.track[0].key_point.class_id;
      if (id < 0 || static_cast<size_t>(id) >= feats.size()) {return fail(out, op, "tracks", fmt("a track of feature %d, which does not exist", id));}
      const Vector3d & p = feats[static_cast<size_t>(id)];
      if (!((t.true_feature_position - p).norm() <= 1e-9 * (1 + p.norm()) + 10 * c.tol)) {return fail(out, op, "tracks", fmt("the track of feature %d names another true position", id));}
      size_t last = 0;
      for (size_t i = 0; i < t.track.size(); ++i) {
        auto & f = t.track[i];
        auto it = frame.find(f.frame_id);
        if (it == frame.end() || msgs[it->second].t != f.frame_time) {return fail(out, op, "tracks", fmt("an observation names frame %u at %.9g, which this camera did not take", f.frame_id, f.frame_time));}
        if (f.key_point.class_id != id) {return fail(out, op, "tracks", "a track mixes features");}
        if (i && it->second != last + 1) {return fail(out, op, "tracks", fmt("a track of feature %d skips a frame", id));}
        last = it->second;
        See s = look(msgs[last], p);
        if (s.vis == 0) {return fail(out, op, "tracks", fmt("feature %d is reported in a frame where it is not visible", id));}
        double x = clean ? s.x : std::round(s.x), y = clean ? s.y : std::round(s.y), tol = 1e-3 + s.scale + 1e-6 * (std::abs(s.x) + std::abs(s.y));
        if (s.scale > 0.2) {continue;}
        bool okx = std::abs(f.key_point.pt.x - x) <= tol, oky = std::abs(f.key_point.pt.y - y) <= tol;
        if (!clean) {                       // halves can go either way
          okx = okx || std::abs(std::abs(f.key_point.pt.x - s.x) - 0.5) <= tol;
          oky = oky || std::abs(std::abs(f.key_point.pt.y - s.y) - 0.5) <= tol;
        }
        if (!okx || !oky) {return fail(out, op, "pixel", fmt("feature %d appears at %.6g, %.6g; it projects to %.6g, %.6g", id, f.key_point.pt.x, f.key_point.pt.y, s.x, s.y));}
        out.cnt["eval.pixels"] += 1;
      }
      if (last != k && last + 1 != k) {return fail(out, op, "tracks", fmt("a track of feature %d that ended in frame %zu is reported in frame %zu", id, last, k));}
      got[id].push_back({k, {last + 1 - t.track.size(), last}});
    }
  }
  std::vector<size_t> born;
  size_t have = first;
  const size_t quota = static_cast<size_t>(z.features);
  if (z.tracker && !msgs.empty() && first <= feats.size()) {
    // whatever else made features in between, the first frame asks for at least this many
    size_t can = 0;
    for (size_t i = 0; i < first; ++i) {can += look(msgs[0], feats[i]).vis != 0;}
    if (quota > can && feats.size() < first + quota - can) {
      return fail(out, op, "features", fmt("the scene has %zu features besides the first %zu, of which %zu are in view where the tracker is to see %zu",
        feats.size() - first, first, can, quota));
    }
    out.cnt["eval.quota"] += quota > can;
  }
  for (size_t k = 0; k < msgs.size() && z.tracker; ++k) {
    if (have > feats.size()) {born.clear(); break;}
    // the tracker creates what is missing from its quota
    size_t sure = 0, maybe = 0;
    for (size_t i = 0; i < have; ++i) {int v = look(msgs[k], feats[i]).vis; sure += v == 1; maybe += v == 2;}
    size_t lo = quota > sure + maybe ? quota - sure - maybe : 0, hi = quota > sure ? quota - sure : 0;
    if (lo != hi) {born.clear(); break;}
    have += lo;
    born.push_back(have);
  }
  if (!alone) {born.clear();}
  if (z.tracker && !born.empty() && born.size() == msgs.size() && have != feats.size()) {
    return fail(out, op, "features", fmt("the tracker made %zu features where %zu keep %d in view", feats.size() - first, have - first, z.features));
  }
  if (!z.tracker || !alone || born.size() != msgs.size()) {out.cnt["probe.births_unknown"] += 1; return true;}
  // completeness: every run of sightings is reported once, in pieces no longer than allowed
  for (size_t i = 0; i < feats.size(); ++i) {
    std::vector<std::pair<size_t, std::pair<size_t, size_t>>> want;
    size_t len = 0, start = 0;
    bool ambiguous = false;
    auto flush = [&](size_t at, size_t end) {
        if (len >= static_cast<size_t>(z.min_track)) {want.push_back({at, {start, end}});}
        len = 0;
      };
    for (size_t k = 0; k < msgs.size() && !ambiguous; ++k) {
      int v = i < born[k] ? look(msgs[k], feats[i]).vis : 0;
      if (v == 2) {ambiguous = true;}
      if (v == 1) {
        if (!len) {start = k;}
        ++len;
        if (len >= static_cast<size_t>(z.max_track)) {flush(k, k);}
      } else if (len) {flush(k, k - 1);}
    }
    if (ambiguous) {out.cnt["probe.border_features"] += 1; continue;}
    auto & g = got[static_cast<int>(i)];
    if (g != want) {return fail(out, op, "tracks", fmt("feature %zu: %zu tracks reported, %zu expected", i, g.size(), want.size()));}
    out.cnt["eval.tracks"] += static_cast<double>(want.size());
  }
  return true;
}

// ------------------------------------------------------------------ the motion itself
static bool check_motion(RunOut & out, const Plan & p, const Scen & s, const Motion & m)
{
  Rng r(p.seed * 31 + 7);
  auto near = [](const Vector3d & a, const Vector3d & b, double tol) {return (a - b).norm() <= tol;};
  double T = s.max_time;
  Motion c = cyclic_motion(s);
  double lo = std::min(s.rest, T);
  Vector3d p0 = m.pos(0);
  Quaterniond q0 = m.q(0);
  for (int i = 0; i < 60; ++i) {
    double t = r.p(0.2) ? r.u(0, lo) : r.p(0.1) ? lo : r.u(0, T);
    Vector3d P = m.pos(t), V = m.vel(t), A = m.acc(t), W = m.w(t), L = m.al(t);
    Quaterniond Q = m.q(t);
    if (!P.allFinite() || !V.allFinite() || !A.allFinite() || !W.allFinite() || !L.allFinite() || !Q.coeffs().allFinite()) {
      return fail(out, 0, "motion", fmt("the true motion at %.9g is not finite", t));
    }
    if (!(std::abs(Q.norm() - 1) < 1e-9)) {return fail(out, 0, "motion", fmt("the true orientation at %.9g is not a unit quaternion", t));}
    out.cnt["eval.motion"] += 1;
    if (t < s.rest) {
      if (!near(P, p0, 1e-12) || rlog(Q * q0.inverse()).norm() > 1e-9 || V.norm() + A.norm() + W.norm() + L.norm() > 0) {
        return fail(out, 0, "rest", fmt("the body moves at %.9g, before the end of the stationary time %.9g", t, s.rest));
      }
      continue;
    }
    if (s.truth == 0) {
      double sc = 1e-9 * (1 + s.pa + std::abs(s.po[0]) + std::abs(s.po[1]) + std::abs(s.po[2]));
      if (!near(P, c.pos(t), sc) || !near(V, c.vel(t), 20 * sc) || !near(A, c.acc(t), 400 * sc)) {return fail(out, 0, "motion", fmt("the cyclic translation at %.9g is not the configured one", t));}
      if (rlog(Q * c.q(t).inverse()).norm() > 1e-8 || !near(W, c.w(t), 1e-8) || !near(L, c.al(t), 1e-7)) {
        return fail(out, 0, "motion", fmt("the cyclic rotation at %.9g is not the configured one", t));
      }
    }
    // positions, velocities and accelerations are derivatives of each other, away from knots
    double h = 1e-5;
    if (t - 2 * h < s.rest || t + 2 * h > T || t - 2 * h < 0) {continue;}
    auto deriv = [&](const std::function<Vector3d(double)> & f, const Vector3d & g, const char * what, double tol) {
        Vector3d d1 = (f(t + h) - f(t)) / h, d0 = (f(t) - f(t - h)) / h;
        double big = 1 + d1.norm() + d0.norm();
        if ((d1 - d0).norm() > 1e-2 * big) {out.cnt["probe.knots"] += 1; return true;}
        if (near((d1 + d0) / 2, g, tol * big)) {return true;}
        return fail(out, 0, "derivative", fmt("%s at %.9g is off by %.6g", what, t, ((d1 + d0) / 2 - g).norm()));
      };
    if (s.truth == 2) {
      // polyline: the velocity is the slope, within a sample of a corner it may be between two
      Vector3d a = (m.pos(t) - m.pos(t - h)) / h, b = (m.pos(t + h) - m.pos(t)) / h;
      bool corner = t < 0.003 || t > T - 0.0025;
      for (double k : s.times) {corner = corner || std::abs(t - k) < 0.004;}
      if (!corner && (!near(a, V, 1e-5 * (1 + V.norm())) || !near(b, V, 1e-5 * (1 + V.norm())))) {return fail(out, 0, "derivative", fmt("velocity at %.9g is not the slope of the position", t));}
      continue;
    }
    if (!deriv(m.pos, V, "the velocity", 2e-4) || !deriv(m.vel, A, "the acceleration", 2e-3)) {return false;}
    if (s.truth == 0) {
      Vector3d w = rlog(m.q(t - h).inverse() * m.q(t + h)) / (2 * h);
      if (!near(w, W, 1e-5 * (1 + W.norm()))) {return fail(out, 0, "derivative", fmt("the angular rate at %.9g is off by %.6g", t, (w - W).norm()));}
      if (!deriv(m.w, L, "the angular acceleration", 1e-4)) {return false;}
    }
  }
  // no jumps
  int n = 400;
  for (int i = 0; i < n; ++i) {
    double a = T * i / n, b = std::min(T, T * (i + 1) / n);
    if (s.truth == 2 && b > T - 0.0025) {break;}     // the last sample is held
    Vector3d acc(0, 0, 0), vlo, vhi;
    int sub = s.truth == 2 ? 64 : 8;
    for (int k = 0; k < sub; ++k) {
      Vector3d v = m.vel(a + (b - a) * (k + 0.5) / sub);
      acc += v * (b - a) / sub;
      vlo = k ? vlo.cwiseMin(v) : v; vhi = k ? vhi.cwiseMax(v) : v;
    }
    double tol = 1e-6 + 0.03 * (b - a) * (1 + m.vel(a).norm() + m.vel(b).norm() + 3 * (m.acc(a).norm() + m.acc(b).norm()) * (b - a));
    if (s.truth == 2) {tol += 2e-3 * (vhi - vlo).norm(); if (i < 2) {continue;}}
    if (s.truth == 1 && s.rest > 0) {tol *= 2;}
    if (!near(m.pos(b) - m.pos(a), acc, tol)) {
      return fail(out, 0, "derivative", fmt("between %.9g and %.9g the position changes by %.6g, the velocity explains %.6g", a, b, (m.pos(b) - m.pos(a)).norm(), acc.norm()));
    }
    double turn = rlog(m.q(a).inverse() * m.q(b)).norm();
    if (!(turn <= 1e-6 + (b - a) * (0.05 + 6 * (m.w(a).norm() + m.w(b).norm() + (m.al(a).norm() + m.al(b).norm()) * (b - a))))) {
      return fail(out, 0, "derivative", fmt("between %.9g and %.9g the body turns by %.6g, its rate does not explain that", a, b, turn));
    }
  }
  // way points
  if (s.truth == 1 && s.rest < T) {
    size_t k = std::min(s.poses.size(), s.angles.size()) / 3 - 1;
    Vector3d f = V3(&s.poses[0]), l = V3(&s.poses[3 * k]), pe = V3(s.pe);
    if (!near(m.pos(s.rest), f, 1e-9) || !near(p0, f, 1e-9)) {return fail(out, 0, "waypoint", "the spline does not start at its first way point");}
    Vector3d d = m.pos(T) - l;
    for (int a = 0; a < 3; ++a) {
      if (!(std::abs(d(a)) <= 1e-7 + 7.5 * pe(a))) {return fail(out, 0, "waypoint", fmt("the spline ends %.6g away from its last way point", d.norm()));}
    }
  }
  if (s.truth == 2) {
    for (size_t k = 1; k < s.times.size(); ++k) {
      if (s.times[k] > T - 0.01) {continue;}
      Vector3d d = m.pos(s.times[k]) - V3(&s.poses[3 * k]), pe = V3(s.pe);
      for (int a = 0; a < 3; ++a) {
        if (!(std::abs(d(a)) <= 0.02 + 7.5 * pe(a))) {return fail(out, 0, "waypoint", fmt("way point %zu is missed by %.6g", k, d.norm()));}
      }
    }
  }
  return true;
}

// ------------------------------------------------------------------ run
static void hash_msg(RunOut & out, const SimMsg & m)
{
  mixd(out.hash, m.t); mix(out.hash, m.id);
  for (int k = 0; k < 3; ++k) {mixd(out.hash, m.a(k)); mixd(out.hash, m.w(k));}
  mix(out.hash, m.tracks.size());
  for (auto & b : m.boards) {mixd(out.hash, b.pos_f_in_c(0));}
}

void run_streams(const Plan & p, const std::string & dir, RunOut & out)
{
  (void)dir;
  Scen s = scen_of(p);
  *g_progress = 0;
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  SimRNG::SetSeed(s.seed);
  auto truth = make_truth(s, log);
  Motion m = engine_motion(truth);
  if (!check_motion(out, p, s, m)) {return;}
  EKF::Parameters ep;
  ep.debug_logger = log;
  auto ekf = std::make_shared<EKF>(ep);
  Site site{true, V3(p.cfg.lla), p.cfg.heading};
  truth->SetLocalPosition(site.lla);
  truth->SetLocalHeading(site.head);
  std::vector<double> zc, za, zb, zf, zt;      // standardised calibration errors
  auto draw = [&](std::vector<double> & z, const Vector3d & d, const double * sg, int op, const char * what) {
      for (int k = 0; k < 3; ++k) {
        if (sg[k] > 1e-8) {z.push_back(d(k) / sg[k]);} else if (!(std::abs(d(k)) < 1e-9)) {return fail(out, op, "calibration", fmt("%s is off by %.6g without any configured error", what, d(k)));}
      }
      return true;
    };
  auto same_calib = [&](bool clean, int op, const Vector3d & d, const Vector3d & e, const char * what) {
      if (clean && !(d.norm() + e.norm() <= 1e-9)) {return fail(out, op, "calibration", fmt("the true calibration of an error-free %s is not the configured one", what));}
      return true;
    };
  for (size_t q = 0; q < s.sensors.size(); ++q) {
    const SimSpec & z = s.sensors[q];
    int op = s.op[q];
    *g_progress = op;
    out.cnt["ops"] += 1;
    std::vector<SimMsg> msgs;
    std::vector<double> times;
    Calib c;
    Vector3d pos = V3(z.pos);
    Quaterniond ang = Q4(z.ang);
    auto base = [&](Sensor::Parameters & b) {b.ekf = ekf; b.logger = log; b.rate = z.rate; b.name = "s"; b.log_directory = "";};
    if (z.kind == SimSpec::IMU_) {
      SimIMU::Parameters sp;
      base(sp.imu_params);
      sp.imu_params.pos_i_in_b = pos; sp.imu_params.ang_i_to_b = ang; sp.imu_params.acc_bias = V3(z.ba); sp.imu_params.omg_bias = V3(z.bg);
      sp.imu_params.is_extrinsic = z.ext; sp.imu_params.is_intrinsic = z.intr;
      sp.imu_params.variance = Eigen::Map<const VectorXd>(z.var, 12);
      sp.no_errors = z.no_errors; sp.time_error = z.time_error;
      sp.acc_error = V3(z.ae); sp.omg_error = V3(z.we); sp.pos_error = V3(z.pos_err); sp.ang_error = V3(z.ang_err);
      sp.acc_bias_error = V3(z.bae); sp.omg_bias_error = V3(z.bge);
      SimIMU imu(sp, truth);
      c.pos = truth->GetImuPosition(imu.GetId()); c.q = truth->GetImuAngularPosition(imu.GetId());
      c.ba = truth->GetImuAccelerometerBias(imu.GetId()); c.bg = truth->GetImuGyroscopeBias(imu.GetId());
      Vector3d eb = c.ba - V3(z.ba), eg = c.bg - V3(z.bg);
      if (!same_calib(z.no_errors, op, c.pos - pos, rlog(c.q * ang.inverse()), "IMU")) {return;}
      if (!same_calib(z.no_errors, op, eb, eg, "IMU")) {return;}
      if (!z.no_errors && (!draw(zb, eb, z.bae, op, "accelerometer bias") || !draw(zb, eg, z.bge, op, "gyroscope bias"))) {return;}
      for (auto & x : imu.GenerateMessages()) {msgs.push_back(of(*x)); if (x->sensor_id != imu.GetId() || x->sensor_type != SensorType::IMU) {fail(out, op, "identity", "a message names another sensor"); return;}}
    } else if (z.kind == SimSpec::GPS_) {
      SimGPS::Parameters sp;
      base(sp.gps_params);
      sp.gps_params.pos_a_in_b = pos; sp.gps_params.variance = V3(z.var); sp.gps_params.is_extrinsic = z.ext;
      sp.no_errors = z.no_errors; sp.time_error = z.time_error; sp.lla_error = V3(z.lla_err); sp.pos_a_in_b_err = V3(z.pos_err);
      SimGPS gps(sp, truth);
      c.pos = truth->GetGpsPosition(gps.GetId());
      if (!same_calib(z.no_errors, op, c.pos - pos, Vector3d::Zero(), "GPS")) {return;}
      for (auto & x : gps.GenerateMessages()) {msgs.push_back(of(*x)); if (x->sensor_id != gps.GetId() || x->sensor_type != SensorType::GPS) {fail(out, op, "identity", "a message names another sensor"); return;}}
    } else {
      SimCamera::Parameters sp;
      base(sp.cam_params);
      Intrinsics in;
      in.f_x = z.intrin[0]; in.f_y = z.intrin[1]; in.k_1 = z.intrin[2]; in.k_2 = z.intrin[3]; in.p_1 = z.intrin[4]; in.p_2 = z.intrin[5];
      in.width = z.intrin[6]; in.height = z.intrin[7]; in.pixel_size = z.intrin[8];
      sp.cam_params.pos_c_in_b = pos; sp.cam_params.ang_c_to_b = ang; sp.cam_params.variance = Eigen::Map<const VectorXd>(z.var, 6);
      sp.cam_params.is_extrinsic = z.ext; sp.cam_params.intrinsics = in;
      sp.no_errors = z.no_errors; sp.time_error = z.time_error; sp.pos_error = V3(z.pos_err); sp.ang_error = V3(z.ang_err);
      SimCamera cam(sp, truth);
      unsigned id = cam.GetId(), bid = 0;
      c.pos = truth->GetCameraPosition(id); c.q = truth->GetCameraAngularPosition(id);
      if (!same_calib(z.no_errors, op, c.pos - pos, rlog(c.q * ang.inverse()), "camera")) {return;}
      BoardTruth bt;
      if (z.tracker) {
        SimFeatureTracker::Parameters tp;
        tp.tracker_params.camera_id = id; tp.tracker_params.intrinsics = in; tp.tracker_params.ekf = ekf; tp.tracker_params.logger = log;
        tp.tracker_params.px_error = z.px_error; tp.tracker_params.min_track_length = static_cast<unsigned>(z.min_track);
        tp.tracker_params.max_track_length = static_cast<unsigned>(z.max_track);
        tp.feature_count = static_cast<unsigned>(z.features); tp.no_errors = z.trk_no_errors || z.no_errors;
        cam.AddTracker(std::make_shared<SimFeatureTracker>(tp, truth));
      }
      if (z.fid) {
        SimFiducialTracker::Parameters fp;
        fp.fiducial_params.camera_id = id; fp.fiducial_params.intrinsics = in; fp.fiducial_params.ekf = ekf; fp.fiducial_params.logger = log;
        fp.fiducial_params.pos_f_in_l = V3(z.fpos); fp.fiducial_params.ang_f_to_l = Q4(z.fang);
        fp.fiducial_params.id = static_cast<unsigned>(z.fid); fp.fiducial_params.is_extrinsic = z.fid_ext;
        fp.fiducial_params.variance = Eigen::Map<const VectorXd>(z.var, 6);
        fp.pos_error = V3(z.fpe); fp.ang_error = V3(z.fae); fp.t_vec_error = V3(z.te); fp.r_vec_error = V3(z.re);
        fp.no_errors = z.fid_no_errors || z.no_errors;
        auto f = std::make_shared<SimFiducialTracker>(fp, truth);
        bid = f->GetID();
        bt.pos = truth->GetBoardPosition(bid); bt.q = truth->GetBoardOrientation(bid);
        Vector3d dp = bt.pos - V3(z.fpos), dq = rlog(bt.q * Q4(z.fang).inverse());
        if (!same_calib(fp.no_errors, op, dp, dq, "board")) {return;}
        if (!fp.no_errors && (!draw(zf, dp, z.fpe, op, "board position") || !draw(zf, dq, z.fae, op, "board orientation"))) {return;}
        cam.AddFiducial(f);
      }
      size_t n0 = truth->GetFeatures().size();
      for (auto & x : cam.GenerateMessages()) {msgs.push_back(of(*x)); if (x->sensor_id != id || x->sensor_type != SensorType::Camera) {fail(out, op, "identity", "a message names another sensor"); return;}}
      std::vector<Vector3d> feats;
      for (auto & f : truth->GetFeatures()) {feats.push_back(Vector3d(f.x, f.y, f.z));}
      if (!check_tracks(out, op, z, m, c, feats, n0, msgs)) {return;}
      if (z.fid && !check_boards(out, op, z, m, c, bt, msgs)) {return;}
      if (!z.fid) {for (auto & x : msgs) {if (!x.boards.empty()) {fail(out, op, "board", "a detection without a board"); return;}}}
    }
    if (!z.no_errors) {
      if (!draw(zc, c.pos - pos, z.pos_err, op, "position")) {return;}
      if (z.kind != SimSpec::GPS_ && !draw(za, rlog(c.q * ang.inverse()), z.ang_err, op, "orientation")) {return;}
    }
    for (auto & x : msgs) {times.push_back(x.t); hash_msg(out, x);}
    if (!z.no_errors && times.size() > 1 && z.time_error == 0) {zt.push_back((times[0] * z.rate - 0.5) * std::sqrt(12));}
    out.op = op;
    if (!check_times(out, op, z, s.max_time, times)) {return;}
    if (z.kind == SimSpec::IMU_ && !check_imu(out, op, z, m, c, msgs)) {return;}
    if (z.kind == SimSpec::GPS_ && !check_gps(out, op, z, m, c, site, msgs)) {return;}
    uint64_t h = 77;
    mix(h, static_cast<uint64_t>(z.kind * 64 + z.no_errors * 32 + z.tracker * 16 + (z.fid != 0) * 8 + z.trk_no_errors * 4 + z.fid_no_errors * 2 + (z.time_error > 0)));
    mix(h, static_cast<uint64_t>(s.truth * 8 + (s.rest > 0) * 4 + (s.rest > s.max_time) * 2 + (z.intrin[2] != 0)));
    mix(h, std::min<size_t>(msgs.size() / 16, 8));
    out.states.insert(h);
  }
  if (!check_scatter(out, "true positions", zc) || !check_scatter(out, "true orientations", za) ||
    !check_scatter(out, "true biases", zb) || !check_scatter(out, "true board poses", zf)) {return;}
  double mean = 0;
  for (double v : zt) {mean += v;}
  if (zt.size() >= 20 && std::abs(mean) > 7.5 * std::sqrt(static_cast<double>(zt.size()))) {
    fail(out, out.op, "times", "the start of the streams is not uniform over one period"); return;
  }
}
