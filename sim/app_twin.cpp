// The wiring of the simulator application: a second filter is built here from the configuration file
// by our own reader, gets exactly the messages the application processed, and must write the same logs.
#include "app_twin.hpp"

#include <yaml-cpp/yaml.h>

#include <cstring>
#include <fstream>

#include "ekf/ekf.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/sim/sim_rng.hpp"

// ------------------------------------------------------------------ messages in a file
namespace
{
struct Out
{
  std::string s;
  void d(double v) {s.append(reinterpret_cast<const char *>(&v), 8);}
  void f(float v) {d(static_cast<double>(v));}
  template<class M> void m(const M & x) {for (Eigen::Index k = 0; k < x.size(); ++k) {d(x.data()[k]);}}
};
struct In
{
  const std::string & s;
  size_t k{0};
  double d() {double v = 0; if (k + 8 <= s.size()) {std::memcpy(&v, s.data() + k, 8);} k += 8; return v;}
  size_t n() {double v = d(); return v > 0 && v < 1e7 ? static_cast<size_t>(v) : 0;}
  template<class M> void m(M & x) {for (Eigen::Index i = 0; i < x.size(); ++i) {x.data()[i] = d();}}
  bool more() const {return k < s.size();}
};
}  // namespace

std::string pack(const ImuMessage & m)
{
  Out o;
  o.d(0); o.d(m.sensor_id); o.d(m.time);
  o.m(m.acceleration); o.m(m.angular_rate); o.m(m.acceleration_covariance); o.m(m.angular_rate_covariance);
  return o.s;
}
std::string pack(const GpsMessage & m)
{
  Out o;
  o.d(2); o.d(m.sensor_id); o.d(m.time); o.m(m.gps_lla); o.m(m.pos_covariance);
  return o.s;
}
std::string pack(const SimCameraMessage & m)
{
  Out o;
  o.d(1); o.d(m.sensor_id); o.d(m.time); o.d(m.frame_id);
  o.d(static_cast<double>(m.feature_track_messages.size()));
  for (auto & t : m.feature_track_messages) {
    o.d(t->time); o.d(static_cast<double>(t->feature_tracks.size()));
    for (auto & f : t->feature_tracks) {
      o.m(f.true_feature_position); o.d(static_cast<double>(f.track.size()));
      for (auto & q : f.track) {
        o.d(q.frame_id); o.d(q.frame_time); o.f(q.key_point.pt.x); o.f(q.key_point.pt.y); o.d(q.key_point.class_id);
      }
    }
  }
  o.d(static_cast<double>(m.fiducial_track_messages.size()));
  for (auto & t : m.fiducial_track_messages) {
    auto & b = t->board_detection;
    o.d(t->time); o.d(t->is_board_visible); o.d(b.frame_id); o.d(b.frame_time);
    o.m(b.pos_f_in_c); o.m(b.ang_f_to_c.coeffs()); o.m(b.pos_error); o.m(b.ang_error);
  }
  return o.s;
}

// ------------------------------------------------------------------ the second filter
static Eigen::VectorXd vec(const YAML::Node & n, size_t size)
{
  auto v = n.as<std::vector<double>>(std::vector<double>(3, 0.0));
  (void)size;
  return Eigen::Map<Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size()));
}
static Eigen::Quaterniond quat(const YAML::Node & n)
{
  auto v = n.as<std::vector<double>>(std::vector<double>{1, 0, 0, 0});
  Eigen::Quaterniond q(v[0], v[1], v[2], v[3]);
  q.normalize();
  return q;
}
static double num(const YAML::Node & n, double def) {return n.as<double>(def);}
static unsigned uns(const YAML::Node & n, unsigned def) {return n.as<unsigned>(def);}
static bool flag(const YAML::Node & n, bool def) {return n.as<bool>(def);}
static std::vector<std::string> names(const YAML::Node & n) {return n.as<std::vector<std::string>>(std::vector<std::string>());}

std::string wire_twin(const std::string & text, const std::string & dir, const std::string & messages)
{
  YAML::Node root = YAML::Load(text);
  YAML::Node r = root["/EkfCalNode"]["ros__parameters"];
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  EKF::Parameters e;
  e.debug_logger = log; e.log_directory = dir; e.data_log_rate = num(r["data_log_rate"], 0);
  e.augmenting_type = names(r["tracker_list"]).empty() ? AugmentationType::NONE : static_cast<AugmentationType>(uns(r["augmenting_type"], 1));
  e.augmenting_delta_time = num(r["augmenting_delta_time"], 1);
  e.augmenting_pos_error = num(r["augmenting_pos_error"], 0.1); e.augmenting_ang_error = num(r["augmenting_ang_error"], 0.1);
  e.process_noise = Eigen::VectorXd(18);
  const char * pn[6] = {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"};
  for (int k = 0; k < 18; ++k) {e.process_noise(k) = num(r["process_noise"][pn[k / 3]], 1e-2);}
  e.pos_b_in_l = vec(r["pos_b_in_l"], 3); e.ang_b_to_l = quat(r["ang_b_to_l"]);
  e.pos_e_in_g = vec(r["pos_e_in_g"], 3); e.ang_l_to_e = num(r["ang_l_to_e"], 0);
  e.gps_init_type = static_cast<GpsInitType>(uns(r["gps_init_type"], 0));
  e.gps_init_baseline_dist = num(r["gps_init_baseline_dist"], 1);
  e.gps_init_pos_thresh = num(r["gps_init_pos_thresh"], 1); e.gps_init_ang_thresh = num(r["gps_init_ang_thresh"], 1);
  e.motion_detection_chi_squared = num(r["motion_detection_chi_squared"], 1);
  e.imu_noise_scale_factor = num(r["imu_noise_scale_factor"], 100);
  e.use_root_covariance = flag(r["use_root_covariance"], true);
  e.use_first_estimate_jacobian = flag(r["use_first_estimate_jacobian"], false);
  auto ekf = std::make_shared<EKF>(e);
  BodyState b;
  b.pos_b_in_l = e.pos_b_in_l;
  b.ang_b_to_l = e.ang_b_to_l;
  ekf->Initialize(0.0, b);

  auto truth = std::make_shared<TruthEngineCyclic>(
    Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(0, 0, 0), 0.0, 0.0, 0.0, 1.0, log);
  auto sensor = [&](Sensor::Parameters & p, const YAML::Node & n, const std::string & name) {
      p.name = name; p.topic = n["topic"].as<std::string>(""); p.rate = num(n["rate"], 1); p.data_log_rate = num(n["data_log_rate"], 0);
      p.log_directory = dir; p.ekf = ekf; p.logger = log;
    };
  std::map<unsigned, std::shared_ptr<IMU>> imus;
  std::map<unsigned, std::shared_ptr<GPS>> gps;
  std::map<unsigned, std::shared_ptr<SimCamera>> cams;
  std::map<unsigned, std::pair<unsigned, unsigned>> ids;       // of the feature and fiducial tracker
  for (auto & k : names(r["imu_list"])) {
    YAML::Node n = r["imu"][k];
    IMU::Parameters p;
    sensor(p, n, k);
    p.is_extrinsic = flag(n["is_extrinsic"], false); p.is_intrinsic = flag(n["is_intrinsic"], false);
    p.variance = vec(n["variance"], 12);
    p.pos_i_in_b = vec(n["pos_i_in_b"], 3); p.ang_i_to_b = quat(n["ang_i_to_b"]);
    p.acc_bias = vec(n["acc_bias"], 3); p.omg_bias = vec(n["omg_bias"], 3);
    p.pos_stability = num(n["pos_stability"], 1e-9); p.ang_stability = num(n["ang_stability"], 1e-9);
    p.acc_bias_stability = num(n["acc_bias_stability"], 1e-9); p.omg_bias_stability = num(n["omg_bias_stability"], 1e-9);
    auto s = std::make_shared<IMU>(p);
    imus[s->GetId()] = s;
  }
  unsigned longest = 0;
  for (auto & k : names(r["tracker_list"])) {longest = std::max(longest, uns(r["tracker"][k]["max_track_length"], 20));}
  if (!names(r["fiducial_list"]).empty()) {longest = std::max(longest, FiducialTracker::Parameters().max_track_length);}
  ekf->SetMaxTrackLength(longest);
  for (auto & k : names(r["camera_list"])) {
    YAML::Node n = r["camera"][k];
    SimCamera::Parameters sp;
    Camera::Parameters & p = sp.cam_params;
    sensor(p, n, k);
    p.variance = vec(n["variance"], 6); p.pos_c_in_b = vec(n["pos_c_in_b"], 3); p.ang_c_to_b = quat(n["ang_c_to_b"]);
    p.is_extrinsic = flag(n["is_extrinsic"], false);
    p.pos_stability = num(n["pos_stability"], 1e-9); p.ang_stability = num(n["ang_stability"], 1e-9);
    p.tracker = n["tracker"].as<std::string>(""); p.fiducial = n["fiducial"].as<std::string>("");
    YAML::Node in = n["intrinsics"];
    p.intrinsics.f_x = num(in["f_x"], 0.01); p.intrinsics.f_y = num(in["f_y"], 0.01);
    p.intrinsics.k_1 = num(in["k_1"], 0); p.intrinsics.k_2 = num(in["k_2"], 0);
    p.intrinsics.p_1 = num(in["p_1"], 0); p.intrinsics.p_2 = num(in["p_2"], 0);
    p.intrinsics.width = num(in["width"], 640); p.intrinsics.height = num(in["height"], 480);
    p.intrinsics.pixel_size = num(in["pixel_size"], 5e-6);
    sp.no_errors = true;
    auto s = std::make_shared<SimCamera>(sp, truth);
    auto common = [&](Tracker::Parameters & t, const std::string & name) {
        t.name = name; t.log_directory = dir; t.ekf = ekf; t.logger = log; t.camera_id = s->GetId();
        t.data_log_rate = p.data_log_rate; t.intrinsics = p.intrinsics;
      };
    if (!p.tracker.empty()) {
      YAML::Node t = r["tracker"][p.tracker];
      SimFeatureTracker::Parameters q;
      common(q.tracker_params, p.tracker);
      q.tracker_params.is_cam_extrinsic = p.is_extrinsic;
      q.tracker_params.px_error = num(t["pixel_error"], 1);
      q.tracker_params.min_track_length = uns(t["min_track_length"], 2);
      q.tracker_params.max_track_length = uns(t["max_track_length"], 20);
      q.tracker_params.min_feat_dist = num(t["min_feat_dist"], 1);
      auto o = std::make_shared<SimFeatureTracker>(q, truth);
      ids[s->GetId()].first = o->GetID();
      s->AddTracker(o);
    }
    if (!p.fiducial.empty()) {
      YAML::Node t = r["fiducial"][p.fiducial];
      SimFiducialTracker::Parameters q;
      FiducialTracker::Parameters & f = q.fiducial_params;
      common(f, p.fiducial);
      f.is_cam_extrinsic = p.is_extrinsic;
      f.pos_f_in_l = vec(t["pos_f_in_l"], 3); f.ang_f_to_l = quat(t["ang_f_to_l"]);
      f.variance = vec(t["variance"], 6);
      f.squares_x = uns(t["squares_x"], 1); f.squares_y = uns(t["squares_y"], 1);
      f.square_length = num(t["square_length"], 0); f.marker_length = num(t["marker_length"], 0);
      f.id = uns(t["id"], 0); f.is_extrinsic = flag(t["is_extrinsic"], false);
      q.no_errors = true;
      auto o = std::make_shared<SimFiducialTracker>(q, truth);
      ids[s->GetId()].second = o->GetID();
      s->AddFiducial(o);
    }
    cams[s->GetId()] = s;
  }
  for (auto & k : names(r["gps_list"])) {
    YAML::Node n = r["gps"][k];
    GPS::Parameters p;
    sensor(p, n, k);
    p.variance = vec(n["variance"], 3); p.pos_a_in_b = vec(n["pos_a_in_b"], 3);
    p.pos_stability = num(n["pos_stability"], 0); p.is_extrinsic = flag(n["is_extrinsic"], false);
    auto s = std::make_shared<GPS>(p);
    gps[s->GetId()] = s;
  }

  In in{messages};
  size_t count = 0;
  while (in.more()) {
    int kind = static_cast<int>(in.d());
    unsigned id = static_cast<unsigned>(in.d());
    double t = in.d();
    if (kind == 0) {
      ImuMessage m;
      m.sensor_id = id; m.sensor_type = SensorType::IMU; m.time = t;
      in.m(m.acceleration); in.m(m.angular_rate); in.m(m.acceleration_covariance); in.m(m.angular_rate_covariance);
      if (!imus.count(id)) {return fmt("a message for inertial unit %u, which the configuration does not have", id);}
      imus[id]->Callback(m);
    } else if (kind == 2) {
      GpsMessage m;
      m.sensor_id = id; m.sensor_type = SensorType::GPS; m.time = t;
      in.m(m.gps_lla); in.m(m.pos_covariance);
      if (!gps.count(id)) {return fmt("a message for receiver %u, which the configuration does not have", id);}
      gps[id]->Callback(m);
    } else {
      SimCameraMessage m{cv::Mat()};
      m.sensor_id = id; m.sensor_type = SensorType::Camera; m.time = t;
      m.frame_id = static_cast<unsigned>(in.d());
      if (!cams.count(id)) {return fmt("a message for camera %u, which the configuration does not have", id);}
      for (size_t q = in.n(); q > 0; --q) {
        auto f = std::make_shared<SimFeatureTrackerMessage>();
        f->sensor_id = id; f->sensor_type = SensorType::Tracker; f->tracker_id = ids[id].first;
        f->time = in.d();
        f->feature_tracks.resize(in.n());
        for (auto & x : f->feature_tracks) {
          in.m(x.true_feature_position);
          x.track.resize(in.n());
          for (auto & y : x.track) {
            y.frame_id = static_cast<unsigned>(in.d()); y.frame_time = in.d();
            y.key_point.pt.x = static_cast<float>(in.d()); y.key_point.pt.y = static_cast<float>(in.d());
            y.key_point.class_id = static_cast<int>(in.d());
          }
        }
        m.feature_track_messages.push_back(f);
      }
      for (size_t q = in.n(); q > 0; --q) {
        auto f = std::make_shared<SimFiducialTrackerMessage>();
        f->sensor_id = id; f->sensor_type = SensorType::Tracker; f->tracker_id = ids[id].second;
        f->time = in.d(); f->is_board_visible = in.d() != 0;
        auto & b2 = f->board_detection;
        b2.frame_id = static_cast<unsigned>(in.d()); b2.frame_time = in.d();
        in.m(b2.pos_f_in_c); in.m(b2.ang_f_to_c.coeffs()); in.m(b2.pos_error); in.m(b2.ang_error);
        m.fiducial_track_messages.push_back(f);
      }
      if ((!m.feature_track_messages.empty() && ids[id].first == 0) || (!m.fiducial_track_messages.empty() && ids[id].second == 0)) {
        return fmt("tracks for camera %u, which has no such tracker in the configuration", id);
      }
      cams[id]->Callback(m);
    }
    ++count;
  }
  return "";
}
