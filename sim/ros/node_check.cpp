// The ROS node over a simulated middleware: topics, queues, timers and the executor are decided by the plan.  What the
// node does is judged against the same sensors and filter assembled directly from the configuration.
#include <yaml-cpp/yaml.h>

#include <sys/stat.h>

#include <cmath>
#include <cstring>
#include <set>

#include <cv_bridge/cv_bridge.hpp>
#include <opencv2/imgproc.hpp>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/image.hpp>
#include <sensor_msgs/msg/imu.hpp>
#include <sensor_msgs/msg/nav_sat_fix.hpp>
#include <std_msgs/msg/float64_multi_array.hpp>

#include "checks.hpp"
#include "exec.hpp"
#include "images.hpp"
#include "scen.hpp"
#include "seam.hpp"
#include "twin.hpp"
#include "world.hpp"

#undef main
int ekf_node_main(int, char **);
extern void (* g_on_imu)(void *, const ImuMessage &);
extern void (* g_on_gps)(void *, const GpsMessage &);

namespace
{
struct Seen {int kind; std::string name; double time; std::vector<double> v; cv::Mat img;};
bool g_on = false;
std::vector<Seen> g_seen;
std::vector<EKF *> g_ekfs;
}

extern "C" {
void __real__ZN3IMU8CallbackERK10ImuMessage(void *, const ImuMessage &) __attribute__((weak));
void __real__ZN3GPS8CallbackERK10GpsMessage(void *, const GpsMessage &) __attribute__((weak));
void __real__ZN6Camera8CallbackERK13CameraMessage(void *, const CameraMessage &) __attribute__((weak));
void __wrap__ZN6Camera8CallbackERK13CameraMessage(void * s, const CameraMessage & m)
{
  if (g_on) {g_seen.push_back({K_CAM, static_cast<Camera *>(s)->GetName(), m.time, {}, m.image.clone()});}
  __real__ZN6Camera8CallbackERK13CameraMessage(s, m);
}
void __real__ZN3EKFC1ENS_10ParametersE(EKF *, EKF::Parameters *) __attribute__((weak));
void __wrap__ZN3EKFC1ENS_10ParametersE(EKF * s, EKF::Parameters * p)
{
  __real__ZN3EKFC1ENS_10ParametersE(s, p);
  if (g_on) {g_ekfs.push_back(s);}
}
void __real__ZN3EKFC1ERKNS_10ParametersE(EKF *, EKF::Parameters *) __attribute__((weak));
void __wrap__ZN3EKFC1ERKNS_10ParametersE(EKF * s, EKF::Parameters * p)
{
  __real__ZN3EKFC1ERKNS_10ParametersE(s, p);
  if (g_on) {g_ekfs.push_back(s);}
}
}

namespace
{
void on_imu(void * s, const ImuMessage & m)
{
  if (!g_on) {return;}
  Seen x{K_IMU, static_cast<IMU *>(s)->GetName(), m.time, {}, cv::Mat()};
  for (int i = 0; i < 3; ++i) {x.v.push_back(m.acceleration(i));}
  for (int i = 0; i < 3; ++i) {x.v.push_back(m.angular_rate(i));}
  for (int i = 0; i < 9; ++i) {x.v.push_back(m.acceleration_covariance(i / 3, i % 3));}
  for (int i = 0; i < 9; ++i) {x.v.push_back(m.angular_rate_covariance(i / 3, i % 3));}
  g_seen.push_back(x);
}
void on_gps(void * s, const GpsMessage & m)
{
  if (!g_on) {return;}
  Seen x{K_GPS, static_cast<GPS *>(s)->GetName(), m.time, {}, cv::Mat()};
  for (int i = 0; i < 3; ++i) {x.v.push_back(m.gps_lla(i));}
  for (int i = 0; i < 9; ++i) {x.v.push_back(m.pos_covariance(i / 3, i % 3));}
  g_seen.push_back(x);
}

// ------------------------------------------------------------------ configuration
std::string name_of(const Plan & p, int s)
{
  const char * const pool[4][3] = {{"imu_1", "vn100", "left"}, {"gps_1", "ublox", "rover"}, {"cam_1", "front", "stereo_left"}, {"charuco", "board", "wall"}};
  int k = p.cfg.sensors[static_cast<size_t>(s)].kind, n = static_cast<int>(xget(p, "names"));
  std::string o = pool[k][n % 3];
  if (s > 0 || n % 2) {o += (n % 5 == 0 ? "" : "_") + std::to_string(s);}
  return o;
}
std::string topic_of(const Plan & p, int s)
{
  int n = static_cast<int>(xget(p, "names")) / 7 % 3;
  return n == 0 ? "/" + name_of(p, s) : n == 1 ? "/robot/" + name_of(p, s) + "/data" : name_of(p, s);
}
std::string tracker_of(const Plan & p, int s) {return xget(p, "shared") != 0 ? "orb" : "orb_" + std::to_string(s);}

using PV = rclcpp::ParameterValue;
struct Params
{
  const Plan & p;
  std::map<std::string, PV> & o;
  Rng r;
  // a parameter whose value is the default may be left out
  template<typename T> void put(const std::string & n, const T & v, const T & def) {if (v == def && r.p(0.5)) {return;} o[n] = PV(v);}
  void put(const std::string & n, const double * v, int k, std::vector<double> def)
  {
    std::vector<double> x(v, v + k);
    put(n, x, def);
  }
};

void parameters(const Plan & p, const std::string & dir, std::map<std::string, PV> & o)
{
  const Cfg & c = p.cfg;
  Params q{p, o, Rng(p.seed ^ 77)};
  using S = std::string;
  using D = std::vector<double>;
  o["log_directory"] = PV(dir);
  q.put("debug_log_level", c.log_level, 0);
  q.put("data_log_rate", c.log ? c.log_rate : 0.0, 0.0);
  o["augmenting_type"] = PV(c.aug); o["augmenting_delta_time"] = PV(c.aug_dt);
  o["augmenting_pos_error"] = PV(c.aug_pos); o["augmenting_ang_error"] = PV(c.aug_ang);
  const char * const pn[6] = {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"};
  for (int k = 0; k < 6; ++k) {q.put(S("process_noise.") + pn[k], c.pn[3 * k], 1.0e-2);}
  q.put("pos_e_in_g", c.lla, 3, {0, 0, 0}); q.put("ang_l_to_e", c.heading, 0.0);
  q.put("gps_init_type", c.gps_init, 0);
  o["gps_init_baseline_dist"] = PV(c.baseline); o["gps_init_pos_thresh"] = PV(c.pos_th); o["gps_init_ang_thresh"] = PV(c.ang_th);
  o["motion_detection_chi_squared"] = PV(c.chi2); q.put("imu_noise_scale_factor", c.scale, 100.0);
  q.put("use_root_covariance", c.root != 0, true); q.put("use_first_estimate_jacobian", c.fej != 0, false);
  std::vector<S> imus, cams, trks, fids, gpss;
  for (int s = 0; s < static_cast<int>(c.sensors.size()); ++s) {
    const SensorSpec & x = c.sensors[static_cast<size_t>(s)];
    S n = name_of(p, s);
    auto common = [&](const S & pre) {
        o[pre + ".topic"] = PV(topic_of(p, s)); q.put(pre + ".rate", x.rate, 1.0);
        q.put(pre + ".data_log_rate", c.log ? x.log_rate : 0.0, 0.0);
      };
    if (x.kind == K_IMU) {
      imus.push_back(n);
      S pre = "imu." + n;
      common(pre);
      q.put(pre + ".is_extrinsic", x.ext != 0, false); q.put(pre + ".is_intrinsic", x.intr != 0, false);
      q.put(pre + ".variance", x.var, 12, D(12, 1.0)); q.put(pre + ".pos_i_in_b", x.pos, 3, {0, 0, 0});
      q.put(pre + ".ang_i_to_b", x.ang, 4, {1, 0, 0, 0}); q.put(pre + ".acc_bias", x.ba, 3, {0, 0, 0});
      q.put(pre + ".omg_bias", x.bg, 3, {0, 0, 0}); q.put(pre + ".pos_stability", x.stab[0], 1e-9);
      q.put(pre + ".ang_stability", x.stab[1], 1e-9); q.put(pre + ".acc_bias_stability", x.stab[2], 1e-9);
      q.put(pre + ".omg_bias_stability", x.stab[3], 1e-9);
    } else if (x.kind == K_GPS) {
      gpss.push_back(n);
      S pre = "gps." + n;
      common(pre);
      q.put(pre + ".pos_a_in_b", x.pos, 3, {0, 0, 0}); q.put(pre + ".variance", x.var, 3, D(3, 1.0));
      q.put(pre + ".pos_stability", x.stab[0], 1e-9); q.put(pre + ".is_extrinsic", x.ext != 0, false);
    } else if (x.kind == K_CAM) {
      cams.push_back(n);
      S pre = "camera." + n;
      common(pre);
      q.put(pre + ".pos_c_in_b", x.pos, 3, {0, 0, 0}); q.put(pre + ".ang_c_to_b", x.ang, 4, {1, 0, 0, 0});
      q.put(pre + ".variance", x.var, 6, D(6, 1.0)); q.put(pre + ".pos_stability", x.stab[0], 1e-9);
      q.put(pre + ".ang_stability", x.stab[1], 1e-9); q.put(pre + ".is_extrinsic", x.ext != 0, false);
      const char * const in[9] = {"f_x", "f_y", "k_1", "k_2", "p_1", "p_2", "width", "height", "pixel_size"};
      const double df[9] = {0.01, 0.01, 0, 0, 0, 0, 640, 480, 5e-6};
      for (int k = 0; k < 9; ++k) {q.put(pre + ".intrinsics." + in[k], x.intrin[k], df[k]);}
      if (x.has_tracker) {
        S t = tracker_of(p, s), tp = "tracker." + t;
        o[pre + ".tracker"] = PV(t);
        bool known = false;
        for (auto & e : trks) {known = known || e == t;}
        if (!known) {trks.push_back(t);}
        auto xi = [&](const char * k) {return static_cast<int>(c.extra.at(k));};
        o[tp + ".feature_detector"] = PV(xi("detector")); o[tp + ".descriptor_extractor"] = PV(xi("descriptor"));
        o[tp + ".descriptor_matcher"] = PV(xi("matcher")); q.put(tp + ".detector_threshold", xi("threshold"), 20);
        q.put(tp + ".pixel_error", x.px_error, 1.0); q.put(tp + ".min_feature_distance", x.min_feat, 1.0);
        q.put(tp + ".min_track_length", x.min_track, 2); q.put(tp + ".max_track_length", x.max_track, 20);
      }
      for (int f = 0; f < static_cast<int>(c.sensors.size()); ++f) {
        if (c.sensors[static_cast<size_t>(f)].kind == K_FID && c.sensors[static_cast<size_t>(f)].cam == s) {o[pre + ".fiducial"] = PV(name_of(p, f));}
      }
    } else {
      fids.push_back(n);
      S pre = "fiducial." + n;
      q.put(pre + ".fiducial_type", x.intrin[0] != 0 ? 1 : 0, 0);
      o[pre + ".squares_x"] = PV(static_cast<int>(x.intrin[1])); o[pre + ".squares_y"] = PV(static_cast<int>(x.intrin[2]));
      o[pre + ".square_length"] = PV(x.intrin[4]); o[pre + ".marker_length"] = PV(x.intrin[5]);
      q.put(pre + ".id", static_cast<int>(x.id), 0);
      q.put(pre + ".pos_f_in_l", x.pos, 3, {0, 0, 0}); q.put(pre + ".ang_f_to_l", x.ang, 4, {1, 0, 0, 0});
      q.put(pre + ".variance", x.var, 6, D(6, 0.0)); q.put(pre + ".is_extrinsic", x.ext != 0, false);
      q.put(pre + ".max_track_length", x.max_track, 20); q.put(pre + ".min_track_length", x.min_track, 2);
    }
  }
  o["imu_list"] = PV(imus); o["camera_list"] = PV(cams); o["tracker_list"] = PV(trks);
  o["fiducial_list"] = PV(fids); o["gps_list"] = PV(gpss);
}

// The parameters of a YAML file, typed as the ROS parameter parser types them.
void load_yaml(const YAML::Node & n, const std::string & pre, std::map<std::string, PV> & o)
{
  auto is_int = [](const std::string & s) {char * e; std::strtoll(s.c_str(), &e, 10); return !s.empty() && !*e;};
  auto is_num = [](const std::string & s) {char * e; std::strtod(s.c_str(), &e); return !s.empty() && !*e;};
  for (auto i = n.begin(); i != n.end(); ++i) {
    std::string k = pre + i->first.as<std::string>();
    const YAML::Node & v = i->second;
    if (v.IsMap()) {load_yaml(v, k + ".", o); continue;}
    if (v.IsScalar()) {
      std::string s = v.Scalar();
      if (v.Tag() == "!") {o[k] = PV(s);} else if (s == "true" || s == "false") {o[k] = PV(s == "true");} else if (is_int(s)) {
        o[k] = PV(static_cast<int64_t>(std::strtoll(s.c_str(), nullptr, 10)));
      } else if (is_num(s)) {o[k] = PV(std::strtod(s.c_str(), nullptr));} else {o[k] = PV(s);}
    } else if (v.IsSequence() && v.size() > 0) {
      std::string s = v[0].Scalar();
      if (v[0].Tag() == "!" || !is_num(s)) {o[k] = PV(v.as<std::vector<std::string>>());} else if (is_int(s)) {o[k] = PV(v.as<std::vector<int64_t>>());
      } else {o[k] = PV(v.as<std::vector<double>>());}
    }
  }
}

// ------------------------------------------------------------------ traces
struct Event                     // D delivery, B body state, V image, E end
{
  char k;
  int op;
  double time;
  std::vector<double> v;
};
void pack(std::string & o, const Event & e)
{
  o.push_back(e.k);
  o.append(reinterpret_cast<const char *>(&e.op), 4); o.append(reinterpret_cast<const char *>(&e.time), 8);
  uint32_t n = static_cast<uint32_t>(e.v.size());
  o.append(reinterpret_cast<const char *>(&n), 4); o.append(reinterpret_cast<const char *>(e.v.data()), 8 * n);
}
std::vector<Event> unpack(const std::string & s, std::string & err)
{
  std::vector<Event> o;
  for (size_t i = 0; i + 17 <= s.size();) {
    if (s[i] == '!') {err = s.substr(i + 1); break;}
    Event e;
    uint32_t n;
    e.k = s[i]; std::memcpy(&e.op, &s[i + 1], 4); std::memcpy(&e.time, &s[i + 5], 8); std::memcpy(&n, &s[i + 13], 4);
    i += 17;
    e.v.resize(n);
    std::memcpy(e.v.data(), &s[i], 8 * n);
    i += 8 * n;
    o.push_back(e);
  }
  return o;
}
std::vector<double> state_of(EKF & e, bool root)
{
  std::vector<double> v{static_cast<double>(e.GetStateSize()), e.GetCurrentTime(), e.IsGravityInitialized() ? 1.0 : 0.0, e.IsLlaInitialized() ? 1.0 : 0.0};
  if (e.IsLlaInitialized()) {for (int i = 0; i < 3; ++i) {v.push_back(e.GetReferenceLLA()(i));} v.push_back(e.GetReferenceAngle());}
  Eigen::VectorXd x = e.m_state.ToVector();
  for (int i = 0; i < x.size(); ++i) {v.push_back(x(i));}
  Eigen::MatrixXd P = root ? Eigen::MatrixXd(e.m_cov.transpose() * e.m_cov) : e.m_cov;
  for (int i = 0; i < P.size(); ++i) {v.push_back(P(i));}
  return v;
}
double hash_mat(const cv::Mat & m)
{
  uint64_t h = 1469598103934665603ull;
  size_t line = static_cast<size_t>(m.cols) * m.elemSize();
  for (int i = 0; i < m.rows; ++i) {for (size_t k = 0; k < line; ++k) {h = (h ^ m.ptr(i)[k]) * 1099511628211ull;}}
  return static_cast<double>(h >> 12);
}

std_msgs::msg::Header stamp(double t)
{
  std_msgs::msg::Header h;
  double s = std::floor(t);
  int64_t n = std::llround((t - s) * 1e9);
  if (n >= 1000000000) {n -= 1000000000; s += 1;}
  h.stamp.sec = static_cast<int32_t>(s); h.stamp.nanosec = static_cast<uint32_t>(n);
  return h;
}

const char * const encodings[4] = {"mono8", "8UC1", "bgr8", "rgb8"};

cv::Mat gray_of(const Plan & p, const Op & op) {return scene_image(p, op);}

struct Bad {std::string cls, what;};

// ------------------------------------------------------------------ the node
class Node
{
public:
  Node(const Plan & q, const std::string & d) : p(q), dir(d) {}
  std::string run()
  {
    g_on = true; g_on_imu = on_imu; g_on_gps = on_gps;
    auto & b = rclcpp::sim::bus();
    if (p.profile == 1) {
      YAML::Node root = YAML::LoadFile(g_repo + "/config/example.yaml");
      load_yaml(root["/EkfCalNode"]["ros__parameters"], "", b.overrides);
      b.overrides["log_directory"] = PV(dir);
    } else {parameters(p, dir, b.overrides);}
    bool spun = false;
    b.spin = [&]() {spun = true; spin();};
    try {
      int rc = ekf_node_main(0, nullptr);
      if (rc != 0) {throw Bad{"node", fmt("the node ended with status %d", rc)};}
      if (!spun) {throw Bad{"node", "the node returned without serving its topics"};}
    } catch (const Bad & e) {
      return out + "!" + e.cls + "\n" + e.what;
    } catch (const std::exception & e) {
      return out + "!exception\nthe node ended with an exception " + (spun ? "while serving a message" : "before serving its topics") + std::string(": ") + e.what();
    }
    return out;
  }

private:
  const Plan & p;
  std::string dir, out;
  std::map<int, int> state;          // publication (operation) -> 1 waiting, 2 lost, 3 delivered
  std::map<int, int> waiting;        // per sensor
  double last_pub{0};
  size_t n_out{0}, n_lost{0};
  // without the seam at link time the sensors and the filter of the node cannot be seen; what it publishes still can
  static bool seam()
  {
    return __real__ZN3IMU8CallbackERK10ImuMessage && __real__ZN3GPS8CallbackERK10GpsMessage && __real__ZN6Camera8CallbackERK13CameraMessage;
  }
  std::vector<double> state_now()
  {
    if (g_ekfs.empty()) {
      if (__real__ZN3EKFC1ENS_10ParametersE || __real__ZN3EKFC1ERKNS_10ParametersE) {throw Bad{"node", "the node has no filter"};}
      return {};
    }
    return state_of(*g_ekfs.front(), p.cfg.root != 0);
  }
  void spin()
  {
    auto & b = rclcpp::sim::bus();
    Event e{'D', -1, 0, state_now()};
    pack(out, e);
    for (int k = 0; k < static_cast<int>(p.ops.size()); ++k) {
      const Op & op = p.ops[static_cast<size_t>(k)];
      *g_progress = k;
      switch (op.k) {
        case 'I': case 'G': case 'J': publish(k, op); break;
        case 'E':
          for (double u : op.d) {if (u < 0) {drain();} else if (!step(u)) {break;}}
          break;
        case 'T': b.now += static_cast<int64_t>(op.d[0] * 1e9); break;
        default: break;
      }
    }
    drain();
    for (auto & s : state) {
      if (s.second == 1) {throw Bad{"delivery", fmt("the message of op %d on topic %s was never taken", s.first, topic_of(p, p.ops[static_cast<size_t>(s.first)].s).c_str())};}
    }
    e = Event{'E', 0, 0, {}};
    pack(out, e);
  }
  void publish(int k, const Op & op)
  {
    auto & b = rclcpp::sim::bus();
    std::string topic = rclcpp::sim::Bus::full("EkfCalNode", topic_of(p, op.s));
    if (op.k == 'I') {
      auto m = std::make_shared<sensor_msgs::msg::Imu>();
      m->header = stamp(op.t);
      m->linear_acceleration.x = op.d[0]; m->linear_acceleration.y = op.d[1]; m->linear_acceleration.z = op.d[2];
      m->angular_velocity.x = op.d[3]; m->angular_velocity.y = op.d[4]; m->angular_velocity.z = op.d[5];
      for (size_t i = 0; i < 9; ++i) {m->linear_acceleration_covariance[i] = op.d[6 + i]; m->angular_velocity_covariance[i] = op.d[15 + i];}
      b.publish(k, topic, m);
    } else if (op.k == 'G') {
      auto m = std::make_shared<sensor_msgs::msg::NavSatFix>();
      m->header = stamp(op.t);
      m->latitude = op.d[0]; m->longitude = op.d[1]; m->altitude = op.d[2];
      for (size_t i = 0; i < 9; ++i) {m->position_covariance[i] = op.d[3 + i];}
      m->position_covariance_type = 3;
      m->status.status = static_cast<int8_t>(op.d[12]); m->status.service = 1;
      b.publish(k, topic, m);
    } else {
      cv::Mat g = gray_of(p, op);
      int enc = static_cast<int>(op.d[3]);
      cv::Mat x = g;
      if (enc >= 2 && !g.empty()) {cv::cvtColor(g, x, cv::COLOR_GRAY2BGR);}
      b.publish(k, topic, cv_bridge::CvImage(stamp(op.t), encodings[enc], x).toImageMsg());
    }
    state[k] = 1;
    int & w = waiting[op.s];
    ++w;
    while (n_lost < b.lost.size()) {
      int l = b.lost[n_lost++];
      if (state[l] != 1) {continue;}
      state[l] = 2;
      if (w <= 10) {throw Bad{"queue", fmt("a message of topic %s was dropped with %d waiting", topic_of(p, op.s).c_str(), w - 1)};}
      --w;
    }
  }
  std::vector<std::pair<int, size_t>> ready()
  {
    auto & b = rclcpp::sim::bus();
    std::vector<std::pair<int, size_t>> v;
    for (size_t i = 0; i < b.timers.size(); ++i) {if (b.timers[i]->alive && b.now >= b.timers[i]->next) {v.emplace_back(0, i);}}
    for (size_t i = 0; i < b.subs.size(); ++i) {if (b.subs[i]->alive && !b.subs[i]->queue.empty()) {v.emplace_back(1, i);}}
    return v;
  }
  void drain()
  {
    auto & b = rclcpp::sim::bus();
    for (int n = 0; step(0.5); ++n) {if (n > 100000) {throw Bad{"node", "the node never comes to rest"};}}
    double now = static_cast<double>(b.now) * 1e-9;
    if (std::floor(now + 1e-6) > std::floor(last_pub + 1e-6)) {
      throw Bad{"publication", fmt("the body state was last published at %.3f s, the clock is at %.3f s", last_pub, now)};
    }
  }
  bool step(double u)
  {
    auto & b = rclcpp::sim::bus();
    auto v = ready();
    if (v.empty()) {return false;}
    auto w = v[std::min(v.size() - 1, static_cast<size_t>(u * static_cast<double>(v.size())))];
    g_seen.clear();
    n_out = b.out.size();
    if (w.first == 0) {
      auto t = b.timers[w.second];
      while (t->next <= b.now) {t->next += t->period;}
      t->run();
      outputs(-1);
      if (!g_seen.empty()) {throw Bad{"delivery", "a timer made a sensor receive a message"};}
      return true;
    }
    auto s = b.subs[w.second];
    auto m = s->queue.front();
    s->queue.pop_front();
    s->run(m.second);
    int k = m.first;
    const Op & op = p.ops[static_cast<size_t>(k)];
    if (state[k] == 3) {throw Bad{"delivery", fmt("the message of op %d was taken twice", k)};}
    state[k] = 3;
    --waiting[op.s];
    delivered(k, op);
    outputs(k);
    return true;
  }
  void delivered(int k, const Op & op)
  {
    std::string n = name_of(p, op.s), topic = topic_of(p, op.s);
    Event e{'D', k, op.t, {}};
    e.time = stamp(op.t).stamp.sec + 1e-9 * stamp(op.t).stamp.nanosec;
    bool none = op.k == 'G' && op.d[12] == -1;
    if (!none && seam()) {
      if (g_seen.size() != 1) {throw Bad{"routing", fmt("a message of topic %s reached %zu sensors", topic.c_str(), g_seen.size())};}
      const Seen & s = g_seen[0];
      if (s.name != n || s.kind != p.cfg.sensors[static_cast<size_t>(op.s)].kind) {
        throw Bad{"routing", fmt("a message of topic %s, configured for %s, reached %s", topic.c_str(), n.c_str(), s.name.c_str())};
      }
      std_msgs::msg::Header h = stamp(op.t);
      double t = h.stamp.sec + 1e-9 * h.stamp.nanosec;
      if (!(std::abs(s.time - t) <= 1e-9 + 5e-16 * std::abs(t))) {throw Bad{"time", fmt("a message stamped %.9f reached %s with time %.9f", t, n.c_str(), s.time)};}
      e.time = s.time;
      if (op.k == 'J') {
        cv::Mat g = gray_of(p, op);
        bool ok = g.empty() ? s.img.empty() : s.img.size() == g.size() && s.img.type() == CV_8UC1 && cv::norm(g, s.img, cv::NORM_INF) <= 1;
        if (!ok) {throw Bad{"values", fmt("the image of op %d (%s) reached %s changed", k, encodings[static_cast<int>(op.d[3])], n.c_str())};}
      } else {
        for (size_t i = 0; i < s.v.size(); ++i) {
          if (!(s.v[i] == op.d[i])) {throw Bad{"values", fmt("value %zu of the message of op %d (%c) is %.17g, %s received %.17g", i, k, op.k, op.d[i], n.c_str(), s.v[i])};}
        }
      }
    }
    e.v = state_now();
    pack(out, e);
  }
  void outputs(int k)
  {
    auto & b = rclcpp::sim::bus();
    for (; n_out < b.out.size(); ++n_out) {
      auto & o = b.out[n_out];
      if (*o.type == typeid(std_msgs::msg::Float64MultiArray) && o.topic == "/EkfCalNode/BodyState") {
        Event e{'B', k, 0, std::static_pointer_cast<std_msgs::msg::Float64MultiArray>(o.msg)->data};
        pack(out, e);
        last_pub = static_cast<double>(b.now) * 1e-9;
      } else if (*o.type == typeid(sensor_msgs::msg::Image)) {
        auto i = std::static_pointer_cast<sensor_msgs::msg::Image>(o.msg);
        if (k < 0 || p.ops[static_cast<size_t>(k)].k != 'J') {throw Bad{"image", "an image was published though none was received"};}
        std::string want = "/EkfCalNode/" + name_of(p, p.ops[static_cast<size_t>(k)].s);
        if (o.topic != want) {throw Bad{"image", "the image of " + want + " was published as " + o.topic};}
        cv::Mat m(static_cast<int>(i->height), static_cast<int>(i->width), CV_8UC3, i->data.data(), i->step);
        bool whole = i->encoding == "bgr8" && i->step == 3 * i->width && i->data.size() == static_cast<size_t>(i->step) * i->height;
        Event e{'V', k, 0, {whole ? 1.0 : 0.0, static_cast<double>(i->width), static_cast<double>(i->height), whole && i->height > 0 ? hash_mat(m) : 0.0}};
        pack(out, e);
      }
    }
  }
};

// ------------------------------------------------------------------ the twin: sensors and filter assembled directly
std::string twin(const Plan & p, const std::string & dir, const std::vector<Event> & ev)
{
  Cfg c = p.cfg;
  c.do_init = 0; c.direct = 0; c.extra["real"] = 1;
  bool trk = false;
  int mt = 0;
  for (auto & s : c.sensors) {
    if (s.kind == K_IMU || s.kind == K_CAM || s.kind == K_FID) {
      Quaterniond q(s.ang[0], s.ang[1], s.ang[2], s.ang[3]);
      q.normalize();
      s.ang[0] = q.w(); s.ang[1] = q.x(); s.ang[2] = q.y(); s.ang[3] = q.z();
    }
    if (s.kind == K_CAM && s.has_tracker) {trk = true; mt = std::max(mt, s.max_track);}
    if (s.kind == K_FID) {mt = std::max(mt, s.max_track);}
    if (s.kind == K_FID) {s.intrin[3] = 0;}
  }
  c.extra["down"] = 0;
  if (!trk) {c.aug = 0;}
  c.max_track = mt; c.set_max_track = 1;
  World w(c, dir, 0);
  auto reg = [&](int s) {Op o; o.k = 'R'; o.s = s; w.apply(o);};
  int n = static_cast<int>(c.sensors.size());
  for (int s = 0; s < n; ++s) {if (c.sensors[static_cast<size_t>(s)].kind == K_IMU) {reg(s);}}
  for (int s = 0; s < n; ++s) {
    if (c.sensors[static_cast<size_t>(s)].kind != K_CAM) {continue;}
    reg(s);
    for (int f = 0; f < n; ++f) {if (c.sensors[static_cast<size_t>(f)].kind == K_FID && c.sensors[static_cast<size_t>(f)].cam == s) {reg(f);}}
  }
  for (int s = 0; s < n; ++s) {if (c.sensors[static_cast<size_t>(s)].kind == K_GPS) {reg(s);}}
  std::string out;
  for (auto & e : ev) {
    Event o{e.k, e.op, e.time, {}};
    if (e.k == 'D') {
      if (e.op >= 0) {
        Op op = p.ops[static_cast<size_t>(e.op)];
        *g_progress = e.op;
        op.t = e.time;
        if (op.k == 'J') {w.image(op.s, op.t, gray_of(p, op));} else if (!(op.k == 'G' && op.d[12] == -1)) {w.apply(op);}
      }
      o.v = state_of(*w.ekf, c.root != 0);
    } else if (e.k == 'B') {
      Eigen::VectorXd x = w.ekf->m_state.body_state.ToVector();
      o.v.assign(x.data(), x.data() + x.size());
    } else if (e.k == 'V') {
      const Op & op = p.ops[static_cast<size_t>(e.op)];
      const SensorSpec & s = c.sensors[static_cast<size_t>(op.s)];
      bool used = s.has_tracker != 0;
      for (auto & f : c.sensors) {used = used || (f.kind == K_FID && f.cam == op.s);}
      const cv::Mat & m = w.drawn(op.s);
      if (used) {o.v = {1.0, static_cast<double>(m.cols), static_cast<double>(m.rows), m.empty() ? 0.0 : hash_mat(m)};}
    }
    pack(out, o);
  }
  return out;
}

void run_ros(const Plan & p, const std::string & dir, RunOut & out)
{
  cv::setNumThreads(1);
  std::string da = dir + "a/", db = dir + "b/", why, raw, err;
  mkdir(da.c_str(), 0700); mkdir(db.c_str(), 0700);
  for (auto & op : p.ops) {
    out.cnt["ops"] += 1;
    if (op.tag) {out.cnt[std::string("fault.") + fault_names[op.tag]] += 1;}
  }
  int st = in_child([&]() {seam::disk_init(da); Node n(p, da); return n.run();}, raw, 60);
  if (st != 0) {fail(out, *g_progress, "abort", std::string("the node ended with ") + status_text(st, why)); return;}
  std::vector<Event> a = unpack(raw, err);
  if (!err.empty()) {
    size_t i = err.find('\n');
    mix_str(out.hash, err);
    fail(out, *g_progress, err.substr(0, i), err.substr(i + 1));
    return;
  }
  int last = -1;
  for (auto & e : a) {
    if (e.k == 'D' && e.op >= 0) {out.cnt["eval.deliveries"] += 1; out.cnt[std::string("probe.delivered_") + p.ops[static_cast<size_t>(e.op)].k] += 1;}
    if (e.k == 'B') {out.cnt["eval.publications"] += 1;}
    if (e.k == 'V') {out.cnt["eval.images"] += 1;}
    mix(out.hash, static_cast<uint64_t>(e.k)); mix(out.hash, static_cast<uint64_t>(e.op + 1));
    for (double v : e.v) {mixd(out.hash, v);}
    if (e.k == 'D' && e.op >= 0) {
      const Op & op = p.ops[static_cast<size_t>(e.op)];
      uint64_t h = 7;
      mix(h, static_cast<uint64_t>(op.k)); mix(h, static_cast<uint64_t>(op.tag)); if (!e.v.empty()) {mix(h, static_cast<uint64_t>(e.v[0])); mix(h, static_cast<uint64_t>(e.v[2] * 2 + e.v[3]));}
      mix(h, static_cast<uint64_t>(e.op < last)); mix(h, static_cast<uint64_t>(p.cfg.sensors.size()));
      out.states.insert(h);
      last = e.op;
    }
  }
  if (p.profile == 1) {out.cnt["eval.shipped"] += 5; return;}
  raw.clear();
  st = in_child([&]() {seam::disk_init(db); return twin(p, db, a);}, raw, 60);
  if (st != 0) {fail(out, *g_progress, "abort", std::string("the sensors and filter ended with ") + status_text(st, why)); return;}
  std::vector<Event> b = unpack(raw, err);
  if (b.size() != a.size()) {std::fprintf(stderr, "twin trace\n"); std::exit(3);}
  std::map<int, int> images;
  for (size_t i = 0; i < a.size(); ++i) {
    const Event & x = a[i], & y = b[i];
    int op = x.op >= 0 ? x.op : out.op;
    out.op = op;
    if (x.k == 'V') {
      ++images[x.op];
      if (x.v[0] != 1) {fail(out, op, "image", fmt("the image published for that of op %d is malformed: %g by %g pixels", op, x.v[1], x.v[2])); return;}
      if (y.v.empty()) {continue;}
    }
    if (x.k == 'D' && x.v.empty()) {out.cnt["probe.seam_lost"] += 1; continue;}
    const char * what = x.k == 'D' ? "state" : x.k == 'B' ? "published body state" : "published image";
    const char * cls = x.k == 'D' ? "state" : x.k == 'B' ? "published state" : "image";
    if (x.v.size() != y.v.size()) {
      fail(out, op, cls, fmt("the %s of the node has %zu values, that of its sensors and filter %zu", what, x.v.size(), y.v.size()));
      return;
    }
    double big = 1;
    for (double v : y.v) {if (std::isfinite(v)) {big = std::max(big, std::abs(v));}}
    for (size_t k = 0; k < x.v.size(); ++k) {
      bool same = x.v[k] == y.v[k] || (std::isnan(x.v[k]) && std::isnan(y.v[k])) ||
        (x.k != 'V' && std::abs(x.v[k] - y.v[k]) <= 1e-9 * std::max(1e-6, std::max(std::abs(y.v[k]), 1e-6 * big)));
      if (!same) {
        fail(out, op, cls, fmt("value %zu of the %s of the node is %.12g after op %d, that of its sensors and filter configured alike %.12g", k, what, x.v[k], op, y.v[k]));
        return;
      }
    }
  }
  for (auto & e : a) {
    if (e.k != 'D' || e.op < 0 || p.ops[static_cast<size_t>(e.op)].k != 'J') {continue;}
    if (images[e.op] != 1 && p.ops[static_cast<size_t>(e.op)].d[0] != 5) {
      fail(out, e.op, "image", fmt("%d images were published for the image of op %d", images[e.op], e.op));
      return;
    }
  }
  if (p.cfg.log) {
    auto la = read_logs(da), lb = read_logs(db);
    for (auto i = la.begin(); i != la.end();) {if (!lb.count(i->first)) {i = la.erase(i);} else {++i;}}
    std::string e = log_diff(la, lb);
    out.cnt["probe.log_files"] += static_cast<double>(lb.size());
    if (!e.empty()) {fail(out, out.op, "logs", "logs of the node and of its sensors and filter: " + e); return;}
  }
}
struct Hook {Hook() {g_run_ros = run_ros;}} hook;
}  // namespace
