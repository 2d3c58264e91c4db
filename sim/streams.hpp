// What a simulated sensor must report, computed independently from the true motion.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "checks.hpp"
#include "scen.hpp"
#include "sensors/gps_message.hpp"
#include "sensors/imu_message.hpp"
#include "sensors/sim/sim_camera_message.hpp"

struct SimMsg
{
  int type{0};                 // SimSpec::Kind
  unsigned id{0};
  double t{0};
  const void * addr{nullptr};
  Vector3d a{0, 0, 0}, w{0, 0, 0};             // IMU; GPS: a holds latitude, longitude, altitude
  Matrix3d Ra{Matrix3d::Zero()}, Rw{Matrix3d::Zero()};
  unsigned frame{0};
  std::vector<FeatureTrack> tracks;
  std::vector<BoardDetection> boards;
  int trackers{0};
};
SimMsg of(const ImuMessage & m);
SimMsg of(const GpsMessage & m);
SimMsg of(const SimCameraMessage & m);

// The true motion
struct Motion
{
  std::function<Vector3d(double)> pos, vel, acc, w, al;
  std::function<Quaterniond(double)> q;
};
Motion cyclic_motion(const Scen & s);                       // from the formulas
Motion engine_motion(std::shared_ptr<TruthEngine> e);       // what the engine says

// The true calibration of a sensor, known to `tol` (relative and absolute)
struct Calib
{
  Vector3d pos{0, 0, 0}, ba{0, 0, 0}, bg{0, 0, 0};
  Quaterniond q{1, 0, 0, 0};
  double tol{0};
};
struct Site {bool known{false}; Vector3d lla{0, 0, 0}; double head{0};};
struct BoardTruth {Vector3d pos{0, 0, 0}; Quaterniond q{1, 0, 0, 0}; double tol{0};};

bool check_times(RunOut & out, int op, const SimSpec & z, double max_time, const std::vector<double> & t);
bool check_imu(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c, const std::vector<SimMsg> & msgs);
bool check_gps(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c, const Site & site, const std::vector<SimMsg> & msgs);
bool check_boards(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c, const BoardTruth & b, const std::vector<SimMsg> & msgs);
// first: number of features that exist before the first frame; later ones fill the quota of the tracker
bool check_tracks(RunOut & out, int op, const SimSpec & z, const Motion & m, const Calib & c,
  const std::vector<Vector3d> & feats, size_t first, const std::vector<SimMsg> & msgs, bool alone = true);
bool check_scatter(RunOut & out, const std::string & what, const std::vector<double> & z);
// Does the sample look like independent draws of N(0, sigma^2)?  tol: error of the sample itself.
bool check_noise(RunOut & out, int op, const std::string & what, const std::vector<double> & r, double sigma, double tol);
