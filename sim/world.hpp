// The system under test, assembled from the real classes and driven one operation at a time.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "ekf/ekf.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "plan.hpp"
#include "ref.hpp"
#include "sensors/camera.hpp"
#include "sensors/gps.hpp"
#include "sensors/imu.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"

class World
{
public:
  World(const Cfg & cfg, const std::string & log_dir, int log_level = -1);
  // Apply one operation to the real code.
  void apply(const Op & op);
  Obs snap() const;
  // Is the operation applicable (its sensors are registered)?
  bool possible(const Op & op) const;
  unsigned id_of(int s) const {return m_s.at(static_cast<size_t>(s)).id;}
  bool registered(int s) const {return m_s.at(static_cast<size_t>(s)).reg;}
  std::shared_ptr<EKF> ekf;
  // image path (configurations with "real" set): the camera of sensor s receives an image
  void image(int s, double t, const cv::Mat & img);
  const cv::Mat & drawn(int s) const {return m_s.at(static_cast<size_t>(s)).rcam->m_out_img;}

private:
  const Cfg & c;
  std::string m_dir;
  std::shared_ptr<DebugLogger> m_logger;
  std::shared_ptr<TruthEngine> m_truth;
  struct Slot
  {
    bool reg{false};
    unsigned id{0};
    std::shared_ptr<IMU> imu;
    std::shared_ptr<GPS> gps;
    std::shared_ptr<SimCamera> cam;
    std::shared_ptr<Camera> rcam;
    std::shared_ptr<FeatureTracker> rtrk;
    std::shared_ptr<FiducialTracker> rfid;
    std::shared_ptr<SimFeatureTracker> trk;
    std::shared_ptr<SimFiducialTracker> fid;
    std::unique_ptr<ImuUpdater> u_imu;
    std::unique_ptr<GpsUpdater> u_gps;
    std::unique_ptr<MsckfUpdater> u_ms;
    std::unique_ptr<FiducialUpdater> u_fid;
  };
  std::vector<Slot> m_s;
  void reg(int s, bool dup);
  void camera(const Op & op);
};
