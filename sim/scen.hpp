// A simulator scenario: trajectory, sensors and their errors.  Sensors are operations of the plan
// ('S'), so that the minimiser can drop them; scalars live in Cfg::extra.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "infrastructure/debug_logger.hpp"
#include "infrastructure/sim/truth_engine.hpp"
#include "plan.hpp"
#include "ref.hpp"

struct SimSpec
{
  enum Kind {IMU_ = 0, CAM_ = 1, GPS_ = 2};
  int kind{0};
  double rate{10}, time_error{0}, log_rate{0};
  int no_errors{1}, ext{0}, intr{0};
  double pos[3]{0, 0, 0}, ang[4]{1, 0, 0, 0}, pos_err[3]{0, 0, 0}, ang_err[3]{0, 0, 0};
  double var[12]{0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1};
  double ba[3]{0, 0, 0}, bg[3]{0, 0, 0}, ae[3]{0, 0, 0}, we[3]{0, 0, 0}, bae[3]{0, 0, 0}, bge[3]{0, 0, 0};
  double intrin[9]{0.01, 0.01, 0, 0, 0, 0, 640, 480, 5e-6};
  int tracker{0}, features{0}, min_track{2}, max_track{20}, trk_no_errors{1};
  double px_error{1};
  int fid{0}, fid_no_errors{1}, fid_ext{0};
  double fpos[3]{4, 0, 0}, fang[4]{1, 0, 0, 0}, fpe[3]{0, 0, 0}, fae[3]{0, 0, 0}, te[3]{0, 0, 0}, re[3]{0, 0, 0};
  double lla_err[3]{0, 0, 0};
  void store(Op & o) const;
  static SimSpec parse(const Op & o);
};

struct Scen
{
  int truth{0};                  // 0 cyclic, 1 spline, 2 smoother
  double max_time{2}, rest{0};
  unsigned seed{1};
  double pf[3]{0, 0, 0}, af[3]{0, 0, 0}, po[3]{0, 0, 0}, ao[3]{0, 0, 0}, pa{1}, aa{0.1};
  std::vector<double> times, poses, angles;
  double pe[3]{0, 0, 0}, ae[3]{0, 0, 0};
  std::vector<SimSpec> sensors;
  std::vector<int> op;           // operation that defined the sensor
};
Scen scen_of(const Plan & p);
void gen_scen(Rng & r, Plan & p, double errors, bool app);
std::shared_ptr<TruthEngine> make_truth(const Scen & s, std::shared_ptr<DebugLogger> log);
std::string scen_yaml(const Plan & p, const Scen & s);
double xget(const Plan & p, const std::string & k, double def = 0);
