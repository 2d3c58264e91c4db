// Executable reference model of the filter, written from its documentation: full covariance,
// straightforward formulas, no shared code with the implementation except its plain data types.
#pragma once
#include <deque>
#include <map>
#include <string>
#include <vector>

#include "ekf/types.hpp"
#include "plan.hpp"

using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Vector3d;
using Eigen::Matrix3d;
using Eigen::Quaterniond;

// What can be observed of the filter.
struct Obs
{
  double t{0};
  unsigned size{18};
  State st;
  MatrixXd P;                // covariance represented (full)
  MatrixXd raw;              // m_cov as stored
  bool grav{false}, lla{false};
  Vector3d ref_lla{0, 0, 0};
  double ref_ang{0};
  unsigned imu_size{0}, gps_size{0}, cam_size{0}, aug_size{0};
  unsigned imu_start{0}, gps_start{0}, cam_start{0}, fid_start{0}, aug_start{0};
  unsigned gps_buf{0};
};

// One candidate log row.
struct Row
{
  std::string file;
  std::string kind;          // body aug imu gps msckf tri fid
  double t{0};
  std::vector<double> v;     // expected fields after time (NaN = do not compare)
  std::vector<double> tol;   // extra absolute tolerance per field (may be empty)
};

struct Board
{
  int spec;
  Vector3d pos; Quaterniond ang; Vector3d perr, aerr;
};
struct TrackPt {unsigned frame; double t; float x, y;};
struct Track {std::vector<TrackPt> pts; bool truth{false}; Vector3d pos{0, 0, 0};};
struct CamOp
{
  unsigned frame{0};
  std::vector<Track> tracks;
  std::vector<Board> boards;
  static CamOp parse(const Op & op);
  void store(Op & op) const;
};

struct RefResult
{
  Obs exp;                   // expected observation
  bool check_state{true};    // false: the step is numerically ambiguous, follow the implementation
  bool check_flags{true};
  bool predicted{false};     // time advanced and gravity established
  bool window_changed{false};
  bool msckf{false}, fiducial{false}, gps_used{false}, gps_multi{false}, gps_wait{false};
  bool stationary{false}, moving{false}, kalman{false}, registered{false}, refused{false};
  bool lla_attempt{false}, lla_ambiguous{false}, score_ambiguous{false};
  bool noop{false};
  double score{-1};
  MatrixXd Ppred;            // covariance after the prediction part (layout as in exp when same size)
  VectorXd xt, pe;           // rounding scale of the state and (square root of) of the covariance
  double cond{1};            // worst innovation condition number met
  double loose{1};           // tolerance multiplier
  std::vector<Row> rows;
  std::string note;
};

class Ref
{
public:
  explicit Ref(const Cfg & cfg);
  // Predict the effect of one operation from the observed pre-state.
  RefResult step(const Obs & pre, const Op & op, unsigned assigned_id);
  // Tell the model what the implementation decided, where the model could not.
  void resync(const Obs & post, const Op & op, const RefResult & r);
  std::map<int, unsigned> ids;            // sensor spec index -> identifier
  bool gravity{false};

private:
  const Cfg & c;
  bool root;
  // hidden state
  double now{0}, tref{0};
  bool tinit{false};
  bool zero_acc{true};
  bool any_reg{false};
  bool lla{false};
  Vector3d ref_lla;
  double ref_ang;
  std::vector<double> gps_t;
  std::vector<Vector3d> gps_ecef, gps_xyz;
  unsigned primary{0};
  double max_period{0}, max_dur{0}, min_aug{1.0};
  unsigned max_len{20};
  double aug_prev{0};
  bool frame_rx{true};
  std::map<int, bool> latched;            // IMU spec -> in motion
  struct Fej {bool set{false}; Vector3d p; Quaterniond q; Vector3d pf; Quaterniond qf;};
  std::map<int, Fej> fej_gps, fej_cam, fej_fid;

  double local(double t);
  void layout(Obs & o) const;
  VectorXd noise(const Obs & o) const;
  void predict(Obs & o, double t, RefResult & r);
  void push_window(Obs & o, unsigned key, unsigned frame, RefResult & r);
  void drop_window(Obs & o, unsigned key, unsigned i, RefResult & r);
  void augment_auto(Obs & o, RefResult & r);
  void augment_frame(Obs & o, unsigned cam, unsigned frame, RefResult & r);
  void kalman(
    Obs & o, const MatrixXd & H, const VectorXd & res, const MatrixXd & R, RefResult & r,
    double res_err);
  void reg(Obs & o, int s, RefResult & r, bool dup);
  void imu(Obs & o, const Op & op, RefResult & r);
  void gps(Obs & o, const Op & op, RefResult & r);
  void cam(Obs & o, const Op & op, RefResult & r);
  void msckf(Obs & o, int s, double lt, const CamOp & co, RefResult & r);
  void fiducial(Obs & o, int s, double lt, const Board & b, RefResult & r);
  AugState find_pose(const Obs & o, unsigned cam, unsigned frame, double t, bool & held) const;
  void row_body(const Obs & o, RefResult & r);
  void row_aug(const Obs & o, RefResult & r);
  friend class World;
};

// helpers shared with checks
Matrix3d rskew(const Vector3d & v);
Quaterniond rexp(const Vector3d & v);
Vector3d rlog(const Quaterniond & q);
Matrix3d rqj(const Quaterniond & q);
void rapply(State & s, const VectorXd & d);
VectorXd flatten(const State & s);                       // every estimated or fixed parameter
Vector3d r_lla_to_ecef(const Vector3d & lla);
Matrix3d r_enu_rot(const Vector3d & lla);                // ECEF -> ENU
Vector3d r_ecef_to_lla(const Vector3d & e);
double r_max_distance(const std::vector<Vector3d> & p);
