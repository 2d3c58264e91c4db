#include "world.hpp"

#include "seam.hpp"

static Vector3d v3(const double * p) {return Vector3d(p[0], p[1], p[2]);}
static Quaterniond q4(const double * p) {return Quaterniond(p[0], p[1], p[2], p[3]);}

World::World(const Cfg & cfg, const std::string & log_dir, int log_level)
: c(cfg), m_dir(log_dir)
{
  m_logger = std::make_shared<DebugLogger>(
    static_cast<unsigned int>(log_level >= 0 ? log_level : c.log_level), "");
  EKF::Parameters p;
  p.debug_logger = m_logger;
  p.data_log_rate = c.log ? c.log_rate : 0.0;
  p.log_directory = m_dir;
  p.augmenting_type = static_cast<AugmentationType>(c.aug);
  p.augmenting_delta_time = c.aug_dt;
  p.augmenting_pos_error = c.aug_pos;
  p.augmenting_ang_error = c.aug_ang;
  for (int i = 0; i < 18; ++i) {p.process_noise(i) = c.pn[i];}
  p.gps_init_type = static_cast<GpsInitType>(c.gps_init);
  p.gps_init_baseline_dist = c.baseline;
  p.gps_init_pos_thresh = c.pos_th;
  p.gps_init_ang_thresh = c.ang_th;
  p.pos_e_in_g = v3(c.lla);
  p.ang_l_to_e = c.heading;
  p.motion_detection_chi_squared = c.chi2;
  p.imu_noise_scale_factor = c.scale;
  p.use_root_covariance = c.root != 0;
  p.use_first_estimate_jacobian = c.fej != 0;
  ekf = std::make_shared<EKF>(p);
  if (c.set_max_track) {ekf->SetMaxTrackLength(static_cast<unsigned int>(c.max_track));}
  if (c.do_init) {
    BodyState b;
    b.pos_b_in_l = v3(c.body); b.vel_b_in_l = v3(c.body + 3); b.acc_b_in_l = v3(c.body + 6);
    b.ang_b_to_l = q4(c.body + 9);
    b.ang_vel_b_in_l = v3(c.body + 13); b.ang_acc_b_in_l = v3(c.body + 16);
    ekf->Initialize(c.t0, b);
  }
  m_s.resize(c.sensors.size());
  m_truth = std::make_shared<TruthEngineCyclic>(
    Vector3d(0, 0, 0), Vector3d(0, 0, 0), Vector3d(0, 0, 0), Vector3d(0, 0, 0), 0.0, 0.0, 0.0, 1.0,
    m_logger);
}

bool World::possible(const Op & op) const
{
  switch (op.k) {
    case 'R':
      if (op.s < 0 || op.s >= static_cast<int>(m_s.size()) || m_s[static_cast<size_t>(op.s)].reg) {
        return false;
      }
      {
        const SensorSpec & q = c.sensors[static_cast<size_t>(op.s)];
        if (q.kind == K_FID) {
          return q.cam >= 0 && m_s[static_cast<size_t>(q.cam)].reg;
        }
      }
      return true;
    case 'D': case 'I': case 'G': case 'C': case 'J':
      if (op.s < 0 || op.s >= static_cast<int>(m_s.size()) || !m_s[static_cast<size_t>(op.s)].reg) {
        return false;
      }
      if (op.k == 'C') {
        CamOp co = CamOp::parse(op);
        for (auto & b : co.boards) {
          if (!m_s[static_cast<size_t>(b.spec)].reg) {return false;}
        }
      }
      return true;
    default: return true;
  }
}

void World::reg(int s, bool dup)
{
  const SensorSpec & q = c.sensors[static_cast<size_t>(s)];
  Slot & z = m_s[static_cast<size_t>(s)];
  const double lr = c.log ? q.log_rate : 0.0;
  bool direct = c.direct != 0 || dup;
  unsigned id = dup ? z.id : q.id;
  if (q.kind == K_IMU) {
    if (direct) {
      ImuState x;
      x.SetIsExtrinsic(q.ext != 0); x.SetIsIntrinsic(q.intr != 0);
      x.pos_stability = q.stab[0]; x.ang_stability = q.stab[1];
      x.acc_bias_stability = q.stab[2]; x.omg_bias_stability = q.stab[3];
      x.pos_i_in_b = v3(q.pos); x.ang_i_to_b = q4(q.ang);
      x.acc_bias = v3(q.ba); x.omg_bias = v3(q.bg);
      int n = (q.ext ? 6 : 0) + (q.intr ? 6 : 0);
      MatrixXd cov = MatrixXd::Zero(n, n);
      int k = 0;
      for (int i = 0; i < 12; ++i) {if (i < 6 ? q.ext : q.intr) {cov(k, k) = q.var[i]; ++k;}}
      if (dup) {x.pos_i_in_b *= 2; cov *= 3;}
      ekf->RegisterIMU(id, x, cov);
      if (!dup) {z.u_imu.reset(new ImuUpdater(id, q.ext, q.intr, m_dir, lr, m_logger));}
    } else {
      IMU::Parameters p;
      p.name = "i"; p.rate = q.rate; p.data_log_rate = lr; p.log_directory = m_dir;
      p.logger = m_logger; p.ekf = ekf;
      p.is_extrinsic = q.ext; p.is_intrinsic = q.intr;
      p.pos_i_in_b = v3(q.pos); p.ang_i_to_b = q4(q.ang);
      p.acc_bias = v3(q.ba); p.omg_bias = v3(q.bg);
      p.pos_stability = q.stab[0]; p.ang_stability = q.stab[1];
      p.acc_bias_stability = q.stab[2]; p.omg_bias_stability = q.stab[3];
      for (int i = 0; i < 12; ++i) {p.variance(i) = q.var[i];}
      z.imu = std::make_shared<IMU>(p);
      id = z.imu->GetId();
    }
  } else if (q.kind == K_GPS) {
    if (direct) {
      GpsState x;
      x.SetIsExtrinsic(q.ext != 0); x.pos_a_in_b = v3(q.pos); x.pos_stability = q.stab[0];
      Matrix3d cov = v3(q.var).asDiagonal();
      if (dup) {x.pos_a_in_b *= 2; cov *= 3;}
      ekf->RegisterGPS(id, x, cov);
      if (!dup) {z.u_gps.reset(new GpsUpdater(id, q.ext, m_dir, lr, m_logger));}
    } else {
      GPS::Parameters p;
      p.name = "g"; p.rate = q.rate; p.data_log_rate = lr; p.log_directory = m_dir;
      p.logger = m_logger; p.ekf = ekf;
      p.is_extrinsic = q.ext; p.pos_a_in_b = v3(q.pos); p.pos_stability = q.stab[0];
      p.variance = v3(q.var);
      z.gps = std::make_shared<GPS>(p);
      id = z.gps->GetId();
    }
  } else if (q.kind == K_CAM) {
    Intrinsics k;
    k.f_x = q.intrin[0]; k.f_y = q.intrin[1]; k.k_1 = q.intrin[2]; k.k_2 = q.intrin[3];
    k.p_1 = q.intrin[4]; k.p_2 = q.intrin[5]; k.width = q.intrin[6]; k.height = q.intrin[7];
    k.pixel_size = q.intrin[8];
    if (direct) {
      CamState x;
      x.SetIsExtrinsic(q.ext != 0); x.pos_c_in_b = v3(q.pos); x.ang_c_to_b = q4(q.ang);
      x.rate = q.rate; x.pos_stability = q.stab[0]; x.ang_stability = q.stab[1]; x.intrinsics = k;
      MatrixXd cov = MatrixXd::Zero(6, 6);
      for (int i = 0; i < 6; ++i) {cov(i, i) = q.var[i];}
      if (dup) {x.pos_c_in_b *= 2; cov *= 3; x.rate *= 0.01;}
      ekf->RegisterCamera(id, x, cov);
      if (!dup) {z.u_ms.reset(new MsckfUpdater(id, q.ext, m_dir, lr, q.min_feat, m_logger));}
    } else if (c.extra.count("real")) {
      Camera::Parameters a;
      a.name = "c"; a.rate = q.rate; a.data_log_rate = lr; a.log_directory = m_dir;
      a.logger = m_logger; a.ekf = ekf;
      a.is_extrinsic = q.ext; a.pos_c_in_b = v3(q.pos); a.ang_c_to_b = q4(q.ang);
      a.pos_stability = q.stab[0]; a.ang_stability = q.stab[1]; a.intrinsics = k;
      for (int i = 0; i < 6; ++i) {a.variance(i) = q.var[i];}
      z.rcam = std::make_shared<Camera>(a);
      id = z.rcam->GetId();
      if (q.has_tracker) {
        auto x = [&](const char * n) {return static_cast<int>(c.extra.at(n));};
        FeatureTracker::Parameters b;
        b.camera_id = id; b.log_directory = m_dir; b.intrinsics = k; b.data_log_rate = lr;
        b.logger = m_logger; b.ekf = ekf; b.px_error = q.px_error; b.min_feat_dist = q.min_feat;
        b.is_cam_extrinsic = q.ext;
        b.min_track_length = static_cast<unsigned>(q.min_track);
        b.max_track_length = static_cast<unsigned>(q.max_track);
        b.detector = static_cast<Detector>(x("detector")); b.descriptor = static_cast<Descriptor>(x("descriptor"));
        b.matcher = static_cast<Matcher>(x("matcher")); b.threshold = x("threshold");
        b.down_sample = x("down") != 0; b.down_sample_width = x("down_w"); b.down_sample_height = x("down_h");
        z.rtrk = std::make_shared<FeatureTracker>(b);
        z.rcam->AddTracker(z.rtrk);
      }
    } else {
      SimCamera::Parameters p;
      p.no_errors = true;
      auto & a = p.cam_params;
      a.name = "c"; a.rate = q.rate; a.data_log_rate = lr; a.log_directory = m_dir;
      a.logger = m_logger; a.ekf = ekf;
      a.is_extrinsic = q.ext; a.pos_c_in_b = v3(q.pos); a.ang_c_to_b = q4(q.ang);
      a.pos_stability = q.stab[0]; a.ang_stability = q.stab[1]; a.intrinsics = k;
      for (int i = 0; i < 6; ++i) {a.variance(i) = q.var[i];}
      z.cam = std::make_shared<SimCamera>(p, m_truth);
      id = z.cam->GetId();
      SimFeatureTracker::Parameters t;
      t.no_errors = true;
      auto & b = t.tracker_params;
      b.camera_id = id; b.log_directory = m_dir; b.intrinsics = k; b.data_log_rate = lr;
      b.logger = m_logger; b.ekf = ekf; b.px_error = q.px_error; b.min_feat_dist = q.min_feat;
      b.is_cam_extrinsic = q.ext;
      b.min_track_length = static_cast<unsigned>(q.min_track);
      b.max_track_length = static_cast<unsigned>(q.max_track);
      z.trk = std::make_shared<SimFeatureTracker>(t, m_truth);
      z.cam->AddTracker(z.trk);
    }
  } else {
    const Slot & cs = m_s[static_cast<size_t>(q.cam)];
    const SensorSpec & cq = c.sensors[static_cast<size_t>(q.cam)];
    if (direct) {
      FidState x;
      x.SetIsExtrinsic(q.ext != 0); x.pos_f_in_l = v3(q.pos); x.ang_f_to_l = q4(q.ang); x.id = id;
      x.pos_stability = q.stab[0]; x.ang_stability = q.stab[1];
      MatrixXd cov = MatrixXd::Zero(6, 6);
      for (int i = 0; i < 6; ++i) {cov(i, i) = q.var[i];}
      if (dup) {x.pos_f_in_l *= 2; cov *= 3;}
      ekf->RegisterFiducial(x, cov);
      if (!dup) {
        z.u_fid.reset(new FiducialUpdater(id, cs.id, q.ext, cq.ext, m_dir, lr, m_logger));
      }
    } else if (c.extra.count("real")) {
      FiducialTracker::Parameters b;
      b.camera_id = cs.id; b.log_directory = m_dir; b.data_log_rate = lr; b.logger = m_logger;
      b.ekf = ekf; b.detector_type = q.intrin[0] != 0 ? FiducialType::CHARUCO_BOARD : FiducialType::ARUCO_BOARD;
      b.squares_x = static_cast<unsigned>(q.intrin[1]); b.squares_y = static_cast<unsigned>(q.intrin[2]);
      b.predefined_dict = static_cast<unsigned>(q.intrin[3]);
      b.square_length = q.intrin[4]; b.marker_length = q.intrin[5];
      b.id = q.id; b.pos_f_in_l = v3(q.pos); b.ang_f_to_l = q4(q.ang); b.is_extrinsic = q.ext;
      b.is_cam_extrinsic = cq.ext;
      for (int i = 0; i < 6; ++i) {b.variance(i) = q.var[i];}
      z.rfid = std::make_shared<FiducialTracker>(b);
      cs.rcam->AddFiducial(z.rfid);
      id = q.id;
    } else {
      SimFiducialTracker::Parameters t;
      t.no_errors = true;
      auto & b = t.fiducial_params;
      b.camera_id = cs.id; b.log_directory = m_dir; b.data_log_rate = lr; b.logger = m_logger;
      b.ekf = ekf; b.detector_type = FiducialType::CHARUCO_BOARD; b.predefined_dict = 0;
      b.squares_x = 5; b.squares_y = 7; b.square_length = 0.04; b.marker_length = 0.02;
      b.id = q.id; b.pos_f_in_l = v3(q.pos); b.ang_f_to_l = q4(q.ang); b.is_extrinsic = q.ext;
      b.is_cam_extrinsic = cq.ext;
      for (int i = 0; i < 6; ++i) {b.variance(i) = q.var[i];}
      z.fid = std::make_shared<SimFiducialTracker>(t, m_truth);
      cs.cam->AddFiducial(z.fid);
      id = q.id;
    }
  }
  if (!dup) {z.reg = true; z.id = id;}
}

static FeatureTracks make_tracks(const CamOp & co)
{
  FeatureTracks out;
  int n = 0;
  for (auto & t : co.tracks) {
    FeatureTrack f;
    if (t.truth) {f.true_feature_position = t.pos;}
    for (auto & p : t.pts) {
      cv::KeyPoint k;
      k.class_id = n; k.pt.x = p.x; k.pt.y = p.y;
      f.track.push_back(FeaturePoint{p.frame, p.t, k});
    }
    ++n;
    out.push_back(f);
  }
  return out;
}

static BoardDetection make_board(const CamOp & co, const Board & b, double t)
{
  BoardDetection d;
  d.frame_id = co.frame; d.frame_time = t;
  d.pos_f_in_c = b.pos; d.ang_f_to_c = b.ang; d.pos_error = b.perr; d.ang_error = b.aerr;
  return d;
}

void World::camera(const Op & op)
{
  CamOp co = CamOp::parse(op);
  Slot & z = m_s[static_cast<size_t>(op.s)];
  if (c.direct) {
    double lt = ekf->CalculateLocalTime(op.t);
    ekf->PredictModel(lt);
    ekf->AugmentStateIfNeeded(z.id, co.frame);
    if (!co.tracks.empty()) {
      z.u_ms->UpdateEKF(*ekf, op.t, make_tracks(co), c.sensors[static_cast<size_t>(op.s)].px_error);
    }
    for (auto & b : co.boards) {
      m_s[static_cast<size_t>(b.spec)].u_fid->UpdateEKF(*ekf, op.t, make_board(co, b, op.t));
    }
    return;
  }
  SimCameraMessage m{cv::Mat()};
  m.sensor_id = z.id; m.sensor_type = SensorType::Camera; m.time = op.t; m.frame_id = co.frame;
  auto tm = std::make_shared<SimFeatureTrackerMessage>();
  tm->time = op.t; tm->tracker_id = z.trk->GetID(); tm->sensor_id = z.id;
  tm->sensor_type = SensorType::Tracker;
  tm->feature_tracks = make_tracks(co);
  m.feature_track_messages.push_back(tm);
  for (auto & b : co.boards) {
    auto fm = std::make_shared<SimFiducialTrackerMessage>();
    fm->time = op.t; fm->tracker_id = m_s[static_cast<size_t>(b.spec)].fid->GetID();
    fm->sensor_id = z.id; fm->sensor_type = SensorType::Tracker;
    fm->is_board_visible = true;
    fm->board_detection = make_board(co, b, op.t);
    m.fiducial_track_messages.push_back(fm);
  }
  z.cam->Callback(m);
}

void World::image(int s, double t, const cv::Mat & img)
{
  Slot & z = m_s[static_cast<size_t>(s)];
  cv::Mat m = img;
  CameraMessage msg(m);
  msg.sensor_id = z.id; msg.sensor_type = SensorType::Camera; msg.time = t;
  z.rcam->Callback(msg);
}

void World::apply(const Op & op)
{
  switch (op.k) {
    case 'R': reg(op.s, false); break;
    case 'D': reg(op.s, true); break;
    case 'P': ekf->PredictModel(op.t); break;
    case 'I': {
        Vector3d a(op.d[0], op.d[1], op.d[2]), w(op.d[3], op.d[4], op.d[5]);
        Matrix3d Ra, Rw;
        for (int i = 0; i < 9; ++i) {
          Ra(i / 3, i % 3) = op.d[static_cast<size_t>(6 + i)];
          Rw(i / 3, i % 3) = op.d[static_cast<size_t>(15 + i)];
        }
        Slot & z = m_s[static_cast<size_t>(op.s)];
        if (c.direct) {z.u_imu->UpdateEKF(*ekf, op.t, a, Ra, w, Rw);} else {
          ImuMessage m;
          m.time = op.t; m.sensor_id = z.id; m.sensor_type = SensorType::IMU;
          m.acceleration = a; m.angular_rate = w;
          m.acceleration_covariance = Ra; m.angular_rate_covariance = Rw;
          z.imu->Callback(m);
        }
        break;
      }
    case 'G': {
        Vector3d l(op.d[0], op.d[1], op.d[2]);
        Matrix3d R;
        for (int i = 0; i < 9; ++i) {R(i / 3, i % 3) = op.d[static_cast<size_t>(3 + i)];}
        Slot & z = m_s[static_cast<size_t>(op.s)];
        if (c.direct) {z.u_gps->UpdateEKF(*ekf, op.t, l, R);} else {
          GpsMessage m;
          m.time = op.t; m.sensor_id = z.id; m.sensor_type = SensorType::GPS;
          m.gps_lla = l; m.pos_covariance = R;
          z.gps->Callback(m);
        }
        break;
      }
    case 'C': camera(op); break;
    case 'M': seam::clock_jump(static_cast<int64_t>(op.d[0])); break;
    case 'F':
      seam::disk_fault(
        static_cast<int>(op.d[0]), static_cast<int>(op.d[1]), static_cast<int>(op.d[2]));
      break;
    case 'A':
      ekf->m_state.body_state.pos_b_in_l = Vector3d(op.d[0], op.d[1], op.d[2]);
      break;
    default: break;
  }
}

Obs World::snap() const
{
  Obs o;
  const EKF & e = *ekf;
  o.t = e.GetCurrentTime(); o.size = e.GetStateSize(); o.st = e.m_state; o.raw = e.m_cov;
  if (c.root) {o.P = e.m_cov.transpose() * e.m_cov;} else {o.P = e.m_cov;}
  o.grav = e.IsGravityInitialized(); o.lla = e.IsLlaInitialized();
  o.ref_lla = o.lla ? Vector3d(e.GetReferenceLLA()) : v3(c.lla); o.ref_ang = e.GetReferenceAngle();
  o.imu_size = e.GetImuStateSize(); o.gps_size = e.GetGpsStateSize();
  o.cam_size = e.GetCamStateSize(); o.aug_size = e.GetAugStateSize();
  o.imu_start = e.GetImuStateStart(); o.gps_start = e.GetGpsStateStart();
  o.cam_start = e.GetCamStateStart(); o.fid_start = e.GetFidStateStart();
  o.aug_start = e.GetAugStateStart();
  o.gps_buf = static_cast<unsigned>(e.GetGpsTimeVector().size());
  return o;
}
