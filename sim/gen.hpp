#pragma once
#include "plan.hpp"
#include "ref.hpp"

// True motion: at rest, then a smooth sum of sines.
struct Traj
{
  double rest;
  double A[3][2], W[3][2], B[3][2], V[3][2];
  Quaterniond q0;
  Traj(Rng & r, double rest_, double amp, double rot);
  double g(double t) const;
  Vector3d pos(double t) const;
  Quaterniond ang(double t) const;
  Vector3d vel(double t) const;
  Vector3d acc(double t) const;
  Vector3d omega(double t) const;
};

// Generator profile: what a run may contain.
struct Prof
{
  int imu[2]{1, 2}, gps[2]{0, 1}, cam[2]{0, 2}, fid[2]{0, 1};
  double root{0.5}, fej{0.2}, direct{0.5}, gps_const{0.5}, init{0.3}, log{0};
  int aug{-1}, max_track{6};
  double ext{0.5}, intr{0.5};
  bool tiny_var{false}, one_fid{false}, dyadic{false}, all_truth{false}, long_tracks{false};
  double unordered{0.2}, aligned{0.6}, truth_frac{0.5};
  double span[2]{2, 8}, amp{10};
  int max_ops{160};
  double loss{0.1}, late{0.08}, reorder{0.1}, dup{0.05}, dupnow{0.03}, outage{0.4}, skew{0.3}, jump{0.005},
    outlier{0.03}, blackout{0.1}, late_reg{0.2}, dup_reg{0.02}, clockjump{0}, disk{0}, silence{0}, crowd{0}, coarse_px{0}, shock{0};
  double presplit{0.5}, pastpred{0.03}, early_predict{0.1};
  double corr{0.3}, bad_noise{0.1}, wild{0};
  double tracks{0.6}, boards{0.5};
};
Plan gen_images(Rng & r, const std::string & prop, uint64_t seed);
Plan gen_ros(Rng & r, Prof f, const std::string & prop, uint64_t seed);
Plan gen_recover(Rng & r, const std::string & prop, uint64_t seed);
Plan gen_filter(Rng & r, const Prof & f, const std::string & prop, uint64_t seed);
