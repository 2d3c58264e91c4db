// Image path: the real camera, feature tracker and board tracker are fed rendered, damaged, late and missing images.
// The plan holds the scene (from seeds), the IMU samples and, per frame, the kind of image and the instant it shows.
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>

#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/opencv.hpp>

#include "checks.hpp"
#include "exec.hpp"
#include "gen.hpp"
#include "images.hpp"
#include "scen.hpp"
#include "world.hpp"

// ------------------------------------------------------------------ what the trackers hand to the updaters
struct Call {double time; std::vector<FeatureTrack> tracks; double px;};
static bool g_rec = false;
static std::vector<Call> g_calls;
static bool g_seam = false;
extern "C" {
void __real__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(
  void * s, EKF & e, double t, const std::vector<FeatureTrack> & f, double px);
void __wrap__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(
  void * s, EKF & e, double t, const std::vector<FeatureTrack> & f, double px)
{
  if (g_rec) {g_calls.push_back(Call{t, f, px}); g_seam = true;}
  __real__ZN12MsckfUpdater9UpdateEKFER3EKFdRKSt6vectorI12FeatureTrackSaIS3_EEd(s, e, t, f, px);
}
}

namespace
{
enum Kind
{
  CLEAR = 0, BLACK, WHITE, GRAY, NOISE, EMPTY, OCCLUDED, BLUR, THUMB, DOTS, CHECKER, INVERTED, DIM, TORN, CLIPPED, SPECKLE, KINDS
};
const char * const kind_names[KINDS] = {
  "clear", "black", "white", "gray", "noise", "empty", "occluded", "blurred", "thumbnail", "few_dots", "checker", "inverted",
  "dim", "torn", "clipped", "speckled"};

struct Plane {cv::Mat tex; cv::Matx33d to_plane; Quaterniond q; Vector3d p; int spec; double w, h; bool up;};
struct Blob {Vector3d c[4], mid;};

struct Eye                                  // a camera as the scene sees it
{
  double fx, fy, cx, cy, k[4];
  int w, h;
  Quaterniond q_cb; Vector3d p_cb;
  cv::Mat map;                              // distorted hi-res pixel -> undistorted hi-res pixel (empty: none)
  explicit Eye(const SensorSpec & s)
  {
    fx = s.intrin[0] / s.intrin[8]; fy = s.intrin[1] / s.intrin[8];
    for (int i = 0; i < 4; ++i) {k[i] = s.intrin[2 + i];}
    w = static_cast<int>(s.intrin[6]); h = static_cast<int>(s.intrin[7]);
    cx = w / 2; cy = h / 2;
    q_cb = Quaterniond(s.ang[0], s.ang[1], s.ang[2], s.ang[3]); p_cb = Vector3d(s.pos[0], s.pos[1], s.pos[2]);
    if (k[0] != 0 || k[1] != 0 || k[2] != 0 || k[3] != 0) {
      std::vector<cv::Point2f> in, out;
      for (int y = 0; y < 2 * h; ++y) {
        for (int x = 0; x < 2 * w; ++x) {in.emplace_back(static_cast<float>((x - 0.5) / 2), static_cast<float>((y - 0.5) / 2));}
      }
      cv::undistortPoints(in, out, K(), D());
      map.create(2 * h, 2 * w, CV_32FC2);
      for (int i = 0; i < 4 * w * h; ++i) {
        auto & o = out[static_cast<size_t>(i)];
        map.at<cv::Vec2f>(i / (2 * w), i % (2 * w)) = cv::Vec2f(static_cast<float>(2 * (fx * static_cast<double>(o.x) + cx) + 0.5),
            static_cast<float>(2 * (fy * static_cast<double>(o.y) + cy) + 0.5));
      }
    }
  }
  cv::Mat K() const {return (cv::Mat_<double>(3, 3) << fx, 0, cx, 0, fy, cy, 0, 0, 1);}
  cv::Mat D() const {return (cv::Mat_<double>(4, 1) << k[0], k[1], k[2], k[3]);}
  bool project(const Vector3d & c, double & u, double & v) const
  {
    if (c.z() < 0.05) {return false;}
    double x = c.x() / c.z(), y = c.y() / c.z(), r = x * x + y * y, a = 1 + k[0] * r + k[1] * r * r;
    u = fx * (x * a + 2 * k[2] * x * y + k[3] * (r + 2 * x * x)) + cx;
    v = fy * (y * a + k[2] * (r + 2 * y * y) + 2 * k[3] * x * y) + cy;
    return true;
  }
};

cv::Ptr<cv::aruco::Board> make_board(const SensorSpec & s)
{
  auto d = cv::aruco::getPredefinedDictionary(static_cast<int>(s.intrin[3]));
  int nx = static_cast<int>(s.intrin[1]), ny = static_cast<int>(s.intrin[2]);
  auto a = static_cast<float>(s.intrin[4]), b = static_cast<float>(s.intrin[5]);
  // a grid board takes the side of a marker and the gap between two, as the tracker passes them
  if (s.intrin[0] == 0) {return cv::aruco::GridBoard::create(nx, ny, a, b, d).staticCast<cv::aruco::Board>();}
  return cv::aruco::CharucoBoard::create(nx, ny, a, b, d).staticCast<cv::aruco::Board>();
}

Plane board_plane(const SensorSpec & s, int spec)
{
  Plane o;
  auto b = make_board(s);
  double a = s.intrin[4], m = s.intrin[5];
  bool ch = s.intrin[0] != 0;
  double W = ch ? s.intrin[1] * a : s.intrin[1] * a + (s.intrin[1] - 1) * m, H = ch ? s.intrin[2] * a : s.intrin[2] * a + (s.intrin[2] - 1) * m;
  double px = 600 / std::max(W, H);
  const int mg = 24;
  cv::Size z(static_cast<int>(std::lround(W * px)) + 2 * mg, static_cast<int>(std::lround(H * px)) + 2 * mg);
  if (ch) {b.staticCast<cv::aruco::CharucoBoard>()->draw(z, o.tex, mg, 1);} else {b.staticCast<cv::aruco::GridBoard>()->draw(z, o.tex, mg, 1);}
  // which way the drawing is up follows from where its markers are found
  std::vector<std::vector<cv::Point2f>> co;
  std::vector<int> ids;
  cv::aruco::detectMarkers(o.tex, b->dictionary, co, ids);
  double e[2] = {0, 0};
  double sx = W / (z.width - 2 * mg), sy = H / (z.height - 2 * mg);
  for (size_t i = 0; i < ids.size(); ++i) {
    for (size_t j = 0; j < b->ids.size(); ++j) {
      if (b->ids[j] != ids[i]) {continue;}
      for (size_t k = 0; k < 4; ++k) {
        double y = (static_cast<double>(co[i][k].y) + 0.5 - mg) * sy;
        e[0] += std::abs(y - static_cast<double>(b->objPoints[j][k].y)); e[1] += std::abs(H - y - static_cast<double>(b->objPoints[j][k].y));
      }
    }
  }
  bool up = e[1] < e[0];
  o.to_plane = cv::Matx33d(sx, 0, (0.5 - mg) * sx, 0, up ? -sy : sy, up ? H - (0.5 - mg) * sy : (0.5 - mg) * sy, 0, 0, 1);
  o.q = Quaterniond(s.ang[0], s.ang[1], s.ang[2], s.ang[3]); o.p = Vector3d(s.pos[0], s.pos[1], s.pos[2]);
  o.up = up; o.spec = spec; o.w = W; o.h = H;
  return o;
}

struct Scene
{
  Traj m;
  std::vector<Plane> planes;                // the wall, then the boards
  std::vector<Blob> blobs;
  std::vector<Eye> eyes;                    // by sensor index (unused entries for other kinds)
  std::map<int, size_t> eye_of;
  explicit Scene(const Plan & p) : m(traj(p))
  {
    const Cfg & c = p.cfg;
    Rng r(static_cast<uint64_t>(xget(p, "scene")));
    for (size_t i = 0; i < c.sensors.size(); ++i) {
      if (c.sensors[i].kind == K_CAM) {eye_of[static_cast<int>(i)] = eyes.size(); eyes.emplace_back(c.sensors[i]);}
    }
    // a wall with squares of random cells
    Plane w;
    double D = xget(p, "wall"), side = 2.4 * D;
    const int n = 1000;
    w.tex = cv::Mat(n, n, CV_8UC1, cv::Scalar(r.i(90, 160)));
    const Eye & e = eyes.at(0);
    Quaterniond qc = m.ang(0) * e.q_cb;
    w.q = qc * rexp(Vector3d(r.u(-0.25, 0.25), r.u(-0.25, 0.25), r.u(-3, 3)));
    w.p = m.pos(0) + m.ang(0) * e.p_cb + qc * Vector3d(0, 0, D) - w.q * Vector3d(side / 2, side / 2, 0);
    double s = side / n;
    w.to_plane = cv::Matx33d(s, 0, 0.5 * s, 0, s, 0.5 * s, 0, 0, 1);
    w.up = false; w.spec = -1; w.w = side; w.h = side;
    int nb = static_cast<int>(xget(p, "blobs")), cell = static_cast<int>(xget(p, "cell"));
    std::vector<cv::Rect> used;
    for (int i = 0; i < nb * 4 && static_cast<int>(used.size()) < nb; ++i) {
      int g = r.i(3, 4), z = g * cell, x = r.i(4, n - z - 4), y = r.i(4, n - z - 4);
      cv::Rect q(x, y, z, z), wide(x - 12, y - 12, z + 24, z + 24);
      bool hit = false;
      for (auto & u : used) {hit = hit || (u & wide).area() > 0;}
      if (hit) {continue;}
      used.push_back(q);
      for (int a = 0; a < g; ++a) {
        for (int b = 0; b < g; ++b) {cv::rectangle(w.tex, cv::Rect(x + a * cell, y + b * cell, cell, cell), cv::Scalar(r.p(0.5) ? r.i(0, 60) : r.i(190, 255)), -1);}
      }
      Blob o;
      for (int k = 0; k < 4; ++k) {
        double u = x + (k == 1 || k == 2 ? z : 0), v = y + (k >= 2 ? z : 0);
        o.c[k] = w.p + w.q * Vector3d(u * s, v * s, 0);
      }
      o.mid = w.p + w.q * Vector3d((x + z / 2.0) * s, (y + z / 2.0) * s, 0);
      blobs.push_back(o);
    }
    planes.push_back(w);
    for (size_t i = 0; i < c.sensors.size(); ++i) {
      if (c.sensors[i].kind == K_FID) {planes.push_back(board_plane(c.sensors[i], static_cast<int>(i)));}
    }
  }
  static Traj traj(const Plan & p)
  {
    Rng tr(static_cast<uint64_t>(xget(p, "traj")));
    Traj t(tr, xget(p, "rest"), xget(p, "amp"), xget(p, "rot"));
    t.q0 = Quaterniond(Eigen::AngleAxisd(xget(p, "yaw"), Vector3d::UnitZ()));
    return t;
  }
  void pose(int s, double t, Quaterniond & q, Vector3d & p) const
  {
    const Eye & e = eyes[eye_of.at(s)];
    q = m.ang(t) * e.q_cb; p = m.pos(t) + m.ang(t) * e.p_cb;
  }
  cv::Mat render(int s, double t) const
  {
    const Eye & e = eyes[eye_of.at(s)];
    Quaterniond q; Vector3d p;
    pose(s, t, q, p);
    cv::Mat hi(2 * e.h, 2 * e.w, CV_8UC1, cv::Scalar(127));
    cv::Matx33d K(2 * e.fx, 0, 2 * e.cx + 0.5, 0, 2 * e.fy, 2 * e.cy + 0.5, 0, 0, 1);
    for (auto & pl : planes) {
      Matrix3d R = (q.conjugate() * pl.q).toRotationMatrix();
      Vector3d o = q.conjugate() * (pl.p - p), mid = o + R * Vector3d(pl.w / 2, pl.h / 2, 0);
      bool front = mid.z() > 0.1;
      for (int k = 0; k < 4 && front; ++k) {front = pl.spec < 0 || (o + R * Vector3d(k & 1 ? pl.w : 0, k & 2 ? pl.h : 0, 0)).z() > 0.05;}
      if (!front) {continue;}
      cv::Matx33d M(R(0, 0), R(0, 1), o(0), R(1, 0), R(1, 1), o(1), R(2, 0), R(2, 1), o(2));
      cv::warpPerspective(pl.tex, hi, K * M * pl.to_plane, hi.size(), cv::INTER_LINEAR, cv::BORDER_TRANSPARENT);
    }
    if (!e.map.empty()) {cv::Mat d; cv::remap(hi, d, e.map, cv::Mat(), cv::INTER_LINEAR, cv::BORDER_CONSTANT, cv::Scalar(127)); hi = d;}
    cv::Mat lo;
    cv::resize(hi, lo, cv::Size(e.w, e.h), 0, 0, cv::INTER_AREA);
    return lo;
  }
  cv::Mat image(int s, const Op & op) const
  {
    const Eye & e = eyes[eye_of.at(s)];
    int kind = static_cast<int>(op.d[0]);
    double vt = op.d[2];
    Rng r(static_cast<uint64_t>(op.d[1]));
    cv::Size z(e.w, e.h);
    auto flat = [&](int v) {return cv::Mat(z, CV_8UC1, cv::Scalar(v));};
    if (kind == EMPTY) {return cv::Mat();}
    if (kind == BLACK) {return flat(0);}
    if (kind == WHITE) {return flat(255);}
    if (kind == GRAY) {return flat(r.i(1, 254));}
    if (kind == NOISE) {
      cv::Mat o(z, CV_8UC1);
      for (int i = 0; i < e.w * e.h; ++i) {o.at<uchar>(i / e.w, i % e.w) = static_cast<uchar>(r.i(0, 255));}
      return o;
    }
    if (kind == DOTS) {
      cv::Mat o = flat(100);
      int n = r.i(1, 12);
      for (int i = 0; i < n; ++i) {
        int x = r.i(40, e.w - 50), y = r.i(40, e.h - 50);
        cv::rectangle(o, cv::Rect(x, y, r.i(2, 9), r.i(2, 9)), cv::Scalar(r.i(0, 255)), -1);
      }
      return o;
    }
    if (kind == CHECKER) {
      cv::Mat o = flat(0);
      int a = r.i(6, 30);
      for (int i = 0; i < e.w * e.h; ++i) {o.at<uchar>(i / e.w, i % e.w) = (i / e.w / a + i % e.w / a) % 2 ? 230 : 20;}
      return o;
    }
    cv::Mat o = render(s, vt);
    if (kind == OCCLUDED) {
      int n = r.i(1, 4);
      for (int i = 0; i < n; ++i) {cv::rectangle(o, cv::Rect(r.i(-e.w / 2, e.w), r.i(-e.h / 2, e.h), r.i(20, e.w), r.i(20, e.h)) & cv::Rect(0, 0, e.w, e.h), cv::Scalar(r.i(0, 255)), -1);}
    }
    if (kind == BLUR) {cv::Mat b; int k = 2 * r.i(1, 14) + 1; cv::blur(o, b, cv::Size(k, r.p(0.5) ? k : 1)); o = b;}
    if (kind == THUMB) {cv::Mat b; cv::resize(o, b, cv::Size(std::max(32, e.w / r.i(2, 10)), std::max(24, e.h / r.i(2, 10)))); o = b;}
    if (kind == INVERTED) {o = 255 - o;}
    if (kind == DIM) {cv::Mat b; o.convertTo(b, -1, r.u(0.01, 0.3), r.i(0, 20)); o = b;}
    if (kind == TORN) {cv::Mat b = render(s, vt + 0.4); int y = r.i(1, e.h - 1); b.rowRange(y, e.h).copyTo(o.rowRange(y, e.h));}
    if (kind == CLIPPED) {cv::Mat b; o.convertTo(b, -1, r.u(1.5, 8), r.i(-200, 100)); o = b;}
    if (kind == SPECKLE) {
      int n = e.w * e.h / r.i(4, 200);
      for (int i = 0; i < n; ++i) {o.at<uchar>(r.i(0, e.h - 1), r.i(0, e.w - 1)) = r.p(0.5) ? 0 : 255;}
    }
    return o;
  }
};
}  // namespace

cv::Mat scene_image(const Plan & p, const Op & op)
{
  static std::unique_ptr<Scene> sc;
  if (!sc) {sc.reset(new Scene(p));}
  return sc->image(op.s, op);
}

void run_images(const Plan & p, const std::string & dir, RunOut & out)
{
  cv::setNumThreads(1);
  *g_progress = 0;
  const Cfg & c = p.cfg;
  Scene sc(p);
  World w(c, dir, 0);
  Ref ref(c);
  Obs pre = w.snap();
  double reach = 1;
  bool any_reg = false, diverged = false;
  struct Frame {double view, local; bool clear; double w, h;};
  struct Cam {std::map<unsigned, Frame> seen; std::set<std::array<double, 3>> used; int good{0}; bool fed{false}; double last_view{-1e9};};
  std::map<int, Cam> cams;
  unsigned next_frame = 0;
  double near = 0, far_ = 0, same = 0, other = 0;
  auto blob_at = [&](int s, double view, double x, double y, double & d) {
      const Eye & e = sc.eyes[sc.eye_of.at(s)];
      Quaterniond q; Vector3d o;
      sc.pose(s, view, q, o);
      std::set<int> all;   // things may cover each other: every one that lies there
      d = 1e9;
      for (size_t i = 0; i < sc.blobs.size(); ++i) {
        double u0 = 1e9, u1 = -1e9, v0 = 1e9, v1 = -1e9;
        bool ok = true;
        for (auto & k : sc.blobs[i].c) {
          double u, v;
          ok = ok && e.project(q.conjugate() * (k - o), u, v);
          if (ok) {u0 = std::min(u0, u); u1 = std::max(u1, u); v0 = std::min(v0, v); v1 = std::max(v1, v);}
        }
        if (!ok) {continue;}
        double dx = std::max({u0 - x, 0.0, x - u1}), dy = std::max({v0 - y, 0.0, y - v1}), z = std::hypot(dx, dy);
        if (z <= 1) {all.insert(static_cast<int>(i));}
        d = std::min(d, z);
      }
      // boards carry corners too
      for (auto & pl : sc.planes) {
        if (pl.spec < 0) {continue;}
        double u0 = 1e9, u1 = -1e9, v0 = 1e9, v1 = -1e9;
        bool ok = true;
        for (int k = 0; k < 4; ++k) {
          double u, v, mw = 0.06 * pl.w, mh = 0.06 * pl.h;
          ok = ok && e.project(q.conjugate() * (pl.p + pl.q * Vector3d(k & 1 ? pl.w + mw : -mw, k & 2 ? pl.h + mh : -mh, 0) - o), u, v);
          if (ok) {u0 = std::min(u0, u); u1 = std::max(u1, u); v0 = std::min(v0, v); v1 = std::max(v1, v);}
        }
        if (!ok) {continue;}
        double dx = std::max({u0 - x, 0.0, x - u1}), dy = std::max({v0 - y, 0.0, y - v1}), z = std::hypot(dx, dy);
        if (z <= 1) {all.insert(100000 + pl.spec);}
        d = std::min(d, z);
      }
      return all;
    };
  for (int k = 0; k < static_cast<int>(p.ops.size()); ++k) {
    const Op & op = p.ops[static_cast<size_t>(k)];
    if (!w.possible(op)) {out.cnt["skipped"] += 1; continue;}
    out.op = k;
    *g_progress = k;
    out.cnt["ops"] += 1;
    if (op.tag) {out.cnt[std::string("fault.") + fault_names[op.tag]] += 1;}
    if (op.k != 'J') {
      w.apply(op);
      Obs post = w.snap();
      mix(out.hash, hash_obs(post));
      if (op.k == 'R') {any_reg = true;}
      RefResult r = ref.step(pre, op, op.s >= 0 ? w.id_of(op.s) : 0);
      reach = std::max(reach, r.cond);
      ref.resync(post, op, r);
      pre = post;
      continue;
    }
    // ---- an image
    const int kind = static_cast<int>(op.d[0]);
    const double view = op.d[2];
    const SensorSpec & q = c.sensors[static_cast<size_t>(op.s)];
    Cam & cam = cams[op.s];
    cv::Mat img = sc.image(op.s, op), keep = img.clone();
    if (kind != CLEAR) {out.cnt[std::string("image.") + kind_names[kind]] += 1;}
    std::vector<int> fids;
    for (size_t i = 0; i < c.sensors.size(); ++i) {
      if (c.sensors[i].kind == K_FID && c.sensors[i].cam == op.s && w.registered(static_cast<int>(i))) {fids.push_back(static_cast<int>(i));}
    }
    g_calls.clear();
    g_rec = true;
    w.image(op.s, op.t, img);
    g_rec = false;
    Obs post = w.snap();
    mix(out.hash, hash_obs(post));
    out.cnt["eval.C21"] += 1;
    // the caller's image is left alone
    if (!img.empty() && (img.size() != keep.size() || cv::norm(img, keep, cv::NORM_L1) != 0)) {
      fail(out, k, "image changed", fmt("op %d: the caller's image was modified", k));
      return;
    }
    bool consumed = !img.empty() && (q.has_tracker || !fids.empty());
    if (!consumed) {
      out.cnt["probe.no_frame"] += 1;
      if (hash_obs(pre) != hash_obs(post)) {
        fail(out, k, "empty", fmt("op %d: an image without content, or without a tracker, changed the filter", k));
        return;
      }
      continue;
    }
    // ---- what should have been seen
    CamOp co;
    co.frame = next_frame;
    unsigned id = w.id_of(op.s);
    for (auto & e : post.st.aug_states) {
      // the number the camera gave this frame, where the window shows it
      if (e.first == id && !e.second.empty() && e.second.back().time == post.t) {co.frame = e.second.back().frame_id;}
    }
    if (cam.seen.count(co.frame) || co.frame < next_frame) {
      if (!(op.tag == F_DUP || op.tag == F_LATE) || cam.seen.count(co.frame) == 0) {
        fail(out, k, "frame number", fmt("op %d: frame number %u was used before", k, co.frame));
        return;
      }
      co.frame = next_frame;
    }
    next_frame = co.frame + 1;
    const Eye & e = sc.eyes[sc.eye_of.at(op.s)];
    for (int f : fids) {
      const SensorSpec & fs = c.sensors[static_cast<size_t>(f)];
      auto b = make_board(fs);
      std::vector<std::vector<cv::Point2f>> mc;
      std::vector<int> mi;
      cv::aruco::detectMarkers(img, b->dictionary, mc, mi, cv::makePtr<cv::aruco::DetectorParameters>());
      bool ok = false;
      cv::Vec3d rv, tv;
      if (!mi.empty()) {
        if (fs.intrin[0] != 0) {
          std::vector<cv::Point2f> cc;
          std::vector<int> ci;
          auto cb = b.staticCast<cv::aruco::CharucoBoard>();
          cv::aruco::interpolateCornersCharuco(mc, mi, img, cb, cc, ci, e.K(), e.D());
          ok = !ci.empty() && cv::aruco::estimatePoseCharucoBoard(cc, ci, cb, e.K(), e.D(), rv, tv);
        } else {
          ok = cv::aruco::estimatePoseBoard(mc, mi, b, e.K(), e.D(), rv, tv) != 0;
        }
      }
      Quaterniond qc; Vector3d pc;
      sc.pose(op.s, view, qc, pc);
      Vector3d tp(fs.pos[0], fs.pos[1], fs.pos[2]), tc = qc.conjugate() * (tp - pc);
      Quaterniond tq = qc.conjugate() * Quaterniond(fs.ang[0], fs.ang[1], fs.ang[2], fs.ang[3]);
      if (ok) {
        Board bd;
        bd.spec = f;
        bd.pos = Vector3d(tv[0], tv[1], tv[2]);
        Vector3d rr(rv[0], rv[1], rv[2]);
        bd.ang = rexp(rr);
        for (int i = 0; i < 3; ++i) {bd.perr(i) = fs.var[i]; bd.aerr(i) = fs.var[3 + i];}
        co.boards.push_back(bd);
        out.cnt["probe.board_seen"] += 1;
        if (kind == CLEAR) {
          // how good the rendering and the detector are together
          double pe = (bd.pos - tc).norm() / tc.norm(), ae = rlog(bd.ang * tq.conjugate()).norm();
          out.cnt["probe.board_clear"] += 1;
          if (pe < 0.05 && ae < 0.15) {out.cnt["probe.board_accurate"] += 1;}
          if (std::getenv("SIM_CAL")) {std::fprintf(stderr, "board %g pe %.4g ae %.4g markers %zu dist %.3g\n", fs.intrin[0], pe, ae, mi.size(), tc.norm());}
        }
      } else if (kind == CLEAR) {
        bool in = true;
        for (auto & pl : sc.planes) {
          for (int j = 0; j < 4 && pl.spec == f; ++j) {
            double u, v;
            in = in && e.project(qc.conjugate() * (pl.p + pl.q * Vector3d(j & 1 ? pl.w : 0, j & 2 ? pl.h : 0, 0) - pc), u, v) &&
              u > 5 && v > 5 && u < e.w - 5 && v < e.h - 5;
          }
        }
        if (in) {out.cnt["probe.board_missed"] += 1;}
      }
    }
    // ---- the tracks it used
    const double local = post.t;
    bool clear = kind == CLEAR;
    cam.seen[co.frame] = Frame{view, local, clear, static_cast<double>(img.cols), static_cast<double>(img.rows)};
    for (auto & call : g_calls) {
      out.cnt["eval.track_updates"] += 1;
      if (!q.has_tracker) {fail(out, k, "tracks", fmt("op %d: a camera without a feature tracker used tracks", k)); return;}
      if (call.time != op.t || call.px != q.px_error) {
        fail(out, k, "tracks", fmt("op %d: tracks are used with time %.9g and pixel error %.9g instead of %.9g and %.9g", k, call.time, call.px, op.t, q.px_error));
        return;
      }
      for (auto & t : call.tracks) {
        Track tr;
        out.cnt["eval.tracks"] += 1;
        if (t.track.size() < static_cast<size_t>(q.min_track) || t.track.size() > static_cast<size_t>(std::max(q.max_track, 1))) {
          fail(out, k, "track length", fmt("op %d: a track of %zu observations was used (allowed %d to %d)", k, t.track.size(), q.min_track, q.max_track));
          return;
        }
        for (size_t i = 0; i < t.track.size(); ++i) {
          const FeaturePoint & f = t.track[i];
          double x = static_cast<double>(f.key_point.pt.x), y = static_cast<double>(f.key_point.pt.y);
          auto it = cam.seen.find(f.frame_id);
          if (it == cam.seen.end()) {fail(out, k, "track frame", fmt("op %d: an observation names frame %u, which this camera did not take", k, f.frame_id)); return;}
          if (i > 0 && f.frame_id <= t.track[i - 1].frame_id) {fail(out, k, "track order", fmt("op %d: the frames of a track are not in order", k)); return;}
          if (f.frame_time != it->second.local) {
            fail(out, k, "track time", fmt("op %d: an observation of frame %u has time %.9g, the frame was taken at %.9g", k, f.frame_id, f.frame_time, it->second.local));
            return;
          }
          if (!(x >= -1 && y >= -1 && x <= it->second.w && y <= it->second.h)) {
            fail(out, k, "track pixel", fmt("op %d: an observation at (%.6g, %.6g) outside the image", k, x, y));
            return;
          }
          if (!cam.used.insert(std::array<double, 3>{static_cast<double>(f.frame_id), x, y}).second) {
            fail(out, k, "used twice", fmt("op %d: the observation at (%.6g, %.6g) of frame %u is used a second time", k, x, y, f.frame_id));
            return;
          }
          tr.pts.push_back(TrackPt{f.frame_id, f.frame_time, f.key_point.pt.x, f.key_point.pt.y});
          if (it->second.clear) {
            double d, d0;
            std::set<int> b = blob_at(op.s, it->second.view, x, y, d);
            (d < 4 ? near : far_) += 1;
            if (i > 0) {
              const FeaturePoint & g = t.track[i - 1];
              const Frame & fg = cam.seen.at(g.frame_id);
              if (fg.clear && std::abs(it->second.view - fg.view) < 0.3) {
                std::set<int> b0 = blob_at(op.s, fg.view, static_cast<double>(g.key_point.pt.x), static_cast<double>(g.key_point.pt.y), d0);
                if (!b.empty() && !b0.empty()) {
                  bool one = std::any_of(b.begin(), b.end(), [&](int x) {return b0.count(x) > 0;});
                  (one ? same : other) += 1;
                }
              }
            }
          }
        }
        if (t.true_feature_position.allFinite()) {fail(out, k, "tracks", fmt("op %d: a track seen in an image claims a true position", k)); return;}
        co.tracks.push_back(tr);
      }
    }
    // ---- progress: a scene that stays in view is used within the length of a track
    {
      int vis = 0;
      {
        Quaterniond qv; Vector3d pv;
        sc.pose(op.s, view, qv, pv);
        for (auto & b : sc.blobs) {
          double u, v;
          if (e.project(qv.conjugate() * (b.mid - pv), u, v) && u > 40 && v > 40 && u < e.w - 40 && v < e.h - 40) {vis += 1;}
        }
      }
      bool good = clear && vis >= 8 && op.tag != F_DUP && op.tag != F_LATE && view > cam.last_view && view - cam.last_view < 0.3;
      cam.good = good ? cam.good + 1 : clear ? 1 : 0;
      if (cam.good <= 1) {cam.fed = false;}
      cam.fed = cam.fed || !co.tracks.empty();
      cam.last_view = view;
      if (q.has_tracker && c.extra.count("reliable") && cam.good > q.max_track + 3) {
        out.cnt["probe.progress"] += 1;
        if (!cam.fed) {
          fail(out, k, "no progress", fmt("op %d: %d clear images of a textured scene in a row and no track was used", k, cam.good));
          return;
        }
      }
    }
    // ---- the filter
    if (!diverged) {
      std::string er = layout_error(post, any_reg);
      if (er.empty()) {er = finite_error(post);}
      if (er.empty() && reach < 1e9) {er = cov_error(post, 1e-14 * reach);}
      if (!er.empty()) {fail(out, k, "valid", fmt("op %d: ", k) + er); return;}
    }
    Op as;
    as.k = 'C'; as.s = op.s; as.t = op.t;
    co.store(as);
    RefResult r = ref.step(pre, as, id);
    reach = std::max(reach, r.cond);
    double pn = post.st.body_state.pos_b_in_l.norm();
    if (reach > 1e9 || post.st.body_state.ang_vel_b_in_l.norm() > 3e3 || pn > 1e5) {diverged = true; out.cnt["diverged"] += 1; return;}
    if (q.has_tracker && !g_seam && hash_obs(pre) != hash_obs(post) && co.tracks.empty() && !step_error(post, r).empty()) {
      out.cnt["probe.seam_unused"] += 1;
    }
    std::string er = step_error(post, r);
    if (r.check_state) {out.cnt["eval.step"] += 1;} else {out.cnt["ambiguous"] += 1;}
    if (!er.empty()) {
      fail(out, k, "step", fmt("op %d (%s image, %zu tracks, %zu boards seen): ", k, kind_names[kind], co.tracks.size(), co.boards.size()) + er);
      return;
    }
    {
      uint64_t h = 11;
      mix(h, static_cast<uint64_t>(kind)); mix(h, static_cast<uint64_t>(op.tag)); mix(h, co.boards.size() * 8 + std::min<size_t>(co.tracks.size(), 4));
      mix(h, static_cast<uint64_t>(c.extra.at("detector") * 8 + c.extra.at("descriptor") * 4 + c.extra.at("matcher") * 2 + c.extra.at("down")));
      mix(h, static_cast<uint64_t>(c.aug * 4 + c.root * 2 + c.fej)); mix(h, static_cast<uint64_t>(q.has_tracker * 4) + fids.size());
      out.states.insert(h);
    }
    if (std::getenv("SIM_VERBOSE")) {
      std::fprintf(stderr, "op %d t %.4f %s tag %d frame %u: tracks %zu boards %zu n %u%s\n", k, op.t, kind_names[kind], op.tag, co.frame, co.tracks.size(),
        co.boards.size(), post.size, r.check_state ? "" : (" ambiguous: " + r.note).c_str());
    }
    ref.resync(post, as, r);
    pre = post;
  }
  out.cnt["probe.near"] += near; out.cnt["probe.far"] += far_; out.cnt["probe.same"] += same; out.cnt["probe.other"] += other;
  if (near + far_ > 40 && near < 0.8 * (near + far_)) {
    fail(out, out.op, "feature position", fmt("only %.0f of %.0f observations lie on something in the scene", near, near + far_));
  }
  if (same + other > 60 && same < 0.75 * (same + other)) {
    fail(out, out.op, "feature identity", fmt("only %.0f of %.0f steps of tracks stay on the same thing", same, same + other));
  }
}

Plan gen_images(Rng & r, const std::string & prop, uint64_t seed)
{
  Plan p;
  p.prop = prop; p.seed = seed;
  Cfg & c = p.cfg;
  auto & x = c.extra;
  x["real"] = 1;
  c.direct = 0; c.root = r.p(0.4); c.fej = r.p(0.2); c.aug = r.p(0.7) ? 1 : r.i(0, 3); c.aug_dt = r.u(0.1, 0.5); c.gps_init = 0;
  c.max_track = r.i(3, 7); c.set_max_track = 1; c.do_init = 1; c.t0 = r.p(0.5) ? 0 : r.u(0, 1000); c.log = 0;
  for (int k = 0; k < 18; ++k) {c.pn[k] = r.lu(1e-6, 1e-3);}
  x["traj"] = r.i(1, 1000000); x["scene"] = r.i(1, 1000000); x["yaw"] = r.u(-3, 3);
  x["rest"] = 0; x["amp"] = r.u(0.05, 0.3); x["rot"] = r.u(0.02, 0.12); x["wall"] = r.u(1.5, 5);
  x["blobs"] = r.i(25, 160); x["cell"] = r.i(9, 14);
  x["detector"] = r.p(0.4) ? 1 : r.i(0, 5); x["descriptor"] = r.p(0.8) ? 0 : 1; x["matcher"] = r.i(0, 1);
  x["threshold"] = r.i(10, 40);
  // some runs are clear views of a rich wall all through, where tracks have to come out
  const bool plain = r.p(0.15);
  if (plain) {x["detector"] = 1; x["descriptor"] = 0; x["blobs"] = r.i(100, 160); c.max_track = r.i(3, 5);}
  bool small = plain || r.p(0.7);
  int W = small ? 320 : 640, H = small ? 240 : 480;
  x["down"] = !plain && r.p(0.25); x["down_w"] = W; x["down_h"] = H;
  if (x["down"] != 0 && r.p(0.8)) {x["down_w"] = W * 3 / 4; x["down_h"] = r.p(0.7) ? H * 3 / 4 : H;}
  SensorSpec i;
  i.kind = K_IMU; i.rate = 50;
  c.sensors.push_back(i);
  int nc = r.p(0.8) ? 1 : 2;
  double period = r.u(0.08, 0.2);
  Quaterniond q0(Eigen::AngleAxisd(x["yaw"], Vector3d::UnitZ()));
  for (int n = 0; n < nc; ++n) {
    SensorSpec s;
    s.kind = K_CAM; s.ext = r.p(0.5); s.rate = r.p(0.85) ? 1 / period : 0.5 / period;
    Quaterniond q = rexp(Vector3d(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)));
    if (n == 1) {q = Quaterniond(c.sensors[1].ang[0], c.sensors[1].ang[1], c.sensors[1].ang[2], c.sensors[1].ang[3]) * rexp(Vector3d(r.u(-0.1, 0.1), r.u(-0.1, 0.1), r.u(-0.3, 0.3)));}
    s.ang[0] = q.w(); s.ang[1] = q.x(); s.ang[2] = q.y(); s.ang[3] = q.z();
    for (double & v : s.pos) {v = r.u(-0.1, 0.1);}
    double f = r.u(0.9, 1.4) * W, px = 5e-6;
    s.intrin[0] = f * px; s.intrin[1] = f * px * r.u(0.97, 1.03);
    bool bent = r.p(0.3);
    s.intrin[2] = bent ? r.u(-0.15, 0.15) : 0; s.intrin[3] = bent ? r.u(-0.05, 0.05) : 0;
    s.intrin[4] = bent ? r.u(-3e-3, 3e-3) : 0; s.intrin[5] = bent ? r.u(-3e-3, 3e-3) : 0;
    s.intrin[6] = W; s.intrin[7] = H; s.intrin[8] = px;
    s.px_error = r.p(0.15) ? r.u(5, 20) : r.lu(0.3, 5); s.min_feat = r.p(0.8) ? 0.3 : r.u(0.3, 2);
    s.max_track = c.max_track; s.min_track = r.i(2, 3); s.has_tracker = r.p(0.75);
    for (double & v : s.var) {v = r.lu(1e-6, 1e-3);}
    c.sensors.push_back(s);
  }
  int nf = !plain && r.p(0.75) ? r.i(1, 2) : 0;
  int dict = r.i(0, 7), back = -1;
  for (int n = 0; n < nf; ++n) {
    SensorSpec s;
    s.kind = K_FID; s.id = static_cast<unsigned>(r.i(1, 9) + 10 * n); s.ext = r.p(0.4); s.cam = r.i(1, nc);
    // place it in the view of its camera
    const SensorSpec & cs = c.sensors[static_cast<size_t>(s.cam)];
    Quaterniond qc = q0 * Quaterniond(cs.ang[0], cs.ang[1], cs.ang[2], cs.ang[3]);
    Vector3d pc = q0 * Vector3d(cs.pos[0], cs.pos[1], cs.pos[2]);
    s.intrin[0] = r.p(0.6); s.intrin[1] = r.i(2, 5); s.intrin[2] = r.i(2, 5);
    if (s.intrin[0] != 0) {s.intrin[1] = r.i(3, 6); s.intrin[2] = r.i(3, 6);}
    s.intrin[3] = dict; dict = (dict + r.i(4, 12)) % 17;
    s.intrin[4] = r.u(0.03, 0.2); s.intrin[5] = s.intrin[4] * (s.intrin[0] != 0 ? r.u(0.5, 0.8) : r.u(0.2, 0.6));
    double ext = std::max(s.intrin[1], s.intrin[2]) * (s.intrin[4] + (s.intrin[0] != 0 ? 0 : s.intrin[5]));
    double z = ext * cs.intrin[0] / cs.intrin[8] / (r.u(0.35, 0.8) * H);
    Quaterniond ql = rexp(Vector3d(board_plane(s, 0).up ? M_PI : 0, 0, 0)) * rexp(Vector3d(0, 0, r.u(-3, 3)));
    ql = rexp(Vector3d(r.u(-0.5, 0.5), r.u(-0.5, 0.5), 0)) * ql;
    Vector3d mid(r.u(-0.15, 0.15) * z + (nf == 2 ? (n == 0 ? -0.15 : 0.15) * z : 0), r.u(-0.1, 0.1) * z, z);
    double bw = s.intrin[0] != 0 ? s.intrin[1] * s.intrin[4] : s.intrin[1] * s.intrin[4] + (s.intrin[1] - 1) * s.intrin[5];
    double bh = s.intrin[0] != 0 ? s.intrin[2] * s.intrin[4] : s.intrin[2] * s.intrin[4] + (s.intrin[2] - 1) * s.intrin[5];
    Vector3d at = pc + qc * (mid - ql * Vector3d(bw / 2, bh / 2, 0));
    Quaterniond qa = qc * ql;
    for (int k = 0; k < 3; ++k) {s.pos[k] = at(k);}
    s.ang[0] = qa.w(); s.ang[1] = qa.x(); s.ang[2] = qa.y(); s.ang[3] = qa.z();
    for (double & v : s.var) {v = r.lu(1e-5, 1e-1);}
    c.sensors.push_back(s);
    back = std::max(back, 0);
    x["wall"] = std::max(x["wall"], 1.3 * z);
  }
  x["reliable"] = x["detector"] == 1 && x["descriptor"] == 0 && nf == 0 && x["down"] == 0;
  if (x["reliable"] == 0) {x.erase("reliable");}
  Traj m = Scene::traj(p);
  auto set = [](double * d, const Vector3d & v) {for (int k = 0; k < 3; ++k) {d[k] = v(k);}};
  set(c.body, m.pos(0)); set(c.body + 3, m.vel(0)); set(c.body + 6, m.acc(0) + Vector3d(0, 0, 9.80665));
  c.body[9] = m.q0.w(); c.body[10] = m.q0.x(); c.body[11] = m.q0.y(); c.body[12] = m.q0.z();
  // ---- messages
  struct Msg {double at; Op op;};
  std::vector<Msg> v;
  int frames = small ? r.i(plain ? 16 : 10, 26) : r.i(6, 14);
  double span = frames * period + 0.1;
  bool with_imu = r.p(0.9);
  for (double t = 0; with_imu && t < span; t += 0.02) {
    Op o;
    o.k = 'I'; o.s = 0; o.t = c.t0 + t;
    Vector3d a = m.ang(t).conjugate() * (m.acc(t) + Vector3d(0, 0, 9.80665)), wv = m.omega(t);
    for (int k = 0; k < 3; ++k) {o.d.push_back(a(k) + 0.02 * r.n());}
    for (int k = 0; k < 3; ++k) {o.d.push_back(wv(k) + 0.002 * r.n());}
    for (int k = 0; k < 9; ++k) {o.d.push_back(k % 4 == 0 ? 4e-4 : 0);}
    for (int k = 0; k < 9; ++k) {o.d.push_back(k % 4 == 0 ? 4e-6 : 0);}
    v.push_back({t, o});
  }
  bool calm = plain || r.p(0.3);
  double bad = calm ? 0 : r.u(0.05, 0.5), loss = calm || r.p(0.5) ? 0 : 0.1, late = calm || r.p(0.6) ? 0 : 0.1, dup = calm || r.p(0.6) ? 0 : 0.1, rep = calm || r.p(0.7) ? 0 : 0.15;
  int only = r.p(0.4) ? r.i(1, KINDS - 1) : 0, burst = 0, bkind = 0;
  std::map<int, double> lastv;
  for (int n = 0; n < frames; ++n) {
    for (int s = 1; s <= nc; ++s) {
      double t = 0.011 + n * period + 0.003 * (s - 1);
      if (r.p(loss)) {p.faults["loss"] += 1; continue;}
      Op o;
      o.k = 'J'; o.s = s; o.t = c.t0 + t;
      int kind = CLEAR;
      if (burst > 0) {--burst; kind = bkind;} else if (r.p(bad)) {
        kind = only ? only : r.i(1, KINDS - 1);
        if (r.p(0.3)) {burst = r.i(1, 6); bkind = kind;}
      }
      double view = t;
      if (kind == CLEAR && r.p(rep) && lastv.count(s)) {view = lastv[s]; p.faults["repeated_image"] += 1; o.tag = F_DUP;}
      lastv[s] = view;
      if (kind != CLEAR) {p.faults[std::string("image_") + kind_names[kind]] += 1;}
      o.d = {static_cast<double>(kind), static_cast<double>(r.i(1, 1000000000)), view};
      double at = t;
      if (r.p(late)) {at += r.u(0, 0.5); o.tag = F_LATE; p.faults["late"] += 1;}
      v.push_back({at, o});
      if (r.p(dup)) {Op d = o; d.tag = F_DUP; p.faults["duplicate"] += 1; v.push_back({at + (r.p(0.5) ? 1e-9 : r.u(0, 0.3)), d});}
    }
  }
  std::stable_sort(v.begin(), v.end(), [](const Msg & a, const Msg & b) {return a.at < b.at;});
  std::vector<int> order;
  for (size_t k = 0; k < c.sensors.size(); ++k) {order.push_back(static_cast<int>(k));}
  size_t lr = r.p(0.2) && order.size() > 2 ? order.size() - 1 : order.size();
  for (size_t k = 0; k < lr; ++k) {Op o; o.k = 'R'; o.s = order[k]; p.ops.push_back(o);}
  size_t cut = static_cast<size_t>(r.i(0, static_cast<int>(v.size())));
  for (size_t k = 0; k < v.size(); ++k) {
    if (lr < order.size() && k == cut) {Op o; o.k = 'R'; o.s = order.back(); o.tag = F_LATEREG; p.ops.push_back(o); p.faults["late_registration"] += 1;}
    p.ops.push_back(v[k].op);
  }
  p.sim_time = span;
  return p;
}
