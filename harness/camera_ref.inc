// Reference models of the cameras, in long double (included inside a namespace).
typedef long double Real;
enum Class { kPinhole = 0, kUnified, kLidar, kClasses };
enum Kind { kNone = 0, kRadTan, kEquidistant, kFisheye, kKinds };
enum Status { kIn, kOut, kBehind, kInvalid, kEither /* too close to the border to call */, kUnsure };
const char* const kClassNames[] = {"pinhole", "unified projection", "lidar"};
const char* const kKindNames[] = {"no", "radial-tangential", "equidistant", "fisheye"};
const int kNumDist[] = {0, 4, 4, 1};
const int kNumIntr[] = {4, 5, 4};

struct Dist {
  int kind = kNone;
  std::vector<double> p;
};
struct Model {
  int cls = kPinhole;
  std::vector<double> k;
  Dist d;
  uint32_t w = 0, h = 0;
  uint64_t delay = 0;
  bool compressed = false, masked = false;
  std::vector<unsigned char> mask;
  std::string id, topic, description;
};
double number(Rng& r, double lo, double hi) {
  return lo + (hi - lo) * static_cast<double>(r.below(1000000007)) / 1000000007.0;
}
Eigen::VectorXd vec(const std::vector<double>& v) {
  Eigen::VectorXd e(static_cast<Eigen::Index>(v.size()));
  for (size_t i = 0; i < v.size(); ++i) e[static_cast<Eigen::Index>(i)] = v[i];
  return e;
}

// ----------------------------------------------------------------- reference
struct Vec2 {
  Real x, y;
};
Vec2 distort(int kind, const Real* p, Vec2 q) {
  const Real r2 = q.x * q.x + q.y * q.y, r = sqrtl(r2);
  switch (kind) {
    case kRadTan: {
      const Real s = 1 + p[0] * r2 + p[1] * r2 * r2;
      return Vec2{q.x * s + 2 * p[2] * q.x * q.y + p[3] * (r2 + 2 * q.x * q.x),
                  q.y * s + 2 * p[3] * q.x * q.y + p[2] * (r2 + 2 * q.y * q.y)};
    }
    case kEquidistant: {
      if (r < 1e-15L) return q;
      const Real t = atanl(r), t2 = t * t;
      const Real s = t * (1 + t2 * (p[0] + t2 * (p[1] + t2 * (p[2] + t2 * p[3])))) / r;
      return Vec2{q.x * s, q.y * s};
    }
    case kFisheye: {
      const Real w = p[0], m = 2 * tanl(w / 2);
      const Real s = fabsl(w) < 1e-12L ? 1 : r < 1e-12L ? m / w : atanl(m * r) / (r * w);
      return Vec2{q.x * s, q.y * s};
    }
    default: return q;
  }
}
struct Ref {
  Status s;
  Vec2 k;
};
// in: 3 point coordinates, intrinsics, distortion coefficients.
Ref project(int cls, int kind, uint32_t w, const Real* in) {
  const Real x = in[0], y = in[1], z = in[2], d = sqrtl(x * x + y * y + z * z);
  const Real *k = in + 3, *p = k + kNumIntr[cls];
  Ref o{kIn, Vec2{0, 0}};
  switch (cls) {
    case kPinhole: {
      if (z < 0) o.s = kBehind;
      else if (z <= 1e-10L * (1 - 1e-9L)) o.s = kInvalid;
      else if (z < 1e-10L * (1 + 1e-9L)) o.s = kUnsure;
      const Vec2 q = distort(kind, p, Vec2{x / z, y / z});
      o.k = Vec2{k[0] * q.x + k[2], k[1] * q.y + k[3]};
      break;
    }
    case kUnified: {
      const Real xi = k[0], fov = xi <= 1 ? xi : 1 / xi;
      if (d < 1e-9L) {
        o.s = d == 0 ? kInvalid : kUnsure;
        break;
      }
      if (z <= -fov * d) o.s = kInvalid;
      if (fabsl(z + fov * d) < 1e-6L * d) o.s = kUnsure;
      if (o.s != kIn) break;
      const Vec2 q = distort(kind, p, Vec2{x / (z + xi * d), y / (z + xi * d)});
      o.k = Vec2{k[1] * q.x + k[3], k[2] * q.y + k[4]};
      break;
    }
    default: {
      if (d < 1e-6L * (1 - 1e-6L)) {
        o.s = kInvalid;
        break;
      }
      if (d < 1e-6L * (1 + 1e-6L)) o.s = kUnsure;
      else if (d * d <= 1e-4L * (1 - 1e-9L)) o.s = kInvalid;
      else if (d * d < 1e-4L * (1 + 1e-9L)) o.s = kUnsure;
      Real u = (atan2l(x, z) + k[3]) / k[0];
      if (u < 0) u += w;
      o.k = Vec2{u, (asinl(y / d) + k[2]) / k[1]};
      break;
    }
  }
  return o;
}
// Would a keypoint be in the image?
Status visible(Vec2 k, uint32_t w, uint32_t h) {
  const Real e = 1e-6L * (1 + fabsl(k.x) + fabsl(k.y)) + 1e-4L;
  if (k.x < -e || k.y < -e || k.x > w + e || k.y > h + e) return kOut;
  if (k.x > e && k.y > e && k.x < w - e && k.y < h - e) return kIn;
  return kEither;
}
Status status(const ProjectionResult& r) {
  switch (r.getDetailedStatus()) {
    case ProjectionResult::Status::KEYPOINT_VISIBLE: return kIn;
    case ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX: return kOut;
    case ProjectionResult::Status::POINT_BEHIND_CAMERA: return kBehind;
    case ProjectionResult::Status::PROJECTION_INVALID: return kInvalid;
    default: return kUnsure;
  }
}
const char* name(Status s) {
  static const char* const k[] = {"visible", "outside the image", "behind the camera", "invalid", "?", "uninitialised"};
  return k[s];
}

Distortion::UniquePtr make(const Dist& d) {
  Distortion::UniquePtr u;
  switch (d.kind) {
    case kRadTan: u.reset(new aslam::RadTanDistortion(vec(d.p))); break;
    case kEquidistant: u.reset(new aslam::EquidistantDistortion(vec(d.p))); break;
    case kFisheye: u.reset(new aslam::FisheyeDistortion(vec(d.p))); break;
    default: u.reset(new aslam::NullDistortion); break;
  }
  return u;
}
