// Stand-in for the kindr pose library, which is not installed here.  It has the
// same interface as far as the code under test uses it.
#ifndef VERIF_STUB_KINDR_ROTATION_QUATERNION_H_
#define VERIF_STUB_KINDR_ROTATION_QUATERNION_H_
#include <cmath>
#include <ostream>
#include <vector>

#include <Eigen/Dense>
#include <Eigen/StdVector>
#include <glog/logging.h>

namespace kindr {
namespace minimal {

template <typename Scalar>
class AngleAxisTemplate;

template <typename Scalar>
class RotationQuaternionTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Quaternion<Scalar> Implementation;
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 3, 1> Imaginary;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;

  RotationQuaternionTemplate() : q_(Implementation::Identity()) {}
  explicit RotationQuaternionTemplate(const AngleAxisTemplate<Scalar>& a);
  explicit RotationQuaternionTemplate(const Vector3& v) : q_(exp(v).q_) {}
  RotationQuaternionTemplate(Scalar w, Scalar x, Scalar y, Scalar z) : q_(w, x, y, z) {}
  RotationQuaternionTemplate(Scalar w, const Imaginary& v) : q_(w, v[0], v[1], v[2]) {}
  RotationQuaternionTemplate(const Implementation& q) : q_(q) {}
  explicit RotationQuaternionTemplate(const RotationMatrix& m) : q_(m) {}
  explicit RotationQuaternionTemplate(const Eigen::AngleAxis<Scalar>& a) : q_(a) {}

  Scalar w() const { return q_.w(); }
  Scalar x() const { return q_.x(); }
  Scalar y() const { return q_.y(); }
  Scalar z() const { return q_.z(); }
  Imaginary imaginary() const { return q_.vec(); }
  Vector4 vector() const { return Vector4(w(), x(), y(), z()); }
  void setValues(Scalar w, Scalar x, Scalar y, Scalar z) { q_ = Implementation(w, x, y, z); }
  void setParts(Scalar r, const Imaginary& v) { q_ = Implementation(r, v[0], v[1], v[2]); }
  const Implementation& toImplementation() const { return q_; }
  Implementation& toImplementation() { return q_; }

  RotationQuaternionTemplate& setIdentity() { q_.setIdentity(); return *this; }
  RotationQuaternionTemplate& setRandom() {
    Eigen::Matrix<Scalar, 4, 1> v = Eigen::Matrix<Scalar, 4, 1>::Random();
    if (v.norm() < Scalar(1e-3)) v = Eigen::Matrix<Scalar, 4, 1>(1, 0, 0, 0);
    v.normalize();
    q_ = Implementation(v[0], v[1], v[2], v[3]);
    return *this;
  }
  RotationQuaternionTemplate& setRandom(Scalar angle_rad) {
    q_ = Implementation(Eigen::AngleAxis<Scalar>(angle_rad, Vector3::Random().normalized()));
    return *this;
  }
  RotationQuaternionTemplate inverse() const { return RotationQuaternionTemplate(q_.conjugate()); }
  RotationQuaternionTemplate conjugated() const { return RotationQuaternionTemplate(q_.conjugate()); }
  Vector3 rotate(const Vector3& v) const { return q_ * v; }
  typedef Eigen::Matrix<Scalar, 3, Eigen::Dynamic> Matrix3X;
  Matrix3X rotateVectorized(const Matrix3X& v) const { return q_.toRotationMatrix() * v; }
  Matrix3X inverseRotateVectorized(const Matrix3X& v) const { return q_.conjugate().toRotationMatrix() * v; }
  Vector4 rotate4(const Vector4& v) const { Vector4 r; r << rotate(Vector3(v.template head<3>())), v[3]; return r; }
  Vector3 inverseRotate(const Vector3& v) const { return q_.conjugate() * v; }
  Scalar norm() const { return q_.norm(); }
  Scalar squaredNorm() const { return q_.squaredNorm(); }
  RotationQuaternionTemplate& normalize() { q_.normalize(); return *this; }
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate& o) const {
    return RotationQuaternionTemplate(Implementation(q_ * o.q_));
  }
  bool operator==(const RotationQuaternionTemplate& o) const { return q_.coeffs() == o.q_.coeffs(); }
  RotationMatrix getRotationMatrix() const { return q_.toRotationMatrix(); }
  Scalar getDisparityAngle(const RotationQuaternionTemplate& o) const { return q_.angularDistance(o.q_); }
  Vector3 log() const { return log(*this); }
  static Vector3 log(const RotationQuaternionTemplate& q) {
    const Eigen::AngleAxis<Scalar> a(q.q_);
    return a.angle() * a.axis();
  }
  static RotationQuaternionTemplate exp(const Vector3& v) {
    const Scalar n = v.norm();
    if (n < Scalar(1e-12)) return RotationQuaternionTemplate();
    return RotationQuaternionTemplate(Implementation(Eigen::AngleAxis<Scalar>(n, v / n)));
  }
  static RotationQuaternionTemplate constructAndRenormalize(const RotationMatrix& m) {
    RotationQuaternionTemplate q(m);
    q.normalize();
    return q;
  }
  static RotationQuaternionTemplate fromApproximateRotationMatrix(const RotationMatrix& m) {
    return constructAndRenormalize(m);
  }
  static bool isValidRotationMatrix(const RotationMatrix& m) { return isValidRotationMatrix(m, Scalar(1e-4)); }
  static bool isValidRotationMatrix(const RotationMatrix& m, Scalar eps) {
    return std::abs(m.determinant() - Scalar(1)) < eps && (m * m.transpose() - RotationMatrix::Identity()).norm() < eps;
  }

 private:
  Implementation q_;
};
template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const RotationQuaternionTemplate<Scalar>& q) {
  return out << q.vector().transpose();
}

template <typename Scalar>
class AngleAxisTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::AngleAxis<Scalar> Implementation;
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  AngleAxisTemplate() : a_(Scalar(0), Vector3::UnitX()) {}
  AngleAxisTemplate(Scalar angle, const Vector3& axis) : a_(angle, axis) {}
  AngleAxisTemplate(Scalar angle, Scalar x, Scalar y, Scalar z) : a_(angle, Vector3(x, y, z)) {}
  explicit AngleAxisTemplate(const Vector3& v) : a_(v.norm(), v.norm() > 0 ? Vector3(v.normalized()) : Vector3(Vector3::UnitX())) {}
  explicit AngleAxisTemplate(const RotationMatrix& m) : a_(m) {}
  AngleAxisTemplate(const Implementation& a) : a_(a) {}
  explicit AngleAxisTemplate(const RotationQuaternionTemplate<Scalar>& q) : a_(q.toImplementation()) {}
  Scalar angle() const { return a_.angle(); }
  Vector3 axis() const { return a_.axis(); }
  RotationMatrix getRotationMatrix() const { return a_.toRotationMatrix(); }
  const Implementation& toImplementation() const { return a_; }

 private:
  Implementation a_;
};
template <typename Scalar>
RotationQuaternionTemplate<Scalar>::RotationQuaternionTemplate(const AngleAxisTemplate<Scalar>& a)
    : q_(a.toImplementation()) {}

typedef RotationQuaternionTemplate<double> RotationQuaternion;
typedef AngleAxisTemplate<double> AngleAxis;

}  // namespace minimal
}  // namespace kindr
#endif
