#ifndef VERIF_STUB_KINDR_QUAT_TRANSFORMATION_H_
#define VERIF_STUB_KINDR_QUAT_TRANSFORMATION_H_
#include <kindr/minimal/position.h>
#include <kindr/minimal/rotation-quaternion.h>

namespace kindr {
namespace minimal {

template <typename Scalar>
class QuatTransformationTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef RotationQuaternionTemplate<Scalar> Rotation;
  typedef PositionTemplate<Scalar> Position;
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 6, 1> Vector6;
  typedef Eigen::Matrix<Scalar, 3, Eigen::Dynamic> Matrix3X;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef Eigen::Matrix<Scalar, 4, 4> TransformationMatrix;

  QuatTransformationTemplate() : t_(Position::Zero()) {}
  QuatTransformationTemplate(const Rotation& q, const Position& t) : q_(q), t_(t) {}
  QuatTransformationTemplate(const Position& t, const Rotation& q) : q_(q), t_(t) {}
  QuatTransformationTemplate(const typename Rotation::Implementation& q, const Position& t) : q_(q), t_(t) {}
  QuatTransformationTemplate(const Position& t, const typename Rotation::Implementation& q) : q_(q), t_(t) {}
  explicit QuatTransformationTemplate(const TransformationMatrix& T)
      : q_(RotationMatrix(T.template block<3, 3>(0, 0))), t_(T.template block<3, 1>(0, 3)) {}
  explicit QuatTransformationTemplate(const Vector6& v) : q_(Vector3(v.template tail<3>())), t_(v.template head<3>()) {}

  void setIdentity() { q_.setIdentity(); t_.setZero(); }
  QuatTransformationTemplate& setRandom() { q_.setRandom(); t_.setRandom(); return *this; }
  QuatTransformationTemplate& setRandom(Scalar norm) {
    setRandom();
    t_ = t_.normalized() * norm;
    return *this;
  }
  QuatTransformationTemplate& setRandom(Scalar norm, Scalar angle) {
    q_.setRandom(angle);
    t_ = Position::Random().normalized() * norm;
    return *this;
  }
  Position& getPosition() { return t_; }
  const Position& getPosition() const { return t_; }
  Rotation& getRotation() { return q_; }
  const Rotation& getRotation() const { return q_; }
  const Eigen::Quaternion<Scalar>& getEigenQuaternion() const { return q_.toImplementation(); }
  RotationMatrix getRotationMatrix() const { return q_.getRotationMatrix(); }
  TransformationMatrix getTransformationMatrix() const {
    TransformationMatrix T = TransformationMatrix::Identity();
    T.template block<3, 3>(0, 0) = q_.getRotationMatrix();
    T.template block<3, 1>(0, 3) = t_;
    return T;
  }
  QuatTransformationTemplate operator*(const QuatTransformationTemplate& o) const {
    return QuatTransformationTemplate(q_ * o.q_, Position(t_ + q_.rotate(o.t_)));
  }
  Vector3 operator*(const Vector3& v) const { return transform(v); }
  Vector3 transform(const Vector3& v) const { return q_.rotate(v) + t_; }
  Vector4 transform4(const Vector4& v) const { return getTransformationMatrix() * v; }
  Vector3 inverseTransform(const Vector3& v) const { return q_.inverseRotate(v - t_); }
  Matrix3X transformVectorized(const Matrix3X& v) const { return (q_.getRotationMatrix() * v).colwise() + t_; }
  QuatTransformationTemplate inverse() const {
    return QuatTransformationTemplate(q_.inverse(), Position(-q_.inverseRotate(t_)));
  }
  Vector6 log() const {
    Vector6 v;
    v << t_, q_.log();
    return v;
  }
  static Vector6 log(const QuatTransformationTemplate& T) { return T.log(); }
  static QuatTransformationTemplate exp(const Vector6& v) { return QuatTransformationTemplate(v); }
  bool operator==(const QuatTransformationTemplate& o) const { return q_ == o.q_ && t_ == o.t_; }
  bool operator!=(const QuatTransformationTemplate& o) const { return !(*this == o); }
  static QuatTransformationTemplate constructAndRenormalizeRotation(const TransformationMatrix& T) {
    QuatTransformationTemplate r(T);
    r.q_.normalize();
    return r;
  }

 private:
  Rotation q_;
  Position t_;
};
template <typename Scalar>
std::ostream& operator<<(std::ostream& out, const QuatTransformationTemplate<Scalar>& T) {
  return out << T.getTransformationMatrix();
}
typedef QuatTransformationTemplate<double> QuatTransformation;

}  // namespace minimal
}  // namespace kindr
#endif
