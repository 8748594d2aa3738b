// Stand-in for the parts of OpenGV that the repository uses. What RANSAC would
// find, and when, is decided by the simulation, per thread; which observations
// agree with it follows from what the repository gave it.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>

#include <cmath>
#include <cstddef>
#include <memory>
#include <vector>

namespace opengv {
typedef Eigen::Vector3d bearingVector_t, point_t, translation_t;
typedef Eigen::Matrix3d rotation_t;
typedef Eigen::Matrix<double, 3, 4> transformation_t;
typedef std::vector<bearingVector_t, Eigen::aligned_allocator<bearingVector_t>> bearingVectors_t;
typedef std::vector<point_t, Eigen::aligned_allocator<point_t>> points_t;
typedef std::vector<translation_t, Eigen::aligned_allocator<translation_t>> translations_t;
typedef std::vector<rotation_t, Eigen::aligned_allocator<rotation_t>> rotations_t;

namespace standin {
enum Problem { kRotation, kTranslation, kAbsolute, kProblems };
struct World {
  rotation_t rotation;        // of the second camera in the first
  translation_t translation;  // likewise
  transformation_t pose;
  // The iteration that finds it, without and with a random seed.
  int lucky[kProblems][2];
};
World& world();  // of this thread
// The pose that a refinement over some observations finds.
inline transformation_t refine(const transformation_t& pose, const std::vector<int>& over) {
  transformation_t out = pose;
  double s = 0;
  for (int i : over) s += 1. + i % 7;
  out(0, 3) += 1e-3 * s;
  out(2, 3) -= 1e-2 * static_cast<double>(over.size());
  return out;
}
}  // namespace standin

namespace absolute_pose {
// Like the original, adapters refer to what they are given.
class AbsoluteAdapterBase {
 public:
  AbsoluteAdapterBase(const bearingVectors_t& b, const points_t& p) : b_(b), p_(p) {}
  virtual ~AbsoluteAdapterBase() {}
  bearingVector_t getBearingVector(size_t i) const { return b_.at(i); }
  point_t getPoint(size_t i) const { return p_.at(i); }
  size_t getNumberCorrespondences() const { return b_.size(); }
  virtual bool central() const = 0;
  virtual translation_t getCamOffset(size_t i) const = 0;
  virtual rotation_t getCamRotation(size_t i) const = 0;

 protected:
  const bearingVectors_t& b_;
  const points_t& p_;
};
class CentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  CentralAbsoluteAdapter(const bearingVectors_t& b, const points_t& p) : AbsoluteAdapterBase(b, p) {}
  bool central() const override { return true; }
  translation_t getCamOffset(size_t) const override { return translation_t::Zero(); }
  rotation_t getCamRotation(size_t) const override { return rotation_t::Identity(); }
};
class NoncentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  NoncentralAbsoluteAdapter(const bearingVectors_t& b, const std::vector<int>& cameras, const points_t& p, const translations_t& offsets, const rotations_t& rotations)
      : AbsoluteAdapterBase(b, p), cameras_(cameras), offsets_(offsets), rotations_(rotations) {}
  bool central() const override { return false; }
  translation_t getCamOffset(size_t i) const override { return offsets_.at(static_cast<size_t>(cameras_.at(i))); }
  rotation_t getCamRotation(size_t i) const override { return rotations_.at(static_cast<size_t>(cameras_.at(i))); }

 private:
  const std::vector<int>& cameras_;
  const translations_t& offsets_;
  const rotations_t& rotations_;
};
}  // namespace absolute_pose

namespace relative_pose {
class CentralRelativeAdapter {
 public:
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2) : b1_(b1), b2_(b2), r_(rotation_t::Identity()) {}
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2, const rotation_t& r) : b1_(b1), b2_(b2), r_(r) {}
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2, const translation_t& t, const rotation_t& r) : b1_(b1), b2_(b2), r_(r) { (void)t; }
  bearingVector_t getBearingVector1(size_t i) const { return b1_.at(i); }
  bearingVector_t getBearingVector2(size_t i) const { return b2_.at(i); }
  size_t getNumberCorrespondences() const { return b1_.size(); }
  const rotation_t& getR12() const { return r_; }

 private:
  const bearingVectors_t& b1_;
  const bearingVectors_t& b2_;
  rotation_t r_;
};
}  // namespace relative_pose

namespace sac_problems {
namespace absolute_pose {
class AbsolutePoseSacProblem {
 public:
  typedef transformation_t model_t;
  typedef opengv::absolute_pose::AbsoluteAdapterBase adapter_t;
  enum Algorithm { TWOPT = 0, KNEIP = 1, GAO = 2, EPNP = 3, GP3P = 4 };
  AbsolutePoseSacProblem(adapter_t& adapter, Algorithm algorithm, bool random_seed = true) : a_(adapter), algorithm_(algorithm), random_(random_seed) {}
  virtual ~AbsolutePoseSacProblem() {}
  size_t size() const { return a_.getNumberCorrespondences(); }
  size_t sampleSize() const { return 4; }
  int lucky() const {
    // Only one of them can deal with several cameras; one needs a known rotation.
    if (algorithm_ == TWOPT || (!a_.central() && algorithm_ != GP3P)) return 1 << 30;
    return standin::world().lucky[standin::kAbsolute][random_];
  }
  model_t solve() const { return standin::world().pose; }
  double distance(const model_t& m, size_t i) const {
    const Eigen::Vector3d body = m.leftCols<3>().transpose() * (a_.getPoint(i) - m.col(3));
    const Eigen::Vector3d camera = a_.getCamRotation(i).transpose() * (body - a_.getCamOffset(i));
    return 1.0 - camera.normalized().dot(a_.getBearingVector(i));
  }
  virtual void optimizeModelCoefficients(const std::vector<int>& inliers, const model_t& model, model_t& optimized) { optimized = standin::refine(model, inliers); }

 private:
  adapter_t& a_;
  const Algorithm algorithm_;
  const bool random_;
};
}  // namespace absolute_pose
namespace relative_pose {
class RotationOnlySacProblem {
 public:
  typedef rotation_t model_t;
  typedef opengv::relative_pose::CentralRelativeAdapter adapter_t;
  RotationOnlySacProblem(adapter_t& adapter, bool random_seed = true) : a_(adapter), random_(random_seed) {}
  size_t size() const { return a_.getNumberCorrespondences(); }
  size_t sampleSize() const { return 2; }
  int lucky() const { return standin::world().lucky[standin::kRotation][random_]; }
  model_t solve() const { return standin::world().rotation; }
  double distance(const model_t& m, size_t i) const { return 1.0 - a_.getBearingVector1(i).dot(m * a_.getBearingVector2(i)); }

 private:
  adapter_t& a_;
  const bool random_;
};
class TranslationOnlySacProblem {
 public:
  typedef transformation_t model_t;
  typedef opengv::relative_pose::CentralRelativeAdapter adapter_t;
  TranslationOnlySacProblem(adapter_t& adapter, bool random_seed = true) : a_(adapter), random_(random_seed) {}
  size_t size() const { return a_.getNumberCorrespondences(); }
  size_t sampleSize() const { return 2; }
  int lucky() const { return standin::world().lucky[standin::kTranslation][random_]; }
  model_t solve() const {
    model_t m;
    m.leftCols<3>() = a_.getR12();
    m.col(3) = standin::world().translation;
    return m;
  }
  // How far the rays are from meeting.
  double distance(const model_t& m, size_t i) const {
    const Eigen::Vector3d n = m.col(3).cross(a_.getBearingVector1(i)).normalized();
    return std::fabs(n.dot(m.leftCols<3>() * a_.getBearingVector2(i)));
  }

 private:
  adapter_t& a_;
  const bool random_;
};
}  // namespace relative_pose
}  // namespace sac_problems

namespace sac {
template <class PROBLEM>
class Ransac {
 public:
  typedef typename PROBLEM::model_t model_t;
  Ransac(int max_iterations = 1000, double threshold = 1.0, double probability = 0.99)
      : max_iterations_(max_iterations), iterations_(0), threshold_(threshold), probability_(probability) {}
  bool computeModel(int = 0) {
    iterations_ = 0;
    inliers_.clear();
    inlier_distances_to_model_.clear();
    if (sac_model_->size() < sac_model_->sampleSize()) return false;
    const int lucky = sac_model_->lucky();
    if (lucky > max_iterations_) {
      iterations_ = max_iterations_;
      return false;
    }
    iterations_ = lucky;
    model_coefficients_ = sac_model_->solve();
    for (size_t i = 0; i < sac_model_->size(); ++i) {
      const double d = sac_model_->distance(model_coefficients_, i);
      if (!(d < threshold_)) continue;
      inliers_.push_back(static_cast<int>(i));
      inlier_distances_to_model_.push_back(d);
    }
    return true;
  }
  std::vector<int> model_, inliers_;
  std::vector<double> inlier_distances_to_model_;
  model_t model_coefficients_;
  int max_iterations_, iterations_;
  double threshold_, probability_;
  std::shared_ptr<PROBLEM> sac_model_;
};
}  // namespace sac
}  // namespace opengv
