#ifndef VERIF_STUB_KINDR_POSITION_H_
#define VERIF_STUB_KINDR_POSITION_H_
#include <Eigen/Dense>

namespace kindr {
namespace minimal {
template <typename Scalar>
using PositionTemplate = Eigen::Matrix<Scalar, 3, 1>;
typedef PositionTemplate<double> Position;
}  // namespace minimal
}  // namespace kindr
#endif
