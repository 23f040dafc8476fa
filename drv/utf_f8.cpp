#include "utf_ops.hpp"
namespace vf {
void from_8 (tokens const& t, json& j) {
  from_op<icubaby::char8> (t, j);
}
}  // end namespace vf
