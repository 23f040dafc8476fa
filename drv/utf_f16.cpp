#include "utf_ops.hpp"
namespace vf {
void from_16 (tokens const& t, json& j) {
  from_op<char16_t> (t, j);
}
}  // end namespace vf
