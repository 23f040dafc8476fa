#include "utf_ops.hpp"
namespace vf {
void from_32 (tokens const& t, json& j) {
  from_op<char32_t> (t, j);
}
}  // end namespace vf
