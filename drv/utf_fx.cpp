#include "utf_ops.hpp"
namespace vf {
void from_bytes (tokens const& t, json& j) {
  from_op<std::byte> (t, j);
}
}  // end namespace vf
