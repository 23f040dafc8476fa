#include "fuzz.hpp"
#include "parts_drv.cpp"
namespace vf {
std::string decode (bytes_in& in) {
  static std::string const op = std::getenv ("VF_OP") ? std::getenv ("VF_OP") : "ed";
  auto const kind = in.flag () ? "s" : "v";
  auto const p = parts_tokens_from (in);
  if (op == "ed") { return std::string{"sess "} + kind + (kind[0] == 's' ? "v" : "s") + " 3 L 0 " + p + " E 0 0 1 D 1 1 2"; }
  return std::string{"sess "} + kind + " 2 L 0 " + p + " D 0 0 1";
}
}  // end namespace vf
