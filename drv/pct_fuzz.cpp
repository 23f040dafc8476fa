#include "fuzz.hpp"
#include "pct_drv.cpp"
namespace vf {
std::string decode (bytes_in& in) {
  static std::string const op = std::getenv ("VF_OP") ? std::getenv ("VF_OP") : "dec";
  static char const* const sets[] = {"none", "fragment", "query", "special", "path", "userinfo", "component", "form"};
  if (op == "enc") {
    std::string const r = std::string{"enc "} + sets[in.below (8)] + ' ';
    return r + hex (in.rest ());
  }
  return "dec " + hex (in.rest ());
}
}  // end namespace vf
