#include "fuzz.hpp"
#include "uri_drv.cpp"
namespace vf {
std::string decode (bytes_in& in) {
  static std::string const op = std::getenv ("VF_OP") ? std::getenv ("VF_OP") : "split";
  if (op == "split") { return "split " + hex (in.rest ()); }
  if (op == "joins") {
    std::string r = in.flag () ? "joins 1 " : "joins 0 ";
    r += hex (in.field ()) + ' ';
    return r + hex (in.rest ());
  }
  if (op == "joinp") {
    std::string r = in.flag () ? "joinp 1 " : "joinp 0 ";
    r += parts_tokens_from (in) + ' ';
    return r + parts_tokens_from (in);
  }
  if (op == "eq") {
    auto const a = parts_tokens_from (in);
    auto const b = in.flag () ? a : parts_tokens_from (in);
    return "eq " + a + ' ' + b + ' ' + parts_tokens_from (in);
  }
  return op + ' ' + parts_tokens_from (in);
}
}  // end namespace vf
