#include "fuzz.hpp"
#include "utf_drv.cpp"
namespace vf {
// VF_OP: the kind of operation and the input encoding, as "push x".
std::string decode (bytes_in& in) {
  static std::string const op = std::getenv ("VF_OP") ? std::getenv ("VF_OP") : "push x";
  static char const* const to[] = {"8", "16", "32"};
  auto const from = op.substr (op.find (' ') + 1);
  std::string r = op;
  auto const flags = in.byte ();
  if (op[0] != 'l') { r += std::string{" "} + to[flags % 3]; }
  if (op[0] == 'p') {
    r += (flags & 0x10) ? " 0 " : " 1 ";
  } else {
    r += " =";
  }
  bool first = true;
  for (unsigned n = 0; n < 120 && !in.done (); ++n) {
    if (!first) { r += ','; }
    first = false;
    std::uint32_t u = in.byte ();
    if (op[0] == 'p' && u == 0xFB) {   // no unit of UTF-8; rare otherwise
      r += "ENCA"[in.below (4)];
      continue;
    }
    if (from == "16") { u = (u << 8) | in.byte (); }
    if (from == "32") {
      u = (u << 8) | in.byte ();
      u = (u << 8) | in.byte ();
      if ((u & 0xFF0000) == 0xFF0000) { u = (u << 8) | in.byte (); }
    }
    char b[16];
    std::snprintf (b, sizeof b, "%x", u);
    r += b;
  }
  if (first && op[0] == 'p') { r += "E"; }
  return r;
}
}  // end namespace vf
