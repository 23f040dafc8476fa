#include "fuzz.hpp"
#include "puny_drv.cpp"
namespace vf {
std::string decode (bytes_in& in) {
  static std::string const op = std::getenv ("VF_OP") ? std::getenv ("VF_OP") : "pdec";
  if (op == "penc") {
    std::string r = "penc @";
    bool first = true;
    while (!in.done ()) {
      // one byte of kind, then as many as the kind needs
      auto const k = in.byte ();
      std::uint32_t c = k & 0x7F;
      if (k & 0x80) {
        for (unsigned n = (k & 3) + 1; n > 0; --n) { c = (c << 8) | in.byte (); }
      }
      char b[16];
      std::snprintf (b, sizeof b, first ? "%x" : ",%x", c);
      first = false;
      r += b;
    }
    return r;
  }
  return "pdec " + hex (in.rest ());
}
}  // end namespace vf
