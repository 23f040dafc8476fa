#include "fuzz.hpp"
#include "rule_drv.cpp"
namespace vf {
namespace {
std::string n (unsigned v) { return std::to_string (v); }
std::string expr (bytes_in& in, unsigned depth);
std::string step (bytes_in& in, unsigned depth) {
  switch (in.below (4)) {
  case 0: { auto const a = n (in.below (6)); return "C " + a + ' ' + expr (in, depth); }
  case 1: { auto const a = n (in.below (6)); return "O " + a + ' ' + expr (in, depth); }
  case 2: {
    auto const lo = in.below (4);
    auto const k = in.below (5);
    return "S " + n (lo) + ' ' + (k == 4 ? std::string{"999999"} : n (lo + k)) + ' ' + expr (in, depth);
  }
  default: {
    auto const k = in.below (5) + 1;
    std::string r = "A " + n (k);
    for (unsigned i = 0; i < k; ++i) { r += ' ' + expr (in, depth); }
    return r;
  }
  }
}
std::string expr (bytes_in& in, unsigned depth) {
  auto const k = depth == 0 ? in.below (4) : in.below (10);
  switch (k) {
  case 0: return "ch " + n (97 + in.below (3));
  case 1: return "ch " + n (65 + in.below (3));
  case 2: { auto const a = in.below (3); return "rg " + n (97 + a) + ' ' + n (97 + a + in.below (3)); }
  case 3: { static char const* const p[] = {"al", "di", "hx"}; return p[in.below (3)]; }
  default: {
    auto const c = in.below (4);
    std::string r = "cat " + n (c);
    for (unsigned i = 0; i < c; ++i) { r += ' ' + step (in, depth - 1); }
    return r;
  }
  }
}
}  // end anonymous namespace
std::string decode (bytes_in& in) {
  auto const v = in.below (4);
  std::string r = "peg " + n (v) + " 0 " + expr (in, 3);
  auto const k = in.below (6) + 1;
  for (unsigned i = 0; i < k; ++i) {
    std::string s;
    for (unsigned c = in.below (9); c > 0; --c) { s += "abcABC1g"[in.below (8)]; }
    r += ' ' + hex (s);
  }
  return r;
}
}  // end namespace vf
