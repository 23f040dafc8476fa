// Coverage-guided search for inputs: each driver defines decode(), which turns
// fuzzer bytes into an operation line. The search has no oracle: it looks for
// inputs that reach new code, and the operations it keeps are recorded by the
// ordinary driver and judged by TLC.
#ifndef VF_FUZZ_HPP
#define VF_FUZZ_HPP
#ifdef VF_FUZZ
#include "op.hpp"

namespace vf {

class bytes_in {
public:
  bytes_in (std::uint8_t const* p, std::size_t n) : p_{p}, n_{n} {}
  unsigned byte () {
    if (n_ == 0) { return 0; }
    --n_;
    return *p_++;
  }
  unsigned below (unsigned k) { return byte () % k; }
  bool flag () { return (byte () & 1) != 0; }
  bool done () const { return n_ == 0; }
  // Up to the next 0xFD byte (0xFC escapes).
  std::string field () {
    std::string r;
    while (n_ > 0) {
      auto const c = byte ();
      if (c == 0xFD) { break; }
      r += static_cast<char> (c == 0xFC ? byte () : c);
    }
    return r;
  }
  std::string rest () {
    std::string r{reinterpret_cast<char const*> (p_), n_};
    n_ = 0;
    return r;
  }

private:
  std::uint8_t const* p_;
  std::size_t n_;
};

inline std::string hex (std::string_view s) {
  std::string r = "=";
  char b[4];
  for (char const c : s) {
    std::snprintf (b, sizeof b, "%02x", static_cast<unsigned> (static_cast<unsigned char> (c)));
    r += b;
  }
  return r;
}

// Parts assembled from fields: a byte of flags says which are present.
inline std::string parts_tokens_from (bytes_in& in) {
  auto const f = in.byte ();
  auto const o = [&] (unsigned bit) -> std::string { return (f >> bit) & 1 ? hex (in.field ()) : "-"; };
  std::string r = o (0) + ' ';
  if ((f >> 1) & 1) {
    r += o (2) + ' ';
    r += hex (in.field ()) + ' ';
    r += o (3) + ' ';
  } else {
    r += "- - - ";
  }
  r += (f >> 4) & 1 ? "1 " : "0 ";
  auto const n = in.below (40);
  if (n == 0) { r += "-"; }
  for (unsigned k = 0; k < n; ++k) {
    if (k) { r += ','; }
    r += hex (in.field ());
  }
  r += ' ' + o (5) + ' ';
  r += o (6);
  return r;
}

std::string decode (bytes_in& in);

}  // end namespace vf

extern "C" int LLVMFuzzerTestOneInput (std::uint8_t const* data, std::size_t size) {
  vf::bytes_in in{data, size};
  auto const line = vf::decode (in);
  if (line.empty ()) { return -1; }
  static char const* const print = std::getenv ("VF_PRINT");
  if (print) {
    static FILE* const f = std::fopen (print, "a");
    std::fprintf (f, "%s\n", line.c_str ());
    std::fflush (f);
    return 0;
  }
  vf::json out;
  out.s = "{";
  vf::perform (vf::tokenize (line), out);
  return 0;
}
#endif
#endif
