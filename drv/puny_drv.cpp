// Driver for punycode.hpp.
#include "op.hpp"
#include "uri/punycode.hpp"

namespace vf {

// A number as the specification writes it: little-endian digits to base 2^15.
inline void put_big (json& j, std::uint64_t v) {
  j.raw ("[");
  bool first = true;
  while (v != 0) {
    if (!first) { j.raw (","); }
    first = false;
    j.num (static_cast<long long> (v & 0x7FFF));
    v >>= 15;
  }
  j.raw ("]");
}
inline void put_cps (json& j, std::u32string_view s) {
  j.raw ("[");
  bool first = true;
  for (auto const c : s) {
    if (!first) { j.raw (","); }
    first = false;
    put_big (j, c);
  }
  j.raw ("]");
}
// "@61,1f600": code points in hex.
inline std::u32string cps_of (std::string const& tok) {
  std::u32string r;
  std::size_t p = 1;
  while (p < tok.size ()) {
    auto const e = std::min (tok.find (',', p), tok.size ());
    r += static_cast<char32_t> (std::stoul (tok.substr (p, e - p), nullptr, 16));
    p = e + 1;
  }
  return r;
}

template <typename Result, typename Iterator> void put_result (json& j, Result const& r, Iterator end) {
  j.raw ("{");
  if (auto const* const e = std::get_if<0> (&r)) {
    j.key ("st").str (*e == make_error_code (uri::punycode::decode_error_code::bad_input)  ? "bad_input"
                      : *e == make_error_code (uri::punycode::decode_error_code::overflow) ? "overflow"
                                                                                           : "other");
    j.key ("out").raw ("[]").key ("atend").b (static_cast<bool> (*e));
  } else {
    auto const& s = std::get<1> (r);
    j.key ("st").str ("ok").key ("out");
    put_cps (j, s.str);
    j.key ("atend").b (s.in == end);
  }
  j.raw ("}");
}

inline void decode_all (json& j, char const* name, std::string_view in) {
  j.key (name).raw ("[");
  put_result (j, uri::punycode::decode (in), in.end ());
  std::list<char> const l (in.begin (), in.end ());
  j.raw (",");
  put_result (j, uri::punycode::decode (l), l.end ());
  j.raw (",");
  put_result (j, uri::punycode::decode (in.data (), in.data () + in.size ()), in.data () + in.size ());
  // with a sentinel that is no iterator
  std::string text{in};
  text += '.';
  auto const v = std::ranges::subrange{text.begin (), text.end () - 1} |
                 std::views::take_while ([] (char) { moment (); return true; });
  j.raw (",");
  put_result (j, uri::punycode::decode (v), text.end () - 1);
  j.raw (",");
  put_result (j, uri::punycode::decode (in), in.end ());
  j.raw ("]");
}

void perform (tokens const& t, json& j) {
  arena a;
  auto const& op = t.at (0);
  j.key ("op").str (op);
  if (op == "penc") {  // penc @cps
    auto const x = cps_of (t.at (1));
    auto const before = x;
    j.key ("in");
    put_cps (j, x);
    std::string enc;
    j.key ("outs").raw ("[");
    bool first = true;
    for (bool const plain : {false, true}) {
      std::string out;
      auto const r = uri::punycode::encode (x, plain, into (out));
      std::list<char32_t> const l (x.begin (), x.end ());
      std::string out2;
      auto const r2 = uri::punycode::encode (l, plain, into (out2));
      auto const exact = std::make_unique<char[]> (out.size ());
      auto const v = std::ranges::subrange{x.begin (), x.end ()} |
                     std::views::take_while ([] (char32_t) { moment (); return true; });
      auto const r3 = uri::punycode::encode (v, plain, exact.get ());
      auto const put = [&] (std::string_view o, bool any, bool atend) {
        if (!first) { j.raw (","); }
        first = false;
        j.raw ("{").key ("plain").b (plain).key ("out").bytes (o).key ("any").b (any).key ("atend").b (atend).raw ("}");
      };
      put (out, std::get<2> (r), std::get<0> (r) == x.end ());
      put (out2, std::get<2> (r2), std::get<0> (r2) == l.end ());
      put ({exact.get (), static_cast<std::size_t> (std::get<1> (r3) - exact.get ())}, std::get<2> (r3),
           std::get<0> (r3) == x.end ());
      if (!plain) { enc = out; }
    }
    j.raw ("]");
    decode_all (j, "back", a.add (enc));
    j.key ("pure").b (x == before);
  } else if (op == "pdec") {  // pdec =bytes
    auto const in = a.arg (t.at (1));
    std::string const before{in};
    j.key ("in").bytes (in);
    decode_all (j, "res", in);
    j.key ("pure").b (in == before);
  } else {
    std::abort ();
  }
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
