// Driver for pctencode.hpp and pctdecode.hpp.
#include <algorithm>
#include <forward_list>
#include <ranges>
#include <sstream>

#include "op.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"

namespace vf {

inline uri::pctencode_set set_of (std::string const& s) {
  using enum uri::pctencode_set;
  if (s == "none") { return none; }
  if (s == "fragment") { return fragment; }
  if (s == "query") { return query; }
  if (s == "special") { return special_query; }
  if (s == "path") { return path; }
  if (s == "userinfo") { return userinfo; }
  if (s == "component") { return component; }
  if (s == "form") { return form_urlencoded; }
  std::abort ();
}

// A list of results, each written once however many interfaces gave it.
struct list_out {
  json& j;
  std::vector<std::string> seen;
  explicit list_out (json& o, char const* name) : j{o} { j.key (name).raw ("["); }
  void put (std::string const& s) {
    if (std::find (seen.begin (), seen.end (), s) != seen.end ()) { return; }
    if (!seen.empty ()) { j.raw (","); }
    j.raw (s);
    seen.push_back (s);
  }
  template <typename C> void add (C const& c) {
    json x;
    x.raw ("[");
    bool f = true;
    for (auto const v : c) {
      if (!f) { x.raw (","); }
      f = false;
      if constexpr (sizeof (v) == 1) {
        x.num (static_cast<unsigned char> (v));
      } else {
        x.num (static_cast<long long> (v));
      }
    }
    x.raw ("]");
    put (x.s);
  }
  void flag (bool v) { put (v ? "true" : "false"); }
  ~list_out () { j.raw ("]"); }
};

// Iterators at every position of a range at once: each keeps its own element, whatever the others
// do, and two are equal exactly if they are at the same position.
template <typename It, typename End> void positions (list_out& o, It first, End last, char const* wrong) {
  std::vector<It> all;
  for (; !(first == last); ++first) { all.push_back (first); }
  std::vector<unsigned char const*> at;
  for (auto const& it : all) { at.push_back (reinterpret_cast<unsigned char const*> (&*it)); }
  std::string r;
  for (auto const* const p : at) { r += static_cast<char> (*p); }
  for (std::size_t k = 0; k < all.size (); ++k) {
    if (static_cast<unsigned char> (*all[k]) != static_cast<unsigned char> (r[k])) { r = wrong; }
    for (std::size_t m = k > 6 ? k - 6 : 0; m < std::min (all.size (), k + 6); ++m) {
      if ((all[k] == all[m]) != (k == m) || (all[k] != all[m]) != (k != m)) { r = wrong; }
    }
  }
  o.add (r);
}

// A traversal which looks at some of the elements only, as the bits of the pattern say: what it sees
// depends neither on what it looked at before nor on what it passed over.
template <typename It, typename End> void glances (list_out& o, It const first, End const last, char const* wrong) {
  std::string all;
  for (auto it = first; !(it == last); ++it) { all += static_cast<char> (*it); }
  std::string r = all;
  for (unsigned pattern = 0; pattern < 32; ++pattern) {
    std::size_t k = 0;
    for (auto it = first; !(it == last); ++k) {
      if (k == all.size ()) {
        r = wrong;
        break;
      }
      if ((pattern >> (k % 5) & 1) != 0 && *it != static_cast<std::iter_value_t<It>> (static_cast<unsigned char> (all[k])) &&
          static_cast<char> (*it) != all[k]) {
        r = wrong;
      }
      if (k % 7 == 6) {
        it++;
      } else if (k % 7 == 3) {
        auto copy = it;
        it = ++copy;
      } else {
        ++it;
      }
    }
    if (k != all.size ()) { r = wrong; }
  }
  if (std::ranges::distance (first, last) != static_cast<std::ptrdiff_t> (all.size ())) { r = wrong; }
  for (std::size_t k = 0; k < std::min<std::size_t> (all.size (), 12); ++k) {
    if (static_cast<char> (*std::ranges::next (first, static_cast<std::ptrdiff_t> (k), last)) != all[k]) { r = wrong; }
  }
  o.add (r);
}

// Every decoding interface on one string.
inline void decode_all (list_out& o, std::string_view in) {
  o.add (uri::pctdecode (in));
  std::string const str{in};
  std::vector<char> const vec (in.begin (), in.end ());
  std::deque<char> const deq (in.begin (), in.end ());
  {  // iterators
    std::string r;
    std::copy (uri::pctdecode_begin (in), uri::pctdecode_end (in), into (r));
    o.add (r);
    r.clear ();
    std::copy (uri::pctdecode_begin (deq), uri::pctdecode_end (deq), into (r));
    o.add (r);
    r.clear ();
    auto const end = uri::pctdecode_end (vec);
    for (auto it = uri::pctdecode_begin (vec); !(it == end);) {
      char const seen = *it;
      char const again = *it;   // dereferencing twice
      r += *it.operator-> ();
      if (seen != r.back () || again != seen) { r += "??"; }
      auto const copy = it;
      auto const old = it++;
      if (!(old == copy) || *old != seen || *copy != seen) { r += "!!"; }
    }
    o.add (r);
  }
  {  // ranges without random access; ranges that end with a sentinel
    std::list<char> const lst (in.begin (), in.end ());
    std::forward_list<char> const fwd (in.begin (), in.end ());
    std::string r;
    std::copy (uri::pctdecode_begin (lst), uri::pctdecode_end (lst), into (r));
    o.add (r);
    o.add (uri::pctdecoder{fwd});
    r.clear ();
    std::ranges::copy (lst | uri::views::pctdecode, into (r));
    o.add (r);
    r.clear ();
    std::ranges::copy (fwd | uri::views::pctdecode, into (r));
    o.add (r);
    r.clear ();
    auto const taken = in | std::views::take_while ([] (char) { moment (); return true; });
    for (auto const c : taken | uri::views::pctdecode) { r += c; }
    o.add (r);
    r.clear ();
    // the sentinel hides what follows
    std::string more = str + "41";
    for (auto const c : std::views::counted (more.begin (), static_cast<std::ptrdiff_t> (str.size ())) | uri::views::pctdecode) { r += c; }
    o.add (r);
    std::list<char> const mlst (more.begin (), more.end ());
    r.clear ();
    for (auto const c : std::ranges::subrange{std::counted_iterator{mlst.begin (), static_cast<std::ptrdiff_t> (str.size ())},
                                              std::default_sentinel} |
                          uri::views::pctdecode) {
      r += c;
    }
    o.add (r);
    std::u32string w;
    for (auto const c : in) { w += static_cast<unsigned char> (c); }
    std::vector<unsigned char> u;
    for (auto const c : w | uri::views::pctdecode) { u.push_back (static_cast<unsigned char> (c)); }
    o.add (u);
    std::u8string const w8 (in.begin (), in.end ());
    u.clear ();
    for (auto const c : w8 | uri::views::pctdecode) { u.push_back (c); }
    o.add (u);
    if (in.size () < 400) {
      positions (o, uri::pctdecode_begin (in), uri::pctdecode_end (in), "positions of iterators");
      auto const v = in | uri::views::pctdecode;
      positions (o, v.begin (), v.end (), "positions of a view");
      auto const lv = lst | uri::views::pctdecode;
      positions (o, lv.begin (), lv.end (), "positions of a view of a list");
      auto const tv = taken | uri::views::pctdecode;
      positions (o, tv.begin (), tv.end (), "positions of a view with a sentinel");
      glances (o, uri::pctdecode_begin (in), uri::pctdecode_end (in), "glances of iterators");
      glances (o, v.begin (), v.end (), "glances of a view");
      glances (o, lv.begin (), lv.end (), "glances of a view of a list");
      glances (o, tv.begin (), tv.end (), "glances of a view with a sentinel");
      uri::pctdecoder const d{in};
      glances (o, d.begin (), d.end (), "glances of a decoder");
    }
  }
  {  // the decoder object; traversed twice
    uri::pctdecoder const d{in};
    std::string r;
    for (auto const c : d) { r += c; }
    o.add (r);
    o.add (d);
    o.add (uri::pctdecoder{str});
    o.add (uri::pctdecoder{vec});
    o.add (uri::pctdecoder{in.data (), in.data () + in.size ()});
  }
  {  // the view
    auto const v = in | uri::views::pctdecode;
    std::string r;
    for (auto const c : v) { r += c; }
    o.add (r);
    o.add (v);
    r.clear ();
    std::ranges::copy (str | uri::views::pctdecode, into (r));
    o.add (r);
    r.clear ();
    std::ranges::copy (uri::views::pctdecode (deq), into (r));
    o.add (r);
    r.clear ();
    auto const w = uri::pctdecode_view{in};
    for (auto it = w.begin (); it != w.end ();) {
      char const seen = *it;
      char const moved = std::ranges::iter_move (it);
      r += *it.operator-> ();
      if (seen != r.back () || moved != seen) { r += "??"; }
      auto const copy = it;
      auto const old = it++;
      if (!(old == copy) || *old != seen || *copy != seen) { r += "!!"; }
    }
    o.add (r);
    auto const base = v.base ();
    r.clear ();
    for (auto const c : uri::pctdecode_view{base}) { r += c; }
    o.add (r);
    std::vector<unsigned char> const uvec (in.begin (), in.end ());
    std::vector<unsigned char> u;
    for (auto const c : uvec | uri::views::pctdecode) { u.push_back (c); }
    o.add (u);
    // composed with another view, and copied while in use
    r.clear ();
    auto const v2 = v;
    std::ranges::copy (v2 | std::views::transform ([] (char c) { moment (); return c; }), into (r));
    o.add (r);
  }
}

void perform (tokens const& t, json& j) {
  arena a;
  auto const& op = t.at (0);
  j.key ("op").str (op);
  if (op == "enc") {  // enc set =in
    auto const set = set_of (t.at (1));
    auto const in = a.arg (t.at (2));
    std::string const before{in};
    j.key ("set").str (t.at (1)).key ("in").bytes (in);
    std::string const s = uri::pctencode (in, set);
    {
      list_out o{j, "outs"};
      o.add (s);
      std::string r;
      uri::pctencode (in.begin (), in.end (), into (r), set);
      o.add (r);
      r.clear ();
      std::list<char> const l (in.begin (), in.end ());
      uri::pctencode (l.begin (), l.end (), into (r), set);
      o.add (r);
      std::vector<unsigned char> const u (in.begin (), in.end ());
      std::vector<unsigned char> ru;
      uri::pctencode (u.begin (), u.end (), into (ru), set);
      o.add (ru);
      std::vector<signed char> const sc (in.begin (), in.end ());
      std::vector<signed char> rs;
      uri::pctencode (sc.begin (), sc.end (), into (rs), set);
      o.add (rs);
      // a single-pass input, and an output of exactly the right size
      std::istringstream is{before};
      is >> std::noskipws;
      auto const exact = std::make_unique<char[]> (s.size ());
      auto* const end = uri::pctencode (std::istream_iterator<char>{is}, std::istream_iterator<char>{}, exact.get (), set);
      o.add (std::string_view{exact.get (), static_cast<std::size_t> (end - exact.get ())});
    }
    {
      list_out o{j, "needs"};
      o.flag (uri::needs_pctencode (in, set));
      o.flag (uri::needs_pctencode (in.begin (), in.end (), set));
      std::vector<unsigned char> const u (in.begin (), in.end ());
      o.flag (uri::needs_pctencode (u.begin (), u.end (), set));
      o.flag (s != in);
    }
    j.key ("each").raw ("[");
    for (std::size_t k = 0; k < in.size (); ++k) {
      if (k) { j.raw (","); }
      j.b (uri::needs_pctencode (static_cast<std::uint_least8_t> (in[k]), set));
    }
    j.raw ("]");
    {
      list_out o{j, "back"};
      o.add (uri::pctdecode (s));
      std::string r;
      std::ranges::copy (s | uri::views::pctdecode, into (r));
      o.add (r);
    }
    j.key ("pure").b (in == before && uri::pctencode (in, set) == s);
  } else if (op == "dec") {  // dec =in
    auto const in = a.arg (t.at (1));
    std::string const before{in};
    j.key ("in").bytes (in);
    {
      list_out o{j, "outs"};
      decode_all (o, in);
    }
    {
      list_out o{j, "stops"};
      auto const v = in | uri::views::pctdecode;
      std::vector<long> at;
      for (auto it = v.begin ();; ++it) {
        at.push_back (static_cast<long> (it.base () - in.begin ()));
        if (it == v.end ()) { break; }
      }
      o.add (at);
    }
    {
      list_out o{j, "needs"};
      o.flag (uri::needs_pctdecode (in.begin (), in.end ()));
      std::list<char> const l (in.begin (), in.end ());
      o.flag (uri::needs_pctdecode (l.begin (), l.end ()));
    }
    j.key ("pure").b (in == before);
  } else {
    std::abort ();
  }
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
