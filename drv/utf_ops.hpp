// Operations on icubaby.hpp for one input encoding (utf_f*.cpp instantiate them).
#ifndef VF_UTF_OPS_HPP
#define VF_UTF_OPS_HPP
#include <forward_list>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif

#include "op.hpp"
#include "uri/icubaby.hpp"

namespace vf {

using icubaby::char8;

// A code unit as the specification writes it: the 32 bit ones are signed.
template <typename C> long long unit_out (C c) {
  if constexpr (sizeof (C) == 4) {
    return static_cast<std::int32_t> (c);
  } else {
    return static_cast<long long> (static_cast<std::make_unsigned_t<C>> (c));
  }
}
template <> inline long long unit_out<std::byte> (std::byte c) {
  return std::to_integer<int> (c);
}
template <typename Range> void put_units (json& j, Range const& r) {
  j.raw ("[");
  bool first = true;
  for (auto const c : r) {
    if (!first) { j.raw (","); }
    first = false;
    j.num (unit_out (c));
  }
  j.raw ("]");
}
template <typename C> C unit_in (std::string_view hex) {
  std::uint32_t v = 0;
  for (char const c : hex) { v = v * 16 + static_cast<unsigned> (hexval (c)); }
  return static_cast<C> (v);
}
template <typename F> void split_commas (std::string_view s, F f) {
  std::size_t p = 0;
  while (p < s.size ()) {
    auto const e = std::min (s.find (',', p), s.size ());
    f (s.substr (p, e - p));
    p = e + 1;
  }
}

template <typename From, typename To> auto make_transcoder (bool wf0) {
  using type = icubaby::transcoder<From, To>;
  if constexpr (std::is_constructible_v<type, bool> && !std::is_same_v<From, To> &&
                (std::is_same_v<From, char32_t> || std::is_same_v<To, char32_t>) && !std::is_same_v<From, std::byte>) {
    return wf0 ? type{} : type{false};
  } else {
    (void)wf0;
    return type{};
  }
}
template <typename From, typename To>
constexpr bool has_wf0 = !std::is_same_v<From, To> && !std::is_same_v<From, std::byte> &&
                         (std::is_same_v<From, char32_t> || std::is_same_v<To, char32_t>);

constexpr char const* encoding_name (icubaby::encoding e) {
  switch (e) {
  case icubaby::encoding::unknown: return "unknown";
  case icubaby::encoding::utf8: return "utf8";
  case icubaby::encoding::utf16be: return "utf16be";
  case icubaby::encoding::utf16le: return "utf16le";
  case icubaby::encoding::utf32be: return "utf32be";
  case icubaby::encoding::utf32le: return "utf32le";
  }
  return "other";
}

// The push interface, action by action. Actions: a unit (hex) is pushed; E ends
// the code point; N begins with a new transcoder; C goes on with a copy while
// the original is fed something else; A goes on with an assigned copy.
template <typename From, typename To> void push_trace (json& j, bool wf0, std::string const& actions) {
  using type = icubaby::transcoder<From, To>;
  auto tcdr = std::make_unique<type> (make_transcoder<From, To> (wf0));
  j.key ("wf0").b (wf0 || !has_wf0<From, To>);
  json outs, flags, encs;
  bool first = true;
  split_commas (actions, [&] (std::string_view a) {
    auto const comma = [&] (json& x) {
      if (!first) { x.raw (","); }
    };
    comma (outs);
    comma (flags);
    comma (encs);
    first = false;
    std::basic_string<To> out;
    if (a == "E") {
      tcdr->end_cp (quietly_into (out));
    } else if (a == "N") {
      tcdr = std::make_unique<type> (make_transcoder<From, To> (wf0));
    } else if (a == "C" || a == "A") {
      std::unique_ptr<type> copy;
      if (a == "C") {
        copy = std::make_unique<type> (*tcdr);
      } else {
        copy = std::make_unique<type> (make_transcoder<From, To> (!wf0));
        std::basic_string<To> junk;
        (*copy) (static_cast<From> (0x41), quietly_into (junk));
        *copy = *tcdr;
      }
      std::basic_string<To> junk;
      for (auto const c : {0xE1, 0x41, 0x80}) { (*tcdr) (static_cast<From> (c), quietly_into (junk)); }
      tcdr = std::move (copy);
    } else {
      auto const u = unit_in<From> (a);
      // alternate between two kinds of output iterator
      if ((a.back () & 1) != 0) {
        (*tcdr) (u, quietly_into (out));
      } else {
        std::array<To, 40> buf{};
        auto* const e = (*tcdr) (u, buf.data ());
        out.assign (buf.data (), static_cast<std::size_t> (e - buf.data ()));
      }
    }
    put_units (outs, out);
    type const& c = *tcdr;
    flags.num ((c.well_formed () ? 1 : 0) + (c.partial () ? 2 : 0));
    if constexpr (std::is_same_v<From, std::byte>) { encs.str (encoding_name (c.selected_encoding ())); }
  });
  // TLA+ sequences hold values of one kind: actions are <<kind, unit>>.
  j.key ("acts").raw ("[");
  {
    bool f = true;
    split_commas (actions, [&] (std::string_view a) {
      if (!f) { j.raw (","); }
      f = false;
      if (a == "E" || a == "N" || a == "C" || a == "A") {
        j.raw ("[").num (a == "E" ? 1 : a == "N" ? 2 : 3).raw (",0]");
      } else {
        j.raw ("[0,").num (unit_out (unit_in<From> (a))).raw ("]");
      }
    });
  }
  j.raw ("]");
  j.key ("outs").raw ("[").raw (outs.s).raw ("]");
  j.key ("flags").raw ("[").raw (flags.s).raw ("]");
  if constexpr (std::is_same_v<From, std::byte>) { j.key ("encs").raw ("[").raw (encs.s).raw ("]"); }
}

// Collects the results of several ways to compute one thing; only the different
// ones are written.
class results {
public:
  template <typename Out> void add (char const* way, Out const& out, bool wf, bool sane = true) {
    json x;
    x.raw ("{").key ("out");
    put_units (x, out);
    x.key ("wf").b (wf).key ("sane").b (sane);
    for (auto const& [_, s] : all_) {
      if (s == x.s) { return; }
    }
    all_.emplace_back (way, x.s);
  }
  void put (json& j) const {
    j.raw ("[");
    bool first = true;
    for (auto const& [way, s] : all_) {
      if (!first) { j.raw (","); }
      first = false;
      j.raw (s).key ("way").str (way).raw ("}");
    }
    j.raw ("]");
  }

private:
  std::vector<std::pair<char const*, std::string>> all_;
};

// (icubaby.hpp can be used in C++17, where it has no views.)
#if __cplusplus >= 202002L
template <typename From, typename To, typename Range> void view_ways (results& r, char const* name, Range const& in) {
  using string = std::basic_string<To>;
  auto v = in | icubaby::views::transcode<From, To>;
  auto const limit = std::size_t (std::ranges::distance (in)) * 8 + 64;  // a view that has no end is a crash
  auto const collect = [&] (auto const& view) {
    string out;
    for (auto const c : view) {
      out += c;
      if (out.size () > limit) { std::abort (); }
    }
    return out;
  };
  string const once = collect (v);
  bool const wf1 = v.well_formed ();
  r.add (name, once, wf1);
  string const twice = collect (v);
  r.add (name, twice, v.well_formed ());
  // A copy of the view; iterators are copied and advanced one after the other.
  auto const w = v;
  string out;
  bool sane = true;
  auto it = w.begin ();
  auto const end = w.end ();
  sane = sane && (it == w.begin ()) == true;
  auto lag = it;
  std::size_t n = 0;
  while (it != end) {
    auto const old = it++;
    sane = sane && *old == *lag && old == lag;
    out += *old;
    auto copy = it;
    if (n % 3 == 0 && copy != end) {
      ++copy;  // moving a copy leaves the original where it is
      if (copy != end) { (void)*copy; }
    }
    ++lag;
    sane = sane && (lag == it);
    if (++n > limit) { std::abort (); }
  }
  r.add (name, out, w.well_formed (), sane && v.begin () == v.begin ());
  r.add (name, once, wf1, (v.begin () == v.end ()) == once.empty () && v.empty () == once.empty ());
  // Iterators at every position at once: each keeps its own code unit, whatever the others do, and two are
  // equal exactly if they are at the same position.
  if (once.size () < 300) {
    auto const z = v;
    std::vector<decltype (z.begin ())> all;
    for (auto p = z.begin (); p != z.end (); ++p) {
      all.push_back (p);
      if (all.size () > limit) { std::abort (); }
    }
    string held;
    for (auto const& p : all) { held += *p; }
    bool apart = true;
    for (std::size_t k = 0; k < all.size (); ++k) {
      for (std::size_t m = k > 8 ? k - 8 : 0; m < std::min (all.size (), k + 8); ++m) {
        apart = apart && (all[k] == all[m]) == (k == m) && (all[k] != all[m]) == (k != m);
      }
      apart = apart && !(all[k] == z.end ());
    }
    r.add (name, held, z.well_formed (), apart);
  }
}

// By way of another encoding: a view of a view. What the first has put out is
// always well formed.
template <typename From, typename Via, typename To, typename Range> void chained_way (results& r, char const* name, Range const& in) {
  auto v = in | icubaby::views::transcode<From, Via> | icubaby::views::transcode<Via, To>;
  auto const limit = std::size_t (std::ranges::distance (in)) * 8 + 64;
  std::basic_string<To> out;
  for (auto const c : v) {
    out += c;
    if (out.size () > limit) { std::abort (); }
  }
  auto const between = v.base ();
  std::basic_string<Via> mid;
  for (auto const c : between) { mid += c; }
  std::basic_string<To> again;
  for (auto const c : mid | icubaby::views::transcode<Via, To>) { again += c; }
  r.add (name, out, between.well_formed (), v.well_formed () && again == out);
}

#endif  // C++20

template <typename From, typename To> void view_trace (json& j, std::string const& units) {
  using string = std::basic_string<To>;
  std::vector<From> in;
  split_commas (std::string_view{units}.substr (1), [&] (std::string_view a) { in.push_back (unit_in<From> (a)); });
  auto const block = std::make_unique<From[]> (in.size ());
  std::copy (in.begin (), in.end (), block.get ());
  j.key ("in");
  put_units (j, in);
  results r;
#if __cplusplus >= 202002L
  std::span<From const> const s{block.get (), in.size ()};
  view_ways<From, To> (r, "span", s);
  view_ways<From, To> (r, "vector", in);
  std::list<From> const l (in.begin (), in.end ());
  view_ways<From, To> (r, "list", l);
  std::forward_list<From> const fl (in.begin (), in.end ());
  view_ways<From, To> (r, "forward_list", fl);
  view_ways<From, To> (r, "sentinel", s | std::views::take_while ([] (From) { moment (false); return true; }));
  view_ways<From, To> (r, "transform", s | std::views::transform ([] (From c) { moment (false); return c; }));
  std::vector<From> const backwards (in.rbegin (), in.rend ());
  view_ways<From, To> (r, "reverse", backwards | std::views::reverse);
  {
    icubaby::ranges::transcode_view<From, To, std::span<From const>> v{s};
    std::span<From const> const b = v.base ();
    string const out (std::ranges::begin (v), std::ranges::end (v));
    chained_way<From, icubaby::char8, To> (r, "by way of UTF-8", s);
    chained_way<From, char16_t, To> (r, "by way of UTF-16", s);
    chained_way<From, char32_t, To> (r, "by way of UTF-32", in);
    r.add ("base", out, v.well_formed (),
           b.data () == s.data () && b.size () == s.size () && std::move (v).base ().data () == s.data ());
  }
#endif  // C++20
  // the push interface and the iterator adaptor
  {
    icubaby::transcoder<From, To> t;
    string out;
    for (auto const c : in) { t (c, quietly_into (out)); }
    t.end_cp (quietly_into (out));
    r.add ("push", out, t.well_formed (), !t.partial ());
  }
  {
    icubaby::transcoder<From, To> t;
    string out;
    icubaby::iterator it{&t, quietly_into (out)};
    auto const e = t.end_cp (std::copy (in.begin (), in.end (), it));
    r.add ("iterator", out, t.well_formed (), e.transcoder () == &t && !t.partial ());
  }
  {
    // over a pointer, whose position must follow; a chunk at a time
    icubaby::transcoder<From, To> t;
    string buf (in.size () * 8 + 16, To{});
    icubaby::iterator<icubaby::transcoder<From, To>, To*> it{&t, buf.data ()};
    auto const half = in.begin () + static_cast<std::ptrdiff_t> (in.size () / 2);
    it = std::copy (in.begin (), half, it);
    for (auto p = half; p != in.end (); ++p) {
      *it = *p;
      if ((p - half) % 2 == 0) {
        ++it;
      } else {
        it++;
      }
    }
    auto const e = t.end_cp (it);
    r.add ("pointer", std::basic_string_view<To> (buf.data (), static_cast<std::size_t> (e.base () - buf.data ())),
           t.well_formed (), it.transcoder () == &t);
  }
  j.key ("ways");
  r.put (j);
  j.key ("pure").b (std::equal (in.begin (), in.end (), block.get ()));
}

// (few: index() is asked for few positions only)
template <typename C> void length_trace (json& j, std::string const& units, bool few) {
  std::vector<C> in;
  split_commas (std::string_view{units}.substr (1), [&] (std::string_view a) { in.push_back (unit_in<C> (a)); });
  auto const block = std::make_unique<C[]> (in.size ());
  std::copy (in.begin (), in.end (), block.get ());
  std::list<C> const l (in.begin (), in.end ());
#if __cplusplus >= 202002L
  std::span<C const> const s{block.get (), in.size ()};
  struct boxed {
    int before;
    C c;
  };
  std::vector<boxed> boxes;
  for (auto const c : in) { boxes.push_back ({0x41, c}); }
  auto const sentinel = s | std::views::take_while ([] (C) { moment (false); return true; });
#endif
  j.key ("in");
  put_units (j, in);
#if __cplusplus >= 202002L
  std::vector<long long> lens{
      icubaby::length (s), icubaby::length (s.begin (), s.end ()), icubaby::length (l), icubaby::length (l.begin (), l.end ()),
      icubaby::length (sentinel),
      // the projection maps code units to code units
      icubaby::length (s, [] (C c) { moment (false); return c; }), icubaby::length (s.begin (), s.end (), [] (C c) { moment (false); return c; })};
#else
  C const* const first = block.get ();
  C const* const last = first + in.size ();
  std::vector<long long> lens{icubaby::length (first, last), icubaby::length (l.begin (), l.end ())};
  j.key ("proj").raw ("[]");
#endif
  j.key ("lens").ints (lens);
#if __cplusplus >= 202002L
  // every unit to a unit which is (or is not) a start
  j.key ("proj").ints (std::vector<long long>{icubaby::length (s, [] (C) { moment (false); return static_cast<C> (0x41); }),
                                              icubaby::length (s.begin (), s.end (), [] (C) { moment (false); return static_cast<C> (0x41); })});
#endif
  std::vector<long long> ns;
  if (few) {
    auto const size = static_cast<long long> (in.size ());
    ns = {0, size / 4, size / 2, std::max (size, 1LL) - 1, size, size + 1};
  } else {
    for (std::size_t n = 0; n <= in.size () + 1; ++n) { ns.push_back (static_cast<long long> (n)); }
  }
  j.key ("ns").ints (ns).key ("idx").raw ("[");
  bool sep = false;
  for (auto const at_n : ns) {
    auto const n = static_cast<std::size_t> (at_n);
#if __cplusplus >= 202002L
    std::vector<long long> at{
        icubaby::index (s, n) - s.begin (), icubaby::index (s.begin (), s.end (), n) - s.begin (),
        std::distance (l.begin (), icubaby::index (l, n)), std::distance (l.begin (), icubaby::index (l.begin (), l.end (), n)),
        icubaby::index (boxes, n, &boxed::c) - boxes.begin (),
        icubaby::index (boxes.begin (), boxes.end (), n, &boxed::c) - boxes.begin ()};
#else
    std::vector<long long> at{icubaby::index (first, last, n) - first,
                              std::distance (l.begin (), icubaby::index (l.begin (), l.end (), n))};
#endif
    std::sort (at.begin (), at.end ());
    at.erase (std::unique (at.begin (), at.end ()), at.end ());
    if (sep) { j.raw (","); }
    sep = true;
    j.ints (at);
  }
  j.raw ("]");
  j.key ("starts").raw ("[");
  for (std::size_t k = 0; k < in.size (); ++k) { j.raw (k ? "," : "").b (icubaby::is_code_point_start (in[k])); }
  j.raw ("]").key ("sur").raw ("[");
  for (std::size_t k = 0; k < in.size (); ++k) {
    auto const c = static_cast<char32_t> (in[k]);
    j.raw (k ? "," : "").num ((icubaby::is_high_surrogate (c) ? 1 : 0) + (icubaby::is_low_surrogate (c) ? 2 : 0) +
                              (icubaby::is_surrogate (c) ? 4 : 0));
  }
  j.raw ("]");
}

// push FROM TO WF0 ACTIONS; view FROM TO =UNITS; len FORM =UNITS
template <typename From, typename To> void form_op (tokens const& t, json& j) {
  if (t[0] == "push") {
    push_trace<From, To> (j, t.at (3) != "0", t.at (4));
  } else {
    view_trace<From, To> (j, t.at (3));
  }
}
template <typename From> void from_op (tokens const& t, json& j) {
  if constexpr (!std::is_same_v<From, std::byte>) {
    if (t[0] == "len") { return length_trace<From> (j, t.at (2), t.size () > 3); }
  }
  auto const& to = t.at (2);
  j.key ("to").num (std::atoi (to.c_str ()));
  if (to == "8") {
    form_op<From, char8> (t, j);
  } else if (to == "16") {
    form_op<From, char16_t> (t, j);
  } else {
    form_op<From, char32_t> (t, j);
  }
}

void from_8 (tokens const& t, json& j);
void from_16 (tokens const& t, json& j);
void from_32 (tokens const& t, json& j);
void from_bytes (tokens const& t, json& j);

}  // end namespace vf
#endif
