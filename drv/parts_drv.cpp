// Driver for parts.hpp: histories of encode() and decode() on several stores.
//
//   sess KINDS REGS step...
// KINDS: one letter per store: s std::string, v std::vector<char>.
//   L dst PARTS      load a value
//   E store src dst  encode register src into dst
//   D store src dst  decode
//   J store n        fill the store with n characters
#include "uri/parts.hpp"
#include "uri_parts.hpp"

namespace vf {

struct any_store {
  virtual ~any_store () = default;
  virtual uri::parts encode (uri::parts const& p) = 0;
  virtual std::variant<std::error_code, uri::parts> decode (uri::parts const& p) = 0;
  virtual std::string_view text () const = 0;
  virtual void fill (std::size_t n) = 0;
};
template <typename Store> struct store_of final : any_store {
  Store s;
  uri::parts encode (uri::parts const& p) override { return uri::encode (s, p); }
  std::variant<std::error_code, uri::parts> decode (uri::parts const& p) override { return uri::decode (s, p); }
  std::string_view text () const override { return {s.data (), s.size ()}; }
  void fill (std::size_t n) override { s = Store (n, 'J'); }
};

inline bool within (std::string_view v, std::string_view in) {
  return v.data () != nullptr && v.data () >= in.data () && v.data () + v.size () <= in.data () + in.size ();
}

// For each component of out: where it is.
inline void put_views (json& j, uri::parts const& out, uri::parts const& arg, std::string_view store) {
  std::vector<std::string_view> av;
  each_view (arg, [&] (std::string_view s) { av.push_back (s); });
  j.raw ("[");
  bool first = true;
  each_view (out, [&] (std::string_view v) {
    int kind = 3;
    std::size_t off = 0;
    if (v.empty ()) {
      kind = 0;
    } else if (within (v, store)) {
      kind = 2;
      off = static_cast<std::size_t> (v.data () - store.data ());
    } else {
      for (auto const a : av) {
        if (within (v, a)) { kind = 1; }
      }
    }
    j.raw (first ? "[" : ",[").num (kind).raw (",").num (static_cast<long long> (off)).raw (",");
    j.num (static_cast<long long> (v.size ())).raw ("]");
    first = false;
  });
  j.raw ("]");
}

inline char const* error_name (std::error_code const& e) {
  using uri::punycode::decode_error_code;
  return e == make_error_code (decode_error_code::bad_input)  ? "bad_input"
         : e == make_error_code (decode_error_code::overflow) ? "overflow"
                                                              : "other";
}

void perform (tokens const& t, json& j) {
  arena a;
  auto const& op = t.at (0);
  j.key ("op").str (op);
  if (op != "sess") { std::abort (); }
  std::vector<std::unique_ptr<any_store>> stores;
  for (char const k : t.at (1)) {
    if (k == 's') {
      stores.push_back (std::make_unique<store_of<std::string>> ());
    } else {
      stores.push_back (std::make_unique<store_of<std::vector<char, allocator<char>>>> ());
    }
  }
  auto const nregs = std::stoul (t.at (2));
  std::vector<std::optional<uri::parts>> regs (nregs);
  std::vector<unsigned> deps (nregs, 0U);
  std::vector<std::string> made (nregs);  // how each value read when it was made
  auto const use = [&] (std::size_t s) {  // values which may view store s are not looked at again
    for (std::size_t r = 0; r < nregs; ++r) {
      if ((deps[r] >> s) & 1U) {
        regs[r].reset ();
        deps[r] = 0U;
      }
    }
  };
  auto const argtext = [] (uri::parts const& p) {
    json k;
    put_parts (k, p);
    return k.s;
  };
  j.key ("regs").num (static_cast<long long> (nregs)).key ("steps").raw ("[");
  bool first = true;
  std::size_t i = 3;
  while (i < t.size ()) {
    auto const& act = t.at (i);
    if ((act == "E" || act == "D") && !regs.at (std::stoul (t.at (i + 2)))) {
      break;  // a decode which failed left no value: the history ends here
    }
    j.raw (first ? "{" : ",{").key ("a").str (act);
    first = false;
    if (act == "L") {
      auto const dst = std::stoul (t.at (i + 1));
      regs.at (dst) = parse_parts (a, t, i + 2);
      deps.at (dst) = 0U;
      i += 2 + parts_tokens;
      made.at (dst) = argtext (*regs[dst]);
      j.key ("dst").num (static_cast<long long> (dst)).key ("p");
      put_parts (j, *regs[dst]);
    } else if (act == "J") {
      auto const s = std::stoul (t.at (i + 1));
      use (s);
      stores.at (s)->fill (std::stoul (t.at (i + 2)));
      i += 3;
      j.key ("s").num (static_cast<long long> (s));
    } else {
      auto const s = std::stoul (t.at (i + 1));
      auto const src = std::stoul (t.at (i + 2));
      auto const dst = std::stoul (t.at (i + 3));
      i += 4;
      auto const arg = regs.at (src);
      auto const argdeps = deps.at (src);
      if ((argdeps >> s) & 1U) { std::abort (); }  // not a history
      use (s);
      auto const before = argtext (*arg);
      j.key ("s").num (static_cast<long long> (s)).key ("src").num (static_cast<long long> (src)).key ("dst");
      j.num (static_cast<long long> (dst)).key ("st");
      std::optional<uri::parts> out;
      if (act == "E") {
        out = stores.at (s)->encode (*arg);
        j.str ("ok");
      } else {
        auto r = stores.at (s)->decode (*arg);
        if (auto const* const e = std::get_if<0> (&r)) {
          j.str (error_name (*e));
        } else {
          out = std::get<1> (r);
          j.str ("ok");
        }
      }
      regs.at (dst) = out;
      deps.at (dst) = out ? (argdeps | 1U << s) : 0U;
      made.at (dst) = out ? argtext (*out) : std::string{};
      j.key ("out");
      put_opt_parts (j, out);
      j.key ("views");
      auto const text = stores.at (s)->text ();
      if (out) {
        put_views (j, *out, *arg, text);
      } else {
        j.raw ("[]");
      }
      j.key ("size").num (static_cast<long long> (text.size ())).key ("pure").b (argtext (*arg) == before);
    }
    j.key ("live").raw ("[");
    for (std::size_t r = 0; r < nregs; ++r) {
      if (r != 0) { j.raw (","); }
      j.num (!regs[r] ? 0 : argtext (*regs[r]) == made[r] ? 1 : 2);
    }
    j.raw ("]}");
  }
  j.raw ("]");
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
