// parts <-> tokens and JSON.
#ifndef VF_URI_PARTS_HPP
#define VF_URI_PARTS_HPP
#include "op.hpp"
#include "uri/uri.hpp"

namespace vf {

constexpr std::size_t parts_tokens = 8;

// Eight tokens: scheme userinfo host port absolute segments query fragment. A
// host of "-" means that there is no authority; segments are comma separated.
inline uri::parts parse_parts (arena& a, tokens const& t, std::size_t i) {
  uri::parts p;
  p.scheme = a.opt (t.at (i));
  if (t.at (i + 2) != "-") {
    auto& auth = p.ensure_authority ();
    auth.userinfo = a.opt (t.at (i + 1));
    auth.host = a.arg (t.at (i + 2));
    auth.port = a.opt (t.at (i + 3));
  }
  p.path.absolute = t.at (i + 4) == "1";
  if (auto const& segs = t.at (i + 5); segs != "-") {
    std::size_t pos = 0;
    for (;;) {
      auto const e = std::min (segs.find (',', pos), segs.size ());
      p.path.segments.push_back (a.arg (segs.substr (pos, e - pos)));
      if (e == segs.size ()) { break; }
      pos = e + 1;
    }
  }
  p.query = a.opt (t.at (i + 6));
  p.fragment = a.opt (t.at (i + 7));
  return p;
}

inline void put_path (json& j, struct uri::parts::path const& p) {
  j.key ("abs").b (p.absolute).key ("segs").raw ("[");
  bool first = true;
  for (auto const& s : p.segments) {
    if (!first) { j.raw (","); }
    first = false;
    j.bytes (s);
  }
  j.raw ("]");
}

inline void put_parts (json& j, uri::parts const& p) {
  j.raw ("{").key ("scheme").opt (p.scheme).key ("auth").raw ("[");
  if (p.authority) {
    j.raw ("{").key ("userinfo").opt (p.authority->userinfo).key ("host").bytes (p.authority->host);
    j.key ("port").opt (p.authority->port).raw ("}");
  }
  j.raw ("]");
  put_path (j, p.path);
  j.key ("query").opt (p.query).key ("fragment").opt (p.fragment).raw ("}");
}

inline void put_opt_parts (json& j, std::optional<uri::parts> const& p) {
  j.raw ("[");
  if (p) { put_parts (j, *p); }
  j.raw ("]");
}

template <typename Function> void each_view (uri::parts const& p, Function f) {
  if (p.scheme) { f (*p.scheme); }
  if (p.authority) {
    if (p.authority->userinfo) { f (*p.authority->userinfo); }
    f (p.authority->host);
    if (p.authority->port) { f (*p.authority->port); }
  }
  for (auto const& s : p.path.segments) { f (s); }
  if (p.query) { f (*p.query); }
  if (p.fragment) { f (*p.fragment); }
}

// Is every non-empty component a view of [first, last)?
inline bool views_of (uri::parts const& p, std::string_view in) {
  bool ok = true;
  each_view (p, [&] (std::string_view s) {
    if (!s.empty () && !(s.data () >= in.data () && s.data () + s.size () <= in.data () + in.size ())) { ok = false; }
  });
  return ok;
}

}  // end namespace vf
#endif
