// Driver for uri.hpp: splitting, composing, validating, joining, paths.
#include <sstream>

#include "uri_parts.hpp"

namespace vf {

void perform (tokens const& t, json& j) {
  arena a;
  auto const& op = t.at (0);
  j.key ("op").str (op);
  if (op == "split") {  // split =in : both entry points
    auto const in = a.arg (t.at (1));
    std::string const before{in};
    auto const u = uri::split (in);
    auto const r = uri::split_reference (in);
    j.key ("in").bytes (in);
    j.key ("uri");
    put_opt_parts (j, u);
    j.key ("ref");
    put_opt_parts (j, r);
    j.key ("views").b ((!u || views_of (*u, in)) && (!r || views_of (*r, in)));
    j.key ("again").b (uri::split (in) == u && uri::split_reference (in) == r && in == before);
    // What composing the result gives, and whether the result is valid().
    j.key ("composed").raw ("[");
    if (r) { j.bytes (uri::compose (*r)); }
    j.raw ("]").key ("valid").raw ("[");
    if (r) { j.b (r->valid ()); }
    j.raw ("]");
  } else if (op == "compose") {  // compose PARTS
    auto const p = parse_parts (a, t, 1);
    j.key ("p");
    put_parts (j, p);
    auto const text = uri::compose (p);
    j.key ("text").bytes (text);
    text_stream os;
    os << p;
    text_stream os2;
    os2 << "<";
    uri::compose (os2, p) << ">";
    j.key ("shift").bytes (os.str ()).key ("stream").bytes (os2.str ());
    j.key ("valid").b (p.valid ());
    j.key ("pathvalid").b (p.path.valid ());
    j.key ("authvalid").raw ("[");
    if (p.authority) { j.b (p.authority->valid ()); }
    j.raw ("]");
    auto const r = uri::split_reference (text);
    auto const u = uri::split (text);
    j.key ("ref");
    put_opt_parts (j, r);
    j.key ("uri");
    put_opt_parts (j, u);
    j.key ("eqref").b (r.has_value () && *r == p).key ("equri").b (u.has_value () && *u == p);
  } else if (op == "path") {  // path PARTS : conversions of the path
    auto const p = parse_parts (a, t, 1);
    j.key ("p").raw ("{");
    put_path (j, p.path);
    j.raw ("}");
    j.key ("str").bytes (static_cast<std::string> (p.path));
    text_stream os;
    os << p.path;
    j.key ("shift").bytes (os.str ());
    auto const fs = static_cast<std::filesystem::path> (p.path);
    j.key ("fs").bytes (fs.native ());
    j.key ("empty").b (p.path.empty ());
    j.key ("auth").raw ("[");
    if (p.authority) {
      text_stream oa;
      oa << *p.authority;
      j.raw ("{").key ("userinfo").opt (p.authority->userinfo).key ("host").bytes (p.authority->host);
      j.key ("port").opt (p.authority->port).key ("text").bytes (oa.str ()).raw ("}");
    }
    j.raw ("]");
  } else if (op == "rds") {  // rds PARTS : remove_dot_segments
    auto const p = parse_parts (a, t, 1);
    j.key ("p").raw ("{");
    put_path (j, p.path);
    j.raw ("}");
    auto q = p.path;
    q.remove_dot_segments ();
    j.key ("out").raw ("{");
    put_path (j, q);
    j.raw ("}");
    auto q2 = q;
    q2.remove_dot_segments ();
    j.key ("again").raw ("{");
    put_path (j, q2);
    j.raw ("}");
    j.key ("text").bytes (static_cast<std::string> (p.path)).key ("outtext").bytes (static_cast<std::string> (q));
  } else if (op == "joinp") {  // joinp strict PARTS PARTS
    bool const strict = t.at (1) == "1";
    auto const b = parse_parts (a, t, 2);
    auto const r = parse_parts (a, t, 2 + parts_tokens);
    auto const b0 = b;
    auto const r0 = r;
    j.key ("strict").b (strict).key ("base");
    put_parts (j, b);
    j.key ("ref");
    put_parts (j, r);
    j.key ("out");
    auto const out = uri::join (b, r, strict);
    put_parts (j, out);
    j.key ("pure").b (b == b0 && r == r0);
  } else if (op == "joins") {  // joins strict =base =ref
    bool const strict = t.at (1) == "1";
    auto const b = a.arg (t.at (2));
    auto const r = a.arg (t.at (3));
    j.key ("strict").b (strict).key ("base").bytes (b).key ("ref").bytes (r).key ("out");
    auto const out = strict && t.size () > 4 ? uri::join (b, r) : uri::join (b, r, strict);
    put_opt_parts (j, out);
    bool views = true;
    if (out) {
      each_view (*out, [&] (std::string_view s) {
        auto const within = [&] (std::string_view in) {
          return s.data () >= in.data () && s.data () + s.size () <= in.data () + in.size ();
        };
        if (!s.empty () && !within (b) && !within (r)) { views = false; }
      });
    }
    j.key ("views").b (views).key ("text").raw ("[");
    if (out) { j.bytes (uri::compose (*out)); }
    j.raw ("]");
  } else if (op == "eq") {  // eq PARTS PARTS PARTS
    uri::parts const p[3] = {parse_parts (a, t, 1), parse_parts (a, t, 1 + parts_tokens),
                             parse_parts (a, t, 1 + 2 * parts_tokens)};
    j.key ("p").raw ("[");
    for (int i = 0; i < 3; ++i) {
      if (i) { j.raw (","); }
      put_parts (j, p[i]);
    }
    j.raw ("]");
    auto const matrix = [&] (char const* name, auto f) {
      j.key (name).raw ("[");
      for (int x = 0; x < 3; ++x) {
        j.raw (x ? ",[" : "[");
        for (int y = 0; y < 3; ++y) {
          if (y) { j.raw (","); }
          j.b (f (p[x], p[y]));
        }
        j.raw ("]");
      }
      j.raw ("]");
    };
    matrix ("eq", [] (auto const& x, auto const& y) { return x == y; });
    matrix ("ne", [] (auto const& x, auto const& y) { return x != y; });
    matrix ("patheq", [] (auto const& x, auto const& y) { return x.path == y.path; });
    matrix ("pathne", [] (auto const& x, auto const& y) { return x.path != y.path; });
    matrix ("autheq", [] (auto const& x, auto const& y) { return x.authority == y.authority; });
    matrix ("authne", [] (auto const& x, auto const& y) { return x.authority != y.authority; });
    j.key ("texts").raw ("[");
    for (int i = 0; i < 3; ++i) {
      if (i) { j.raw (","); }
      j.bytes (uri::compose (p[i]));
    }
    j.raw ("]");
    // ensure_authority(): gives the authority there is, or makes an empty one.
    auto e = p[0];
    e.ensure_authority ();
    j.key ("ensured");
    put_parts (j, e);
  } else {
    std::abort ();
  }
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
