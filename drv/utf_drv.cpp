// Driver for icubaby.hpp: see utf_ops.hpp.
#include "op.hpp"

namespace vf {

void from_8 (tokens const& t, json& j);
void from_16 (tokens const& t, json& j);
void from_32 (tokens const& t, json& j);
void from_bytes (tokens const& t, json& j);

void perform (tokens const& t, json& j) {
  auto const& from = t.at (1);
  j.key ("op").str (t.at (0)).key ("from").num (from == "x" ? 0 : std::atoi (from.c_str ()));
  (from == "8" ? from_8 : from == "16" ? from_16 : from == "32" ? from_32 : from_bytes) (t, j);
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
