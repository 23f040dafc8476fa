// Driver for find_last.hpp and starts_with.hpp.
//
//   fl KIND API PROJ run...       run = value:x,x,x
//   sw KIND1 KIND2 API PRED PROJ1 PROJ2 run...   run = x,x:y,y
// Elements are small integers. API: r (a range) or i (iterator and sentinel).
#include <algorithm>
#include <cassert>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <numeric>
#include <ranges>
#include <span>
#include <sstream>

#include "op.hpp"
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"

namespace vf {

using ints = std::vector<int>;

struct wrapped {
  int v;
  int get () const { return v; }
  // The element itself, which no algorithm that is given a projection may look at, equals nothing.
  friend bool operator== (wrapped const&, int) { return false; }
};

inline ints parse_ints (std::string_view s) {
  ints r;
  while (!s.empty ()) {
    auto const e = std::min (s.find (','), s.size ());
    r.push_back (std::stoi (std::string{s.substr (0, e)}));
    s.remove_prefix (std::min (e + 1, s.size ()));
  }
  return r;
}

// A sentinel of a type of its own
template <typename It> struct until {
  It end{};
  friend bool operator== (It const& i, until const& u) { return i == u.end; }
};
// A bidirectional range whose end is a sentinel
template <typename C> struct ended {
  C const* c;
  auto begin () const { return c->begin (); }
  auto end () const { return until<typename C::const_iterator>{c->end ()}; }
};
// single pass
struct single_pass {
  explicit single_pass (ints const& v) {
    for (auto const x : v) { s << x << ' '; }
  }
  std::stringstream s;
};

// Calls f with a range of the kind which holds v (each in an exactly sized block)
template <typename F> void with_range (std::string const& kind, ints const& v, F f) {
  if (kind == "vector") {
    ints c (v.begin (), v.end ());
    f (c);
  } else if (kind == "cvector") {
    ints const c (v.begin (), v.end ());
    f (c);
  } else if (kind == "span") {
    auto p = std::make_unique<int[]> (v.size ());
    std::ranges::copy (v, p.get ());
    std::span<int const> c{p.get (), v.size ()};
    f (c);
  } else if (kind == "deque") {
    std::deque<int> c (v.begin (), v.end ());
    f (c);
  } else if (kind == "list") {
    std::list<int> c (v.begin (), v.end ());
    f (c);
  } else if (kind == "flist") {
    std::forward_list<int> c (v.begin (), v.end ());
    f (c);
  } else if (kind == "counted") {
    std::list<int> l (v.begin (), v.end ());
    auto c = std::views::counted (l.begin (), static_cast<std::ptrdiff_t> (v.size ()));
    f (c);
  } else if (kind == "lended") {
    std::list<int> const l (v.begin (), v.end ());
    ended<std::list<int>> c{&l};
    f (c);
  } else if (kind == "vended") {
    ints const l (v.begin (), v.end ());
    ended<ints> c{&l};
    f (c);
  } else if (kind == "fended") {
    std::forward_list<int> const l (v.begin (), v.end ());
    ended<std::forward_list<int>> c{&l};
    f (c);
  } else if (kind == "while") {  // never stops early
    auto c = std::views::take_while (v, [] (int x) { moment (); return x < 1000; });
    f (c);
  } else if (kind == "drop") {  // a part of a longer range
    ints l{7, 7};
    l.insert (l.end (), v.begin (), v.end ());
    auto c = std::views::drop (l, 2);
    f (c);
  } else if (kind == "reverse") {
    ints l (v.rbegin (), v.rend ());
    auto c = std::views::reverse (l);
    f (c);
  } else {
    std::abort ();
  }
}
template <typename F> void with_input (std::string const& kind, ints const& v, F f) {
  if (kind == "input") {
    single_pass s{v};
    auto c = std::views::istream<int> (s.s);
    f (c);
  } else {
    with_range (kind, v, f);
  }
}

template <typename F> void with_proj (std::string const& p, F f) {
  if (p == "id") {
    f (std::identity{});
  } else if (p == "half") {
    f ([] (int x) { moment (); return x >> 1; });
  } else if (p == "neg") {
    f (std::negate<> {});
  } else if (p == "ptr") {
    f (+[] (int x) { moment (); return x * 3; });
  } else if (p == "const") {
    f ([] (int) { moment (); return 1; });
  } else {
    std::abort ();
  }
}
template <typename F> void with_pred (std::string const& p, F f) {
  if (p == "eq") {
    f (std::ranges::equal_to{});
  } else if (p == "le") {
    f ([] (int a, int b) { moment (); return a <= b; });
  } else if (p == "any") {
    f ([] (int, int) { moment (); return true; });
  } else if (p == "lt") {
    f (std::less<> {});
  } else {
    std::abort ();
  }
}

template <typename R, typename I> long long offset (R& r, I const& i) {
  long long n = 0;
  for (auto p = std::ranges::begin (r);; ++p, ++n) {
    if (p == i) { return n; }
    if (p == std::ranges::end (r)) { return -1; }
  }
}

inline void find_run (json& j, std::string const& kind, std::string const& api, std::string const& proj, int value, ints const& v) {
  auto const put = [&] (auto& c, auto const& sub) {
    j.key ("from").num (offset (c, sub.begin ())).key ("to").num (offset (c, sub.end ()));
  };
  if (proj == "member") {  // elements of a class, by a pointer to a member
    std::vector<wrapped> w;
    for (auto const x : v) { w.push_back ({x}); }
    auto const go = [&] (auto& c) {
      if (value % 2 == 0) {
        put (c, uri::find_last (c, value, &wrapped::v));
      } else {
        put (c, uri::find_last (c.begin (), c.end (), value, &wrapped::get));
      }
    };
    if (kind == "flist") {
      std::forward_list<wrapped> l (w.begin (), w.end ());
      go (l);
    } else {
      go (w);
    }
    return;
  }
  with_range (kind, v, [&] (auto& c) {
    with_proj (proj, [&] (auto p) {
      if (api == "r") {
        if constexpr (std::is_same_v<decltype (p), std::identity>) {
          put (c, uri::find_last (c, value));
        } else {
          put (c, uri::find_last (c, value, p));
        }
      } else {
        put (c, uri::find_last (std::ranges::begin (c), std::ranges::end (c), value, p));
      }
    });
  });
}

template <typename A, typename B, typename Pr, typename P1, typename P2>
bool starts (std::string const& api, A& a, B& b, Pr pr, P1 p1, P2 p2) {
  if (api == "r") { return uri::starts_with (a, b, pr, p1, p2); }
  return uri::starts_with (std::ranges::begin (a), std::ranges::end (a), std::ranges::begin (b), std::ranges::end (b), pr, p1, p2);
}

inline bool prefix_run (std::string const& k1, std::string const& k2, std::string const& api, std::string const& pred,
                        std::string const& p1, std::string const& p2, ints const& x, ints const& y) {
  bool result = false;
  bool const plain = pred == "eq" && p1 == "id" && p2 == "id";
  auto const with_second = [&] (auto& a) {
    auto const go = [&] (auto& b) {
      if (plain) {
        result = api == "r" ? uri::starts_with (a, b)
                            : uri::starts_with (std::ranges::begin (a), std::ranges::end (a), std::ranges::begin (b), std::ranges::end (b));
        return;
      }
      with_pred (pred, [&] (auto pr) {
        if (p1 == "half" && p2 == "id") {
          result = starts (api, a, b, pr, [] (int v) { moment (); return v >> 1; }, std::identity{});
        } else if (p1 == "id" && p2 == "neg") {
          result = starts (api, a, b, pr, std::identity{}, std::negate<> {});
        } else if (p1 == "ptr" && p2 == "half") {
          result = starts (api, a, b, pr, +[] (int v) { moment (); return v * 3; }, [] (int v) { moment (); return v >> 1; });
        } else if (p1 == "id" && p2 == "id") {
          result = starts (api, a, b, pr, std::identity{}, std::identity{});
        } else {
          std::abort ();
        }
      });
    };
    // (not every pair of kinds: each is compiled)
    if (k2 == "input") {
      single_pass s{y};
      auto c = std::views::istream<int> (s.s);
      go (c);
    } else if (k2 == "vector") {
      ints c (y.begin (), y.end ());
      go (c);
    } else if (k2 == "flist") {
      std::forward_list<int> const c (y.begin (), y.end ());
      go (c);
    } else if (k2 == "lended") {
      std::list<int> const l (y.begin (), y.end ());
      ended<std::list<int>> c{&l};
      go (c);
    } else {
      std::abort ();
    }
  };
  if (k1 == "input") {
    single_pass s{x};
    auto c = std::views::istream<int> (s.s);
    with_second (c);
  } else if (k1 == "vector") {
    ints c (x.begin (), x.end ());
    with_second (c);
  } else if (k1 == "list") {
    std::list<int> c (x.begin (), x.end ());
    with_second (c);
  } else if (k1 == "fended") {
    std::forward_list<int> const l (x.begin (), x.end ());
    ended<std::forward_list<int>> c{&l};
    with_second (c);
  } else if (k1 == "unbounded") {  // x, then numbers without end
    ints const l (x.begin (), x.end ());
    auto c = std::views::iota (0) | std::views::transform ([&l] (int k) {
               return static_cast<std::size_t> (k) < l.size () ? l[static_cast<std::size_t> (k)] : 5;
             });
    with_second (c);
  } else {
    std::abort ();
  }
  return result;
}

void perform (tokens const& t, json& j) {
  auto const& op = t.at (0);
  j.key ("op").str (op);
  if (op == "fl") {
    j.key ("kind").str (t.at (1)).key ("proj").str (t.at (3)).key ("runs").raw ("[");
    for (std::size_t k = 4; k < t.size (); ++k) {
      auto const at = t[k].find (':');
      auto const value = std::stoi (t[k].substr (0, at));
      auto const v = parse_ints (std::string_view{t[k]}.substr (at + 1));
      j.raw (k == 4 ? "{" : ",{").key ("v").num (value).key ("s").ints (v);
      find_run (j, t[1], t.at (2), t[3], value, v);
      j.raw ("}");
    }
    j.raw ("]");
  } else if (op == "sw") {
    j.key ("pred").str (t.at (4)).key ("p1").str (t.at (5)).key ("p2").str (t.at (6)).key ("more").b (t.at (1) == "unbounded");
    j.key ("runs").raw ("[");
    for (std::size_t k = 7; k < t.size (); ++k) {
      auto const at = t[k].find (':');
      auto const x = parse_ints (std::string_view{t[k]}.substr (0, at));
      auto const y = parse_ints (std::string_view{t[k]}.substr (at + 1));
      j.raw (k == 7 ? "{" : ",{").key ("s").ints (x).key ("p").ints (y);
      j.key ("is").b (prefix_run (t[1], t[2], t[3], t[4], t[5], t[6], x, y)).raw ("}");
    }
    j.raw ("]");
  } else {
    std::abort ();
  }
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
