// Conformance of split()/split_reference() with the automaton that TLC computed
// from the specification's grammar (GenAbnf.tla).
//
//   dfa <nfa file> cover <shard> <shards> <extra>   every transition of the minimal
//        automaton: access string . byte . (words of length <= extra) .
//        distinguishing suffix, for each of the 256 bytes
//   dfa <nfa file> walk <shard> <shards> <count> <seed>  random walks and mutations
//
// Prints each string (in hex) on which the implementation and the automaton
// disagree: whether it is a URI / URI-reference, or into what it decomposes.
// TLC then judges the recorded behaviour on those strings.
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

#include "uri/uri.hpp"

namespace {

enum role_t { scheme, schemecolon, authslash, userinfo, at, host, portcolon, port, slash, seg, qmark, query, hash, fragment, n_roles };
char const* const role_names[n_roles] = {"scheme", "schemecolon", "authslash", "userinfo", "at", "host", "portcolon",
                                         "port", "slash", "seg", "qmark", "query", "hash", "fragment"};

struct nfa {
  int n = 0;
  std::vector<std::vector<int>> follow;          // 0..n
  std::vector<std::vector<std::uint64_t>> fbits;  // the same as bits
  std::vector<std::array<bool, 256>> cls;        // 1..n
  std::vector<int> role;
  std::vector<bool> accept;

  void load (std::istream& is) {
    is >> n;
    follow.resize (n + 1);
    cls.resize (n + 1);
    role.resize (n + 1);
    accept.assign (n + 1, false);
    for (int p = 0; p <= n; ++p) {
      int k;
      is >> k;
      follow[p].resize (k);
      for (auto& q : follow[p]) { is >> q; }
    }
    for (int p = 1; p <= n; ++p) {
      int k;
      is >> k;
      cls[p].fill (false);
      while (k-- > 0) {
        int c;
        is >> c;
        cls[p][c] = true;
      }
      std::string r;
      is >> r;
      role[p] = static_cast<int> (std::find (role_names, role_names + n_roles, r) - role_names);
      if (role[p] == n_roles) { std::fprintf (stderr, "role %s\n", r.c_str ()); std::exit (3); }
    }
    int k;
    is >> k;
    while (k-- > 0) {
      int p;
      is >> p;
      accept[p] = true;
    }
    auto const words = (n + 64) / 64;
    fbits.assign (n + 1, std::vector<std::uint64_t> (words));
    for (int p = 0; p <= n; ++p) {
      for (int q : follow[p]) { fbits[p][q / 64] |= std::uint64_t{1} << (q % 64); }
    }
  }
};

struct dfa {
  nfa const& a;
  std::vector<std::vector<int>> sets;          // positions of each state
  std::vector<std::array<int, 256>> next;      // state 0 is the dead state
  std::vector<bool> accept;
  std::vector<int> cls;                        // minimal class of each state
  int start = 0, classes = 0;

  explicit dfa (nfa const& x) : a{x} {
    std::map<std::vector<int>, int> ids;
    auto const id = [&] (std::vector<int> s) {
      auto const [it, fresh] = ids.emplace (s, static_cast<int> (sets.size ()));
      if (fresh) {
        bool acc = false;
        for (int p : s) { acc = acc || a.accept[p]; }
        sets.push_back (std::move (s));
        accept.push_back (acc);
      }
      return it->second;
    };
    id ({});
    start = id ({0});
    for (std::size_t s = 0; s < sets.size (); ++s) {
      std::array<int, 256> row{};
      std::set<int> u;
      for (int p : sets[s]) { u.insert (a.follow[p].begin (), a.follow[p].end ()); }
      for (int c = 0; c < 256; ++c) {
        std::vector<int> t;
        for (int q : u) {
          if (a.cls[q][c]) { t.push_back (q); }
        }
        row[c] = id (std::move (t));
      }
      next.push_back (row);
    }
    // Moore's partition refinement.
    auto const n = sets.size ();
    cls.assign (n, 0);
    for (std::size_t s = 0; s < n; ++s) { cls[s] = accept[s] ? 1 : 0; }
    classes = 2;
    for (;;) {
      std::map<std::pair<int, std::vector<int>>, int> sig;
      std::vector<int> nc (n);
      for (std::size_t s = 0; s < n; ++s) {
        std::vector<int> v (256);
        for (int c = 0; c < 256; ++c) { v[c] = cls[next[s][c]]; }
        nc[s] = sig.emplace (std::make_pair (cls[s], std::move (v)), static_cast<int> (sig.size ())).first->second;
      }
      auto const k = static_cast<int> (sig.size ());
      cls = nc;
      if (k == classes) { break; }
      classes = k;
    }
  }
  int run (std::string const& s) const {
    int st = start;
    for (char const c : s) { st = next[st][static_cast<unsigned char> (c)]; }
    return st;
  }
};

using sv = std::string_view;
std::string current;
long tried = 0, accepted = 0, bad = 0;

void print_hex (int fd, std::string const& s, char const* tag) {
  std::string o = tag;
  char b[4];
  for (char const c : s) {
    std::snprintf (b, sizeof b, "%02x", static_cast<unsigned> (static_cast<unsigned char> (c)));
    o += b;
  }
  o += '\n';
  if (write (fd, o.data (), o.size ()) < 0) { _exit (4); }
}
void on_signal (int sig) {
  print_hex (1, current, "CRASH =");
  _exit (100 + sig);
}

// What the automaton says that an accepted string decomposes into.
uri::parts decompose (nfa const& a, dfa const& d, std::string const& s) {
  auto const n = s.size ();
  std::vector<int> st (n + 1);
  st[0] = d.start;
  for (std::size_t i = 0; i < n; ++i) { st[i + 1] = d.next[st[i]][static_cast<unsigned char> (s[i])]; }
  std::vector<int> roles (n);
  std::vector<std::uint64_t> live (a.fbits[0].size ());
  for (std::size_t i = n; i > 0; --i) {
    std::vector<std::uint64_t> now (live.size ());
    int r = -1;
    for (int p : d.sets[st[i]]) {
      bool ok = i == n && a.accept[p];
      for (std::size_t w = 0; i != n && !ok && w < live.size (); ++w) { ok = (a.fbits[p][w] & live[w]) != 0; }
      if (ok) {
        now[p / 64] |= std::uint64_t{1} << (p % 64);
        r = a.role[p];
      }
    }
    roles[i - 1] = r;
    live = std::move (now);
  }
  uri::parts r;
  auto const run = [&] (std::size_t i, int role) {
    std::size_t e = i;
    while (e < n && roles[e] == role) { ++e; }
    return sv{s}.substr (i, e - i);
  };
  std::size_t i = 0;
  if (i < n && roles[i] == scheme) {
    r.scheme = run (i, scheme);
    i += r.scheme->size () + 1;
  }
  if (i < n && roles[i] == authslash) {
    i += 2;
    auto& au = r.ensure_authority ();
    auto const ui = run (i, userinfo);
    if (i + ui.size () < n && roles[i + ui.size ()] == at) {
      au.userinfo = ui;
      i += ui.size () + 1;
    }
    au.host = run (i, host);
    i += au.host.size ();
    if (i < n && roles[i] == portcolon) {
      au.port = run (i + 1, port);
      i += 1 + au.port->size ();
    }
  }
  if (i < n && roles[i] == slash) { r.path.absolute = true; }
  if (i < n && roles[i] == seg) {
    r.path.segments.push_back (run (i, seg));
    i += r.path.segments.back ().size ();
  }
  while (i < n && roles[i] == slash) {
    r.path.segments.push_back (run (i + 1, seg));
    i += 1 + r.path.segments.back ().size ();
  }
  if (i < n && roles[i] == qmark) {
    r.query = run (i + 1, query);
    i += 1 + r.query->size ();
  }
  if (i < n && roles[i] == hash) {
    r.fragment = run (i + 1, fragment);
    i += 1 + r.fragment->size ();
  }
  if (i != n) { std::fprintf (stderr, "cannot decompose\n"); std::exit (3); }
  return r;
}

bool same (uri::parts const& x, uri::parts const& y) {
  if (x.scheme != y.scheme || x.query != y.query || x.fragment != y.fragment) { return false; }
  if (x.path.absolute != y.path.absolute || x.path.segments != y.path.segments) { return false; }
  if (x.authority.has_value () != y.authority.has_value ()) { return false; }
  return !x.authority || (x.authority->userinfo == y.authority->userinfo && x.authority->host == y.authority->host &&
                          x.authority->port == y.authority->port);
}

void test (nfa const& na, dfa const& ref, std::string const& s, int st) {
  current = s;
  if ((tried & 0x3FF) == 0) { alarm (60); }
  ++tried;
  auto const r = uri::split_reference (s);
  auto const u = uri::split (s);
  bool const want = ref.accept[st];
  bool ok = r.has_value () == want;
  if (!want) {
    ok = ok && !u;
  } else if (ok) {
    ++accepted;
    auto const d = decompose (na, ref, s);
    ok = same (*r, d) && u.has_value () == d.scheme.has_value () && (!u || same (*u, d)) && uri::compose (*r) == s &&
         r->valid () == d.scheme.has_value ();
  }
  if (!ok && ++bad <= 40) { print_hex (1, s, "BAD ="); }
}

}  // namespace

int main (int argc, char** argv) {
  if (argc < 6) { return 3; }
  auto const started = std::chrono::steady_clock::now ();
  for (int const s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) { signal (s, on_signal); }
  std::ifstream f{argv[1]};
  nfa a;
  a.load (f);
  dfa const d{a};
  std::string const mode = argv[2];
  int const shard = std::atoi (argv[3]);
  int const shards = std::atoi (argv[4]);

  // One representative byte of each class of bytes that the grammar does not tell apart.
  std::vector<int> reps;
  {
    std::set<std::vector<int>> seen;
    for (int c = 0; c < 256; ++c) {
      std::vector<int> col;
      for (auto const& row : d.next) { col.push_back (row[c]); }
      if (seen.insert (col).second) { reps.push_back (c); }
    }
  }
  // Access strings: a shortest string to each state of the subset automaton.
  std::vector<std::string> access (d.sets.size ());
  std::vector<bool> seen (d.sets.size ());
  std::deque<int> q{d.start};
  seen[d.start] = true;
  while (!q.empty ()) {
    int const s = q.front ();
    q.pop_front ();
    for (int c : reps) {
      int const t = d.next[s][c];
      if (!seen[t]) {
        seen[t] = true;
        access[t] = access[s] + static_cast<char> (c);
        q.push_back (t);
      }
    }
  }
  // Distinguishing suffixes: for each minimal class, a suffix that tells it from
  // each other class (greedily shared).
  std::vector<int> rep_of (d.classes, -1);
  for (std::size_t s = 0; s < d.sets.size (); ++s) {
    if (rep_of[d.cls[s]] < 0) { rep_of[d.cls[s]] = static_cast<int> (s); }
  }
  int const n = d.classes;
  // dist[i][j]: first byte of a shortest distinguishing suffix, or -2 (the empty one), -1 unknown
  std::vector<std::vector<int>> dist (n, std::vector<int> (n, -1));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      if (d.accept[rep_of[i]] != d.accept[rep_of[j]]) { dist[i][j] = -2; }
    }
  }
  for (bool changed = true; changed;) {
    changed = false;
    std::vector<std::array<int, 3>> found;
    for (int i = 0; i < n; ++i) {
      for (int j = i + 1; j < n; ++j) {
        if (dist[i][j] != -1) { continue; }
        for (int c : reps) {
          int const x = d.cls[d.next[rep_of[i]][c]];
          int const y = d.cls[d.next[rep_of[j]][c]];
          if (x != y && dist[x][y] != -1) {
            found.push_back ({i, j, c});
            break;
          }
        }
      }
    }
    for (auto const& [i, j, c] : found) {
      dist[i][j] = dist[j][i] = c;
      changed = true;
    }
  }
  auto const suffix = [&] (int i, int j) {
    std::string s;
    while (dist[i][j] != -2) {
      int const c = dist[i][j];
      s += static_cast<char> (c);
      i = d.cls[d.next[rep_of[i]][c]];
      j = d.cls[d.next[rep_of[j]][c]];
    }
    return s;
  };
  std::vector<std::vector<std::string>> w (n);
  long words = 0;
  for (int i = 0; i < n; ++i) {
    std::set<std::string> chosen;
    std::vector<bool> done (n);
    for (int j = 0; j < n; ++j) {
      if (j == i || done[j]) { continue; }
      auto const s = suffix (i, j);
      chosen.insert (s);
      auto const run = [&] (int k) {
        int st = rep_of[k];
        for (char const c : s) { st = d.next[st][static_cast<unsigned char> (c)]; }
        return static_cast<bool> (d.accept[st]);
      };
      bool const mine = run (i);
      for (int k = 0; k < n; ++k) {
        if (run (k) != mine) { done[k] = true; }
      }
    }
    chosen.insert ("");
    w[i].assign (chosen.begin (), chosen.end ());
    words += static_cast<long> (w[i].size ());
  }

  auto const deadline = started + std::chrono::seconds (400);   // for what goes beyond every transition
  long cut = 0;
  if (mode == "cover") {
    int const extra = std::atoi (argv[5]);
    long idx = 0;
    auto const suffixes = [&] (std::string const& s, int st) {
      for (auto const& x : w[d.cls[st]]) {
        int e = st;
        for (char const c : x) { e = d.next[e][static_cast<unsigned char> (c)]; }
        test (a, d, s + x, e);
      }
    };
    auto const everything = [&] (bool further) {
      for (std::size_t s = 0; s < d.sets.size (); ++s) {
        for (int c = 0; c < 256; ++c) {
          if (idx++ % shards != shard) { continue; }
          auto const str = access[s] + static_cast<char> (c);
          int const t = d.next[s][c];
          if (!further) {
            suffixes (str, t);
            continue;
          }
          if (std::chrono::steady_clock::now () > deadline) {
            ++cut;
            continue;
          }
          for (int c1 : reps) { suffixes (str + static_cast<char> (c1), d.next[t][c1]); }
        }
      }
    };
    everything (false);
    if (extra >= 1) { everything (true); }
  } else if (mode == "walk") {
    long const count = std::atol (argv[5]);
    std::mt19937_64 rng{static_cast<std::uint64_t> (std::atoll (argv[6])) * 1000003U + static_cast<unsigned> (shard)};
    auto const below = [&] (std::size_t k) { return static_cast<std::size_t> (rng () % k); };
    // Which states can still accept?
    std::vector<std::vector<std::pair<int, std::vector<int>>>> moves (d.sets.size ());
    for (std::size_t s = 0; s < d.sets.size (); ++s) {
      std::map<int, std::vector<int>> by;
      for (int c = 0; c < 256; ++c) {
        if (d.next[s][c] != 0) { by[d.next[s][c]].push_back (c); }
      }
      moves[s].assign (by.begin (), by.end ());
    }
    for (long k = shard; k < count; k += shards) {
      if (std::chrono::steady_clock::now () > deadline) { break; }
      std::string s;
      int st = d.start;
      std::size_t const target = below (8) == 0 ? below (300) : below (40);
      // Each step prefers changing state to looping, so that every component is visited.
      while (s.size () < target || !d.accept[st]) {
        auto const& m = moves[st];
        if (m.empty () || s.size () > target + 60) { break; }
        auto const& [to, bytes] = m[below (m.size ())];
        std::size_t const times = to == st && below (4) == 0 ? 1 + below (70) : 1;
        for (std::size_t r = 0; r < times; ++r) { s += static_cast<char> (bytes[below (bytes.size ())]); }
        st = to;
      }
      test (a, d, s, d.run (s));
      // and some neighbours
      for (int m = 0; m < 3 && !s.empty (); ++m) {
        auto t = s;
        auto const at = below (t.size ());
        switch (below (4)) {
        case 0: t[at] = static_cast<char> (below (256)); break;
        case 1: t.erase (at, 1 + below (3)); break;
        case 2: t.insert (at, 1, static_cast<char> (reps[below (reps.size ())])); break;
        default: t.insert (at, t.substr (below (t.size ()), 1 + below (12))); break;
        }
        test (a, d, t, d.run (t));
      }
    }
  }
  std::printf ("DONE states=%zu minimal=%d reps=%zu suffixes=%ld tried=%ld accepted=%ld bad=%ld cut=%ld\n", d.sets.size (), n,
               reps.size (), words, tried, accepted, bad, cut);
  return 0;
}
