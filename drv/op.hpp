// Shared by the conformance drivers: a driver reads operations from stdin (one
// per line, space separated tokens), performs each against the library's public
// API and writes one JSON object per operation to stdout. The objects form the
// trace that the TLA+ specifications judge; the driver itself judges nothing.
//
// Tokens: "-" an absent optional; "=6162" bytes in hex ("=" alone: empty);
// "~" an empty string_view with a null data pointer; plain decimal integers.
#ifndef VF_OP_HPP
#define VF_OP_HPP

#include <unistd.h>

#if __cplusplus >= 202002L
#include <barrier>
#endif
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iostream>
#include <list>
#include <locale>
#include <memory>
#include <new>
#include <optional>
#include <ostream>
#include <iterator>
#include <streambuf>
#include <string>
#include <random>
#include <string_view>
#include <thread>
#include <type_traits>
#include <algorithm>
#include <vector>

namespace vf {

using tokens = std::vector<std::string>;

inline tokens tokenize (std::string const& line) {
  tokens t;
  std::size_t p = 0;
  while (p < line.size ()) {
    auto const e = std::min (line.find (' ', p), line.size ());
    if (e > p) { t.emplace_back (line.substr (p, e - p)); }
    p = e + 1;
  }
  return t;
}

inline int hexval (char c) {
  return c <= '9' ? c - '0' : c - 'a' + 10;
}
inline std::string unhex (std::string_view h) {
  std::string r;
  for (std::size_t i = 0; i + 1 < h.size (); i += 2) {
    r += static_cast<char> (hexval (h[i]) * 16 + hexval (h[i + 1]));
  }
  return r;
}

// Holds the characters of one argument in an exactly sized heap block, so that
// AddressSanitizer notices a read of even one byte beyond it.
// It also notices if the call changed its argument.
class arena {
public:
  arena () = default;
  arena (arena const&) = delete;
  arena& operator= (arena const&) = delete;
  ~arena () {
    for (auto const& b : blocks_) {
      if (b.was.compare (0, std::string::npos, b.now, b.was.size ()) != 0) {
        std::fputs ("Assertion: an argument was changed\n", stderr);
        std::abort ();
      }
    }
    place ().used = used_;
  }
  std::string_view add (std::string_view s) {
    // Asked to, it puts the arguments of each operation where those of the last one were,
    // or makes them views of one text.
    if (auto& p = place (); p.wanted && s.size () <= p.size - p.used) {
      if (auto const k = std::string_view{p.bytes.get (), p.shared}.find (s); p.shared > 0 && k != std::string_view::npos) {
        return {p.bytes.get () + k, s.size ()};
      }
      auto* const at = p.bytes.get () + p.used;
      std::memcpy (at, s.data (), s.size ());
      p.used += s.size ();
      blocks_.push_back (block{nullptr, at, std::string{s}});
      return {at, s.size ()};
    }
    auto p = std::make_unique<char[]> (s.size ());
    std::memcpy (p.get (), s.data (), s.size ());
    std::string_view r{p.get (), s.size ()};
    blocks_.push_back (block{std::move (p), r.data (), std::string{s}});
    return r;
  }
  std::string_view arg (std::string const& tok) {
    if (tok == "~") { return {}; }
    return add (unhex (std::string_view{tok}.substr (1)));
  }
  std::optional<std::string_view> opt (std::string const& tok) {
    if (tok == "-") { return {}; }
    return arg (tok);
  }

  // Has the arguments which the operation names lie in one text, the last ones first.
  static void share (std::string const& line) {
    static auto const* const how = std::getenv ("VF_PLACE");
    auto& p = place ();
    if (!p.wanted || how == nullptr || *how != '2') { return; }
    std::string all;
    for (auto at = line.rfind ('='); at != std::string::npos; at = at == 0 ? std::string::npos : line.rfind ('=', at - 1)) {
      auto const e = std::min (line.find_first_not_of ("0123456789abcdef", at + 1), line.size ());
      all += unhex (std::string_view{line}.substr (at + 1, e - at - 1));
    }
    p.used = p.shared = all.size () < p.size / 2 ? all.size () : 0;
    std::memcpy (p.bytes.get (), all.data (), p.shared);
  }

private:
  struct fixed {
    bool wanted = std::getenv ("VF_PLACE") != nullptr && std::getenv ("VF_THREADS") == nullptr;
    std::size_t size = 1U << 20U;
    std::size_t used = 0;
    std::size_t shared = 0;
    std::unique_ptr<char[]> bytes = wanted ? std::make_unique<char[]> (size) : nullptr;
  };
  static fixed& place () {
    static thread_local fixed f;
    return f;
  }
  struct block {
    std::unique_ptr<char[]> held;
    char const* now;
    std::string was;
  };
  std::size_t used_ = place ().used;
  std::vector<block> blocks_;
};

// --- JSON ---------------------------------------------------------------------
class json {
public:
  std::string s;
  json& raw (std::string_view v) {
    s += v;
    return *this;
  }
  template <typename T> json& ints (T const& c) {
    s += '[';
    bool first = true;
    for (auto const v : c) {
      if (!first) { s += ','; }
      first = false;
      if constexpr (std::is_signed_v<std::decay_t<decltype (v)>>) {
        s += std::to_string (static_cast<long long> (v));
      } else {
        s += std::to_string (static_cast<unsigned long long> (v));
      }
    }
    s += ']';
    return *this;
  }
  json& bytes (std::string_view v) {
    s += '[';
    char buf[8];
    for (std::size_t i = 0; i < v.size (); ++i) {
      std::snprintf (buf, sizeof buf, i ? ",%u" : "%u", static_cast<unsigned> (static_cast<unsigned char> (v[i])));
      s += buf;
    }
    s += ']';
    return *this;
  }
  json& opt (std::optional<std::string_view> const& v) {
    s += '[';
    if (v) { bytes (*v); }
    s += ']';
    return *this;
  }
  json& key (std::string_view k) {
    if (s.back () != '{') { s += ','; }
    s += '"';
    s += k;
    s += "\":";
    return *this;
  }
  json& b (bool v) {
    s += v ? "true" : "false";
    return *this;
  }
  json& num (long long v) {
    s += std::to_string (v);
    return *this;
  }
  json& str (std::string_view v) {  // v must not need escaping
    s += '"';
    s += v;
    s += '"';
    return *this;
  }
};

// --- code of the user's which the library calls --------------------------------
struct abandoned {};
struct intrusion {
  unsigned wait = 0;                   // at which moment (0: never)
  std::string const* other = nullptr;  // what is performed then; nothing: the call is abandoned
};
inline thread_local intrusion intrusion_;
inline std::string line_of (std::string const& line);

// The drivers call this wherever the library has given control to code of theirs: an iterator, a predicate,
// an action, an allocator, a stream buffer. Such code may call the library, or may throw.
// (Not where what calls it is declared to throw nothing.)
inline void moment (bool may_throw = true) {
  if (intrusion_.wait == 0 || (!may_throw && intrusion_.other == nullptr) || --intrusion_.wait != 0) { return; }
  if (intrusion_.other == nullptr) { throw abandoned{}; }
  (void)line_of (*intrusion_.other);
}

// As std::back_inserter.
template <typename Container, bool MayThrow = true> class into {
public:
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  using container_type = Container;
  explicit into (Container& c) : c_{&c} {}
  into& operator= (typename Container::value_type const& v) {
    moment (MayThrow);
    c_->push_back (v);
    return *this;
  }
  into& operator* () { return *this; }
  into& operator++ () { return *this; }
  into operator++ (int) { return *this; }

private:
  Container* c_;
};

template <typename Container> into<Container, false> quietly_into (Container& c) {
  return into<Container, false>{c};
}

// As std::ostringstream.
class text_stream : public std::ostream {
public:
  text_stream () : std::ostream{nullptr} { rdbuf (&b_); }
  std::string const& str () const { return b_.s; }

private:
  struct buffer final : std::streambuf {
    std::string s;
    int_type overflow (int_type c) override {
      moment ();
      if (!traits_type::eq_int_type (c, traits_type::eof ())) { s += traits_type::to_char_type (c); }
      return traits_type::not_eof (c);
    }
    std::streamsize xsputn (char const* p, std::streamsize n) override {
      moment ();
      s.append (p, static_cast<std::size_t> (n));
      return n;
    }
  };
  buffer b_;
};

template <typename T> struct allocator {
  using value_type = T;
  allocator () = default;
  template <typename U> allocator (allocator<U> const&) {}
  T* allocate (std::size_t n) {
    moment ();
    return std::allocator<T>{}.allocate (n);
  }
  void deallocate (T* p, std::size_t n) { std::allocator<T>{}.deallocate (p, n); }
  friend bool operator== (allocator const&, allocator const&) { return true; }
  friend bool operator!= (allocator const&, allocator const&) { return false; }
};

// Performs one operation; returns the members of the JSON object (without the
// enclosing braces). Defined by each driver.
void perform (tokens const& t, json& out);

inline std::string line_of (std::string const& line) {
  auto const t = tokenize (line);
  arena::share (line);
  json out;
  out.s = "{";
  if (t.empty () || t[0] == "none") {
    out.key ("op").str ("none");
  } else {
    perform (t, out);
  }
  out.s += "}\n";
  return out.s;
}

#ifndef VF_NO_MAIN
#if __cplusplus >= 202002L
// Every thread performs every operation, each in an order of its own.
inline int run_threads (unsigned n) {
  std::vector<std::string> lines;
  std::string line;
  while (std::getline (std::cin, line)) { lines.push_back (line); }
  std::vector<std::vector<std::string>> outs (n, std::vector<std::string> (lines.size ()));
  std::barrier start (n);
  std::vector<std::thread> ts;
  for (unsigned k = 0; k < n; ++k) {
    ts.emplace_back ([&, k] {
      std::vector<std::size_t> order (lines.size ());
      for (std::size_t i = 0; i < order.size (); ++i) { order[i] = i; }
      std::mt19937 g (k + 1);
      // neighbouring threads perform much the same calls at much the same time
      if (k % 2 == 0) {
        for (std::size_t i = order.size (); i > 1; --i) { std::swap (order[i - 1], order[g () % i]); }
      } else {
        std::mt19937 h (k);
        for (std::size_t i = order.size (); i > 1; --i) { std::swap (order[i - 1], order[h () % i]); }
      }
      start.arrive_and_wait ();
      for (auto const i : order) { outs[k][i] = line_of (lines[i]); }
    });
  }
  for (auto& t : ts) { t.join (); }
  for (auto const& o : outs) {
    for (auto const& s : o) { std::fwrite (s.data (), 1, s.size (), stdout); }
  }
  return 0;
}
#else
inline int run_threads (unsigned) {
  return 3;
}
#endif

inline int run () {
  if (auto const* const l = std::getenv ("VF_LOCALE")) {
    if (std::setlocale (LC_ALL, l) == nullptr) {
      std::fprintf (stderr, "no locale %s\n", l);
      return 3;
    }
    std::locale::global (std::locale (l));
  }
  std::ios::sync_with_stdio (false);
  if (auto const* const n = std::getenv ("VF_THREADS")) { return run_threads (static_cast<unsigned> (std::atoi (n))); }
  // An operation that has not returned by then never will, one takes it.
  auto const* const limit = std::getenv ("VF_TIMEOUT");
  auto const seconds = static_cast<unsigned> (limit == nullptr ? 40 : std::atoi (limit));
  // "1": in the middle of some of the calls another operation is performed; "2": calls are abandoned first.
  auto const* const how = std::getenv ("VF_INTRUDE");
  unsigned k = 0;
  std::string before = "none";
  std::string line;
  while (std::getline (std::cin, line)) {
    alarm (seconds);
    auto const wait = 1U + (k * 5U + k / 7U) % 11U;
    if (how != nullptr && *how == '2') {
      intrusion_ = {wait, nullptr};
      try {
        (void)line_of (line);
      } catch (abandoned const&) {}
    }
    intrusion_ = {how != nullptr && *how == '1' ? wait : 0U, k % 3U == 0U ? &line : &before};
    auto const s = line_of (line);
    intrusion_ = {};
    if (how != nullptr) { before = line; }
    ++k;
    alarm (0);
    std::fwrite (s.data (), 1, s.size (), stdout);
    std::fflush (stdout);
  }
  return 0;
}
#endif

}  // end namespace vf

#endif  // VF_OP_HPP
