// Driver for rule.hpp.
//
//   peg VARIANT NRULES rule... EXPR input...
// Expressions in prefix notation: ch c | rg a b | al | di | hx | pr c,c,.. | rf k
//   | cat N step...   with steps  C act e | O act e | S min max e | A n e... | N e
// Each input is matched; the result and the actions are recorded.
// VARIANT: bit 0: done() is called on the matching rule itself rather than on
// rule{in}.concat (e); bit 1: odd actions are plain functions.
// Every input is matched twice, and "again" tells whether the two agree. The
// second time every intermediate rule has several continuations: it is copied,
// moved, assigned and asked whether it is done, and the matching goes on from one
// of the results; the last one is asked twice.
#include "op.hpp"
#include "uri/rule.hpp"

#include <array>
#include <clocale>
#include <functional>
#include <locale>

namespace vf {

using uri::rule;
using match_fn = std::function<rule::matched_result (rule const&)>;

struct ran {
  int id;
  char const* p;
  std::size_t n;
};
inline thread_local std::vector<ran> log_;
inline thread_local bool branching_ = false;
inline thread_local int forks_ = 0;  // how many more times a rule is to have several continuations

// The rule which s makes of x, having gone other ways from x as well.
template <typename Step> rule branch (Step const& s, rule const& x) {
  --forks_;
  auto const before = log_.size ();
  rule const first = s (x);
  (void)first.done ();
  (void)x.done ();
  log_.erase (log_.begin () + static_cast<std::ptrdiff_t> (before), log_.end ());
  rule copy{x};
  rule other = s (copy);
  rule const fork = s (other);  // what x was made from is not touched by this
  rule moved{std::move (other)};
  copy = s (x);
  rule assigned = x;
  assigned = moved;
  moved = std::move (copy);
  copy = rule{std::string_view{"aB"}};
  bool const same = moved.tail () == assigned.tail () && moved.tail () == first.tail ();
  if (!same) { return rule{std::string_view{"?"}}; }
  return before % 2 == 0 ? moved : assigned;
}

template <int Id> void plain_action (std::string_view s) {
  moment ();
  log_.push_back ({Id, s.data (), s.size ()});
}
using action_ptr = void (*) (std::string_view);
constexpr std::array<action_ptr, 5> plain{{&plain_action<1>, &plain_action<3>, &plain_action<5>, &plain_action<7>, &plain_action<9>}};

class builder {
public:
  builder (tokens const& t, std::size_t at, bool pointers) : t_{t}, at_{at}, pointers_{pointers} {}
  std::size_t at () const { return at_; }
  std::vector<match_fn> rules;
  std::string text;  // the expression as JSON

  match_fn expr () {
    auto const k = t_.at (at_++);
    text += "[\"" + k + '"';
    auto f = by_kind (k);
    text += ']';
    return f;
  }

private:
  using step = std::function<rule (rule const&)>;
  int num () {
    auto const v = std::stoi (t_.at (at_++));
    text += ',' + std::to_string (v);
    return v;
  }
  match_fn by_kind (std::string const& k) {
    if (k == "ch") {
      return uri::single_char (static_cast<char> (num ()));
    }
    if (k == "rg") {
      auto const a = static_cast<char> (num ());
      auto const b = static_cast<char> (num ());
      return uri::char_range (a, b);
    }
    if (k == "al") { return uri::alpha; }
    if (k == "di") { return uri::digit; }
    if (k == "hx") { return uri::hexdig; }
    if (k == "pr") {
      auto const& l = t_.at (at_++);
      text += ",[" + (l == "-" ? std::string{} : l) + ']';
      std::array<bool, 256> in{};
      for (std::size_t p = 0; l != "-" && p < l.size ();) {
        auto const e = std::min (l.find (',', p), l.size ());
        in[std::stoul (l.substr (p, e - p))] = true;
        p = e + 1;
      }
      return [in] (rule const& r) { return r.single_char ([&in] (char const c) { moment (); return in[static_cast<unsigned char> (c)]; }); };
    }
    if (k == "rf") {
      auto const n = static_cast<std::size_t> (num ());
      return [this, n] (rule const& r) {
        moment ();
        return rules.at (n - 1) (r);
      };
    }
    if (k != "cat") { std::abort (); }
    auto const n = std::stoi (t_.at (at_++));
    std::vector<step> steps;
    text += ",[";
    for (int i = 0; i < n; ++i) {
      if (i) { text += ','; }
      steps.push_back (one_step ());
    }
    text += ']';
    return [steps] (rule const& r) {
      moment ();
      rule x = r;
      for (auto const& s : steps) { x = branching_ && forks_ > 0 ? branch (s, x) : s (x); }
      return x.matched ("cat", r);
    };
  }
  step one_step () {
    auto const k = t_.at (at_++);
    text += "[\"" + k + "\"";
    step result;
    if (k == "C" || k == "O") {
      auto const act = std::stoi (t_.at (at_++));
      text += ',';
      auto const e = expr ();
      text += ',' + std::to_string (act);
      if (act == 0) {
        if (k == "C") {
          result = [e] (rule const& r) { return r.concat (e); };
        } else {
          result = [e] (rule const& r) { return r.optional (e); };
        }
      } else if (pointers_ && act % 2 == 1 && act < 10) {
        auto const p = plain[static_cast<std::size_t> (act / 2)];
        if (k == "C") {
          result = [e, p] (rule const& r) { return r.concat (e, p); };
        } else {
          result = [e, p] (rule const& r) { return r.optional (e, p); };
        }
      } else {
        auto const l = [act] (std::string_view s) {
          moment ();
          log_.push_back ({act, s.data (), s.size ()});
        };
        if (k == "C") {
          result = [e, l] (rule const& r) { return r.concat (e, l); };
        } else {
          result = [e, l] (rule const& r) { return r.optional (e, l); };
        }
      }
    } else if (k == "S") {
      auto const lo = static_cast<unsigned> (std::stoul (t_.at (at_++)));
      auto const hi = static_cast<unsigned> (std::stoul (t_.at (at_++)));
      text += ',';
      auto const e = expr ();
      text += ',' + std::to_string (lo) + ',' + std::to_string (hi);
      if (hi != 999999) {
        result = [=] (rule const& r) { return r.star (e, lo, hi); };
      } else if (lo != 0) {
        result = [=] (rule const& r) { return r.star (e, lo); };
      } else {
        result = [=] (rule const& r) { return r.star (e); };
      }
    } else if (k == "N") {
      // a matching function of the user's own
      text += ',';
      auto const e = expr ();
      result = [e] (rule const& r) {
        return r.concat ([e] (rule const& r1) -> rule::matched_result {
          auto const t = r1.tail ();
          if (t && !e (r1)) { return std::make_tuple (t->substr (0, 0), rule::acceptor_container{}); }
          return {};
        });
      };
    } else if (k == "A") {
      auto const n = std::stoul (t_.at (at_++));
      std::vector<match_fn> es;
      text += ",[";
      for (std::size_t i = 0; i < n; ++i) {
        if (i) { text += ','; }
        es.push_back (expr ());
      }
      text += ']';
      result = [es] (rule const& r) {
        switch (es.size ()) {
        case 0: return rule::alternative ();
        case 1: return r.alternative (es[0]);
        case 2: return r.alternative (es[0], es[1]);
        case 3: return r.alternative (es[0], es[1], es[2]);
        case 4: return r.alternative (es[0], es[1], es[2], es[3]);
        case 5: return r.alternative (es[0], es[1], es[2], es[3], es[4]);
        case 6: return r.alternative (es[0], es[1], es[2], es[3], es[4], es[5]);
        case 7: return r.alternative (es[0], es[1], es[2], es[3], es[4], es[5], es[6]);
        case 8: return r.alternative (es[0], es[1], es[2], es[3], es[4], es[5], es[6], es[7]);
        case 9: return r.alternative (es[0], es[1], es[2], es[3], es[4], es[5], es[6], es[7], es[8]);
        default: std::abort ();
        }
      };
    } else {
      std::abort ();
    }
    text += ']';
    return result;
  }

  tokens const& t_;
  std::size_t at_;
  bool pointers_;
};

inline void put_acts (json& j, std::string_view in) {
  j.raw ("[");
  bool first = true;
  for (auto const& a : log_) {
    long long from = -1;
    if (a.p >= in.data () && a.p + a.n <= in.data () + in.size ()) { from = a.p - in.data (); }
    j.raw (first ? "[" : ",[").num (a.id).raw (",").num (from).raw (",");
    j.num (from + static_cast<long long> (a.n)).raw ("]");
    first = false;
  }
  j.raw ("]");
}

// Whether e matches the beginning of in, and how much; done; the actions.
inline void one_run (json& j, match_fn const& e, std::string_view in, bool direct) {
  log_.clear ();
  long long len = -1;
  bool tail_ok = true;
  bool ok = false;
  std::size_t early = 0;
  rule const r{in};
  if (direct) {
    auto const m = e (r);
    if (m) {
      auto const head = std::get<std::string_view> (*m);
      len = static_cast<long long> (head.size ());
      tail_ok = head.data () == in.data ();
    }
  }
  auto const c = r.concat (e);
  early = log_.size ();
  if (auto const t = c.tail ()) {
    auto const l = static_cast<long long> (in.size () - t->size ());
    if (direct) {
      tail_ok = tail_ok && l == len;
    }
    len = l;
    tail_ok = tail_ok && t->data () + t->size () == in.data () + in.size ();
  } else if (len != -1) {
    tail_ok = false;
  }
  ok = c.done ();
  if (branching_) {
    // Asked again, it says the same and does the same.
    auto const n = log_.size ();
    auto const once = log_;
    auto const copy = c;
    auto const twice = copy.done ();
    tail_ok = tail_ok && twice == ok && log_.size () == 2 * n;
    for (std::size_t k = 0; k < n && tail_ok; ++k) {
      tail_ok = log_[n + k].id == once[k].id && log_[n + k].p == once[k].p && log_[n + k].n == once[k].n;
    }
    log_ = once;
  }
  tail_ok = tail_ok && r.tail () && r.tail ()->data () == in.data () && r.tail ()->size () == in.size ();
  j.key ("ok").b (ok).key ("len").num (len).key ("tail").b (tail_ok).key ("early").num (static_cast<long long> (early));
  j.key ("acts");
  put_acts (j, in);
}

// What an operation remembers is its own.
class own_log {
public:
  own_log () : log_was_{std::move (log_)}, forks_was_{forks_}, branching_was_{branching_} {
    log_.clear ();
    branching_ = false;
  }
  own_log (own_log const&) = delete;
  own_log& operator= (own_log const&) = delete;
  ~own_log () {
    log_ = std::move (log_was_);
    forks_ = forks_was_;
    branching_ = branching_was_;
  }

private:
  std::vector<ran> log_was_;
  int forks_was_;
  bool branching_was_;
};

void perform (tokens const& t, json& j) {
  own_log const own;
  arena a;
  j.key ("op").str (t.at (0));
  if (t.at (0) != "peg") { std::abort (); }
  auto const variant = std::stoul (t.at (1));
  builder b{t, 3, (variant & 2) != 0};
  auto const nrules = std::stoul (t.at (2));
  j.key ("g").raw ("[");
  for (std::size_t k = 0; k < nrules; ++k) {
    b.text.clear ();
    b.rules.push_back (b.expr ());
    j.raw (k ? "," : "").raw (b.text);
  }
  b.text.clear ();
  auto const e = b.expr ();
  j.raw ("]").key ("e").raw (b.text).key ("runs").raw ("[");
  bool first = true;
  for (std::size_t k = b.at (); k < t.size (); ++k) {
    auto const in = a.arg (t[k]);
    json one, two;
    one.s = two.s = "{";
    one_run (one, e, in, (variant & 1) != 0);
    branching_ = true;
    forks_ = 60;
    one_run (two, e, in, (variant & 1) == 0);
    branching_ = false;
    j.raw (first ? "" : ",").raw (one.s).key ("s").bytes (in).key ("again").b (one.s == two.s).raw ("}");
    first = false;
  }
  j.raw ("]");
}

}  // end namespace vf

#ifndef VF_NO_MAIN
int main () { return vf::run (); }
#endif
