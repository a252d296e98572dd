// How values are displayed, written apart from the library: what a counterexample
// shows is compared with this.
#pragma once
#include <array>
#include <cctype>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <rapidcheck.h>

namespace pretty {

template <typename T> struct P {
  static std::string of(const T &x) { std::ostringstream os; os << x; return os.str(); }
};
template <typename T> std::string of(const T &x) { return P<T>::of(x); }

template <> struct P<bool> { static std::string of(bool x) { return x ? "true" : "false"; } };
template <> struct P<char> { static std::string of(char x) { return std::to_string(static_cast<int>(x)); } };
template <> struct P<unsigned char> { static std::string of(unsigned char x) { return std::to_string(static_cast<int>(x)); } };

template <> struct P<std::string> {
  static std::string of(const std::string &x) {
    std::string r = "\"";
    for (char ch : x) {
      auto c = static_cast<unsigned char>(ch);
      static const char *const named[] = {"\\0", 0, 0, 0, 0, 0, 0, "\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r"};
      if (c < 14 && named[c]) r += named[c];
      else if (c == '"' || c == '\\') r += std::string("\\") + ch;
      else if (c >= 32 && c < 127) r += ch;
      else r += std::string("\\x") + "0123456789ABCDEF"[c / 16] + "0123456789ABCDEF"[c % 16];
    }
    return r + "\"";
  }
};

template <typename C> std::string all(const C &c, char open, char close) {
  std::string r(1, open);
  bool first = true;
  for (const auto &x : c) {
    if (!first) r += ", ";
    first = false;
    r += pretty::of<typename C::value_type>(x);
  }
  return r + close;
}

#define PRETTY_ALL(Params, Type, Open, Close)                                 \
  template <Params> struct P<Type> {                                          \
    static std::string of(const Type &x) { return all(x, Open, Close); }      \
  }
#define COMMA ,
PRETTY_ALL(typename T, std::vector<T>, '[', ']');
PRETTY_ALL(typename T, std::deque<T>, '[', ']');
PRETTY_ALL(typename T, std::list<T>, '[', ']');
PRETTY_ALL(typename T, std::forward_list<T>, '[', ']');
PRETTY_ALL(typename T COMMA std::size_t N, std::array<T COMMA N>, '[', ']');
PRETTY_ALL(typename T, std::set<T>, '{', '}');
PRETTY_ALL(typename T, std::multiset<T>, '{', '}');
PRETTY_ALL(typename T, std::unordered_set<T>, '{', '}');
PRETTY_ALL(typename T, std::unordered_multiset<T>, '{', '}');
PRETTY_ALL(typename K COMMA typename V, std::map<K COMMA V>, '{', '}');
PRETTY_ALL(typename K COMMA typename V, std::multimap<K COMMA V>, '{', '}');
PRETTY_ALL(typename K COMMA typename V, std::unordered_map<K COMMA V>, '{', '}');
PRETTY_ALL(typename K COMMA typename V, std::unordered_multimap<K COMMA V>, '{', '}');
#undef COMMA
#undef PRETTY_ALL

template <typename A, typename B> struct P<std::pair<A, B>> {
  static std::string of(const std::pair<A, B> &x) { return "(" + pretty::of<typename std::decay<A>::type>(x.first) + ", " + pretty::of(x.second) + ")"; }
};

template <typename Tuple, std::size_t I, std::size_t N> struct Parts {
  static void add(const Tuple &t, std::string &r) {
    if (I > 0) r += ", ";
    r += pretty::of(std::get<I>(t));
    Parts<Tuple, I + 1, N>::add(t, r);
  }
};
template <typename Tuple, std::size_t N> struct Parts<Tuple, N, N> {
  static void add(const Tuple &, std::string &) {}
};
template <typename... Ts> struct P<std::tuple<Ts...>> {
  static std::string of(const std::tuple<Ts...> &x) {
    std::string r = "(";
    Parts<std::tuple<Ts...>, 0, sizeof...(Ts)>::add(x, r);
    return r + ")";
  }
};

template <typename T> struct P<rc::Maybe<T>> {
  static std::string of(const rc::Maybe<T> &x) { return x ? pretty::of(*x) : std::string("Nothing"); }
};

template <typename T> std::string pointed(const T *p) {
  if (!p) return "nullptr";
  return pretty::of(*p) + " (0x1)";
}
template <typename T> struct P<std::shared_ptr<T>> { static std::string of(const std::shared_ptr<T> &x) { return pointed(x.get()); } };
template <typename T> struct P<std::unique_ptr<T>> { static std::string of(const std::unique_ptr<T> &x) { return pointed(x.get()); } };
template <typename T> struct P<T *> { static std::string of(T *x) { return pointed<T>(x); } };
template <> struct P<const char *> { static std::string of(const char *x) { return x ? pretty::of(std::string(x)) : std::string("nullptr"); } };

// Objects move around: only that an address is given is compared.
inline std::string anyAddress(const std::string &text) {
  std::string r;
  for (std::size_t i = 0; i < text.size(); i++) {
    r += text[i];
    if (i < 3 || text.compare(i - 3, 4, " (0x") != 0) continue;
    while (i + 1 < text.size() && std::isxdigit(static_cast<unsigned char>(text[i + 1]))) i++;
  }
  return r;
}

} // namespace pretty
