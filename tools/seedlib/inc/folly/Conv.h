// minimal stand-in for folly/Conv.h: to<T>(string) with folly's strictness
// (surrounding whitespace allowed, whole input must be consumed, overflow throws).
#pragma once
#include <folly/Range.h>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
namespace folly {
struct ConversionError : public std::range_error {
  ConversionError() : std::range_error("conversion error") {}
};
namespace wsymdetail {
inline void appendU(std::string& s, unsigned long long v) {
  char b[24]; int n = 0;
  do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v);
  while (n) s.push_back(b[--n]);
}
inline bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
template <class T> T parseInt(StringPiece p) {
  const char* b = p.begin(); const char* e = p.end();
  while (b < e && ws(*b)) b++;
  bool neg = false;
  if (b < e && std::is_signed<T>::value && (*b == '-' || *b == '+')) { neg = *b == '-'; b++; }
  if (b >= e || *b < '0' || *b > '9') throw ConversionError();
  unsigned long long v = 0;
  const unsigned long long lim = neg ? (unsigned long long)std::numeric_limits<T>::max() + 1 : (unsigned long long)std::numeric_limits<T>::max();
  while (b < e && *b >= '0' && *b <= '9') {
    unsigned d = (unsigned)(*b - '0');
    if (v > (lim - d) / 10) throw ConversionError();
    v = v * 10 + d; b++;
  }
  while (b < e && ws(*b)) b++;
  if (b != e) throw ConversionError();
  return neg ? (T)(0 - v) : (T)v;
}
inline bool parseBool(StringPiece p) {
  const char* b = p.begin(); const char* e = p.end();
  while (b < e && ws(*b)) b++;
  if (b >= e) throw ConversionError();
  bool r = false;
  auto lc = [](char c) { return (char)((c >= 'A' && c <= 'Z') ? c + 32 : c); };
  auto word = [&](const char* w) {
    const char* q = b;
    while (*w) { if (q >= e || lc(*q) != *w) return false; q++; w++; }
    b = q; return true;
  };
  char c = lc(*b);
  if (c == '0' || c == '1') {
    r = false;
    for (; b < e && *b >= '0' && *b <= '9'; ++b) {
      if (r || (*b != '0' && *b != '1')) throw ConversionError();
      r = (*b == '1');
    }
  } else if (c == 'y') { r = true; if (!word("yes")) b++; }
  else if (c == 'n') { r = false; if (!word("no")) b++; }
  else if (c == 't') { r = true; if (!word("true")) b++; }
  else if (c == 'f') { r = false; if (!word("false")) b++; }
  else if (c == 'o') { if (word("on")) r = true; else if (word("off")) r = false; else throw ConversionError(); }
  else throw ConversionError();
  while (b < e && ws(*b)) b++;
  if (b != e) throw ConversionError();
  return r;
}
inline double parseDouble(StringPiece p) { size_t n; std::string s = p.str(); double d = std::stod(s, &n); if (n != s.size()) throw ConversionError(); return d; }
template <class T, class En = void> struct App;
template <> struct App<char> { static void go(std::string& s, char v) { s.push_back(v); } };
template <> struct App<bool> { static void go(std::string& s, bool v) { s.push_back(v ? '1' : '0'); } };
template <> struct App<std::string> { static void go(std::string& s, const std::string& v) { s += v; } };
template <> struct App<const char*> { static void go(std::string& s, const char* v) { s += v; } };
template <> struct App<char*> { static void go(std::string& s, const char* v) { s += v; } };
template <> struct App<StringPiece> { static void go(std::string& s, StringPiece v) { s.append(v.data(), v.size()); } };
template <class T> struct App<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, char>::value && !std::is_same<T, bool>::value>::type> {
  static void go(std::string& s, T v) {
    if (std::is_signed<T>::value && v < 0) { s.push_back('-'); appendU(s, 0ull - (unsigned long long)(long long)v); }
    else appendU(s, (unsigned long long)v);
  }
};
template <class T> struct App<T, typename std::enable_if<std::is_enum<T>::value>::type> {
  static void go(std::string& s, T v) { App<typename std::underlying_type<T>::type>::go(s, (typename std::underlying_type<T>::type)v); }
};
template <class T> struct App<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static void go(std::string& s, T v) { s += std::to_string(v); }
};
template <class D, class S, class En = void> struct To;
template <class S> struct To<std::string, S> { static std::string go(const S& v) { std::string r; App<typename std::decay<S>::type>::go(r, v); return r; } };
template <class T> struct To<T, StringPiece, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { static T go(StringPiece p) { return parseInt<T>(p); } };
template <> struct To<bool, StringPiece> { static bool go(StringPiece p) { return parseBool(p); } };
template <> struct To<double, StringPiece> { static double go(StringPiece p) { return parseDouble(p); } };
template <class T> struct To<T, std::string, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static T go(const std::string& p) { return To<T, StringPiece>::go(StringPiece(p)); } };
template <class T> struct To<T, const char*, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static T go(const char* p) { return To<T, StringPiece>::go(StringPiece(p)); } };
template <class T, class S> struct To<T, S, typename std::enable_if<std::is_integral<T>::value && std::is_integral<S>::value && !std::is_same<T, std::string>::value>::type> {
  static T go(S v) { if ((S)(T)v != v || ((T)v < 0) != (v < 0)) throw ConversionError(); return (T)v; } };
inline void appAll(std::string*) {}
}  // namespace wsymdetail
template <class D, class S> D to(const S& v) { return wsymdetail::To<D, typename std::decay<S>::type>::go(v); }
template <class A> void toAppend(const A& a, std::string* out) { wsymdetail::App<typename std::decay<A>::type>::go(*out, a); }
template <class A, class B> void toAppend(const A& a, const B& b, std::string* out) { toAppend(a, out); toAppend(b, out); }
template <class A, class B, class C> void toAppend(const A& a, const B& b, const C& c, std::string* out) { toAppend(a, out); toAppend(b, c, out); }
template <class A, class B, class C, class D> void toAppend(const A& a, const B& b, const C& c, const D& d, std::string* out) { toAppend(a, out); toAppend(b, c, d, out); }
template <class A, class B, class C, class D, class F> void toAppend(const A& a, const B& b, const C& c, const D& d, const F& f, std::string* out) { toAppend(a, out); toAppend(b, c, d, f, out); }
}  // namespace folly
