// minimal stand-in for folly::Range as used by wdt
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <string>
extern "C" void wsym_check_failed(const char* expr, const char* file, int line) __attribute__((noreturn));
namespace folly {
template <class Iter>
class Range {
 public:
  typedef typename std::iterator_traits<Iter>::value_type value_type;
  typedef typename std::iterator_traits<Iter>::reference reference;
  static const size_t npos = ~(size_t)0;
  Range() : b_(), e_() {}
  Range(Iter b, Iter e) : b_(b), e_(e) {}
  Range(Iter b, size_t n) : b_(b), e_(b + n) {}
  template <class I = Iter, typename std::enable_if<std::is_same<I, const char*>::value, int>::type = 0>
  Range(const char* s) : b_(s), e_(s + strlen(s)) {}
  template <class I = Iter, typename std::enable_if<std::is_same<I, const char*>::value, int>::type = 0>
  Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
  template <class I = Iter, typename std::enable_if<std::is_same<I, const char*>::value, int>::type = 0>
  Range(const std::string& s, size_t from) : b_(s.data() + from), e_(s.data() + s.size()) { if (from > s.size()) throw std::out_of_range("index out of range"); }
  template <class I = Iter, typename std::enable_if<std::is_same<I, const char*>::value, int>::type = 0>
  Range(const std::string& s, size_t from, size_t n) : b_(s.data() + from), e_(s.data() + from + (n < s.size() - from ? n : s.size() - from)) { if (from > s.size()) throw std::out_of_range("index out of range"); }
  // ByteRange from a StringPiece or a mutable byte pointer
  template <class O, typename std::enable_if<std::is_convertible<O, Iter>::value && !std::is_same<O, Iter>::value, int>::type = 0>
  Range(const Range<O>& o) : b_(o.begin()), e_(o.end()) {}
  template <class I = Iter, typename std::enable_if<std::is_same<I, const unsigned char*>::value, int>::type = 0>
  Range(const Range<const char*>& o) : b_((const unsigned char*)o.begin()), e_((const unsigned char*)o.end()) {}
  void clear() { b_ = Iter(); e_ = Iter(); }
  void assign(Iter b, Iter e) { b_ = b; e_ = e; }
  void reset(Iter b, size_t n) { b_ = b; e_ = b + n; }
  size_t size() const { return (size_t)(e_ - b_); }
  bool empty() const { return b_ == e_; }
  Iter data() const { return b_; }
  Iter start() const { return b_; }
  Iter begin() const { return b_; }
  Iter end() const { return e_; }
  reference front() const { if (b_ == e_) wsym_check_failed("Range::front on empty", __FILE__, __LINE__); return *b_; }
  reference back() const { if (b_ == e_) wsym_check_failed("Range::back on empty", __FILE__, __LINE__); return *(e_ - 1); }
  reference operator[](size_t i) const { return b_[i]; }
  reference at(size_t i) const { if (i >= size()) throw std::out_of_range("index out of range"); return b_[i]; }
  std::string str() const { return std::string((const char*)b_, size()); }
  std::string toString() const { return str(); }
  void advance(size_t n) { if (n > size()) throw std::out_of_range("index out of range"); b_ += n; }
  void subtract(size_t n) { if (n > size()) throw std::out_of_range("index out of range"); e_ -= n; }
  void pop_front() { b_++; }
  void pop_back() { e_--; }
  void uncheckedAdvance(size_t n) { b_ += n; }
  Range subpiece(size_t first, size_t length = npos) const {
    if (first > size()) throw std::out_of_range("index out of range");
    size_t m = size() - first;
    return Range(b_ + first, length < m ? length : m);
  }
  size_t find(value_type c) const { for (size_t i = 0; i < size(); i++) if (b_[i] == c) return i; return npos; }
  size_t find(value_type c, size_t pos) const { for (size_t i = pos; i < size(); i++) if (b_[i] == c) return i; return npos; }
  size_t find(Range o) const { return find(o, 0); }
  size_t find(Range o, size_t pos) const {
    if (o.size() > size()) return npos;
    for (size_t i = pos; i + o.size() <= size(); i++) {
      size_t j = 0;
      while (j < o.size() && b_[i + j] == o.b_[j]) j++;
      if (j == o.size()) return i;
    }
    return npos;
  }
  size_t rfind(value_type c) const { for (size_t i = size(); i-- > 0;) if (b_[i] == c) return i; return npos; }
  size_t find_first_of(Range o, size_t pos = 0) const {
    for (size_t i = pos; i < size(); i++) if (o.find(b_[i]) != npos) return i;
    return npos;
  }
  bool startsWith(const Range& o) const {
    if (size() < o.size()) return false;
    for (size_t i = 0; i < o.size(); i++) if (b_[i] != o.b_[i]) return false;
    return true;
  }
  bool startsWith(value_type c) const { return !empty() && *b_ == c; }
  bool endsWith(const Range& o) const {
    if (size() < o.size()) return false;
    for (size_t i = 0; i < o.size(); i++) if (e_[-(ptrdiff_t)o.size() + i] != o.b_[i]) return false;
    return true;
  }
  bool endsWith(value_type c) const { return !empty() && e_[-1] == c; }
  bool removePrefix(const Range& o) { if (!startsWith(o)) return false; b_ += o.size(); return true; }
  bool removeSuffix(const Range& o) { if (!endsWith(o)) return false; e_ -= o.size(); return true; }
  Range split_step(value_type d) {
    size_t i = find(d);
    if (i == npos) { Range r = *this; b_ = e_; return r; }
    Range r(b_, i);
    b_ += i + 1;
    return r;
  }
  Range split_step(Range d) {
    size_t i = find(d);
    if (i == npos) { Range r = *this; b_ = e_; return r; }
    Range r(b_, i);
    b_ += i + d.size();
    return r;
  }
  bool operator==(const Range& o) const {
    if (size() != o.size()) return false;
    for (size_t i = 0; i < size(); i++) if (b_[i] != o.b_[i]) return false;
    return true;
  }
  bool operator!=(const Range& o) const { return !(*this == o); }
 private:
  Iter b_, e_;
};
template <class Iter> const size_t Range<Iter>::npos;
typedef Range<const char*> StringPiece;
typedef Range<char*> MutableStringPiece;
typedef Range<const unsigned char*> ByteRange;
typedef Range<unsigned char*> MutableByteRange;
inline bool operator==(const StringPiece& a, const char* b) { return a == StringPiece(b); }
inline bool operator==(const StringPiece& a, const std::string& b) { return a == StringPiece(b); }
inline std::ostream& operator<<(std::ostream& os, const StringPiece& p) { return os.write(p.data(), p.size()); }
}  // namespace folly
