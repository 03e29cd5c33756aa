// IR build only (-include): makes the bodies of std::basic_string members visible
// to the verifier and gives string streams a body in plain C++ (their assumed
// contract).  The replay build uses the library's own streams.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <sstream>
#include <fstream>
#include <iomanip>
#include <string>
extern "C" int    vf_int_digits(long v, char* out);      // decimal text of v, returns its length
extern "C" int    vf_real_digits(double v, char* out, int prec);
extern "C" double vf_parse_real(const char* s, int n, int* used);
namespace std {
class vf_stringstream
{
 public:
  string b_;
  size_t p_;
  bool   fail_, eof_;
  int    w_;
  char   fill_;
  vf_stringstream() : p_(0), fail_(false), eof_(false), w_(0), fill_(' ') {}
  explicit vf_stringstream(const string& s) : b_(s), p_(0), fail_(false), eof_(false), w_(0), fill_(' ') {}
  explicit vf_stringstream(const char* s) : b_(s), p_(0), fail_(false), eof_(false), w_(0), fill_(' ') {}
  string str() const { return b_; }
  void   str(const string& s) { b_ = s; p_ = 0; }
  void   clear() { fail_ = eof_ = false; }
  bool   fail() const { return fail_; }
  bool   good() const { return !fail_ && !eof_; }
  bool   eof() const { return eof_; }
  bool   operator!() const { return fail_; }
  explicit operator bool() const { return !fail_; }
  void put_(const char* s, int n)
  {
    for (int i = n; i < w_; ++i) b_.push_back(fill_);
    w_ = 0;
    for (int i = 0; i < n; ++i) b_.push_back(s[i]);
  }
  vf_stringstream& operator<<(const string& s) { put_(s.data(), (int)s.size()); return *this; }
  vf_stringstream& operator<<(const char* s) { int n = 0; while (s[n]) ++n; put_(s, n); return *this; }
  vf_stringstream& operator<<(char c) { put_(&c, 1); return *this; }
  vf_stringstream& lng_(long v) { char t[24]; int n = vf_int_digits(v, t); put_(t, n); return *this; }
  vf_stringstream& operator<<(int v) { return lng_(v); }
  vf_stringstream& operator<<(unsigned v) { return lng_(v); }
  vf_stringstream& operator<<(long v) { return lng_(v); }
  vf_stringstream& operator<<(unsigned long v) { return lng_(v); }
  vf_stringstream& operator<<(bool v) { return lng_(v); }
  vf_stringstream& operator<<(double v) { char t[40]; int n = vf_real_digits(v, t, 6); put_(t, n); return *this; }
  vf_stringstream& operator<<(long long v) { return lng_(v); }
  vf_stringstream& operator<<(unsigned long long v) { return lng_(v); }
  vf_stringstream& operator<<(float v) { return *this << (double)v; }
  // never executed by the code under contract; present so that library headers compile
  vf_stringstream& operator<<(ostream& (*f)(ostream&));
  vf_stringstream& operator<<(ios_base& (*f)(ios_base&));
  template <class T> vf_stringstream& operator<<(const T&);
  template <class T> vf_stringstream& operator>>(T&);
  operator ostream&();
  operator istream&();
  int get();
  int peek();
  vf_stringstream& get(char&);
  vf_stringstream& putback(char);
  vf_stringstream& ignore(long, int = 0);
  vf_stringstream& seekg(long);
  vf_stringstream& unget();
  ios_base::iostate rdstate() const;
  ios_base::fmtflags flags() const;
  ios_base::fmtflags flags(ios_base::fmtflags);
  void exceptions(ios_base::iostate);
  void copyfmt(const ios&);
  void precision(int);
  void width(int);
  ios_base::fmtflags setf(ios_base::fmtflags);
  ios_base::fmtflags setf(ios_base::fmtflags, ios_base::fmtflags);
  vf_stringstream& operator<<(_Setw f) { w_ = f._M_n; return *this; }
  vf_stringstream& operator<<(_Setfill<char> f) { fill_ = f._M_c; return *this; }
  static bool sp_(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool skip_()
  {
    if (fail_ || eof_) { fail_ = true; return false; }
    while (p_ < b_.size() && sp_(b_[p_])) ++p_;
    if (p_ >= b_.size()) { fail_ = eof_ = true; return false; }
    return true;
  }
  vf_stringstream& operator>>(string& s)
  {
    if (!skip_()) return *this;
    s.clear();
    while (p_ < b_.size() && !sp_(b_[p_])) { s.push_back(b_[p_]); ++p_; }
    if (p_ >= b_.size()) eof_ = true;
    return *this;
  }
  bool int_(long& v)
  {
    if (!skip_()) return false;
    bool neg = false;
    if (b_[p_] == '-' || b_[p_] == '+') { neg = b_[p_] == '-'; ++p_; }
    long n = 0;
    int  k = 0;
    while (p_ < b_.size() && b_[p_] >= '0' && b_[p_] <= '9') { n = 10 * n + (b_[p_] - '0'); ++p_; ++k; }
    if (p_ >= b_.size()) eof_ = true;
    v = neg ? -n : n;
    if (k == 0) { v = 0; fail_ = true; }
    return true;
  }
  vf_stringstream& operator>>(int& v) { long n; if (int_(n)) v = (int)n; return *this; }
  vf_stringstream& operator>>(unsigned& v) { long n; if (int_(n)) v = (unsigned)n; return *this; }
  vf_stringstream& operator>>(long& v) { long n; if (int_(n)) v = n; return *this; }
  vf_stringstream& operator>>(char& c) { if (skip_()) { c = b_[p_]; ++p_; } return *this; }
  vf_stringstream& operator>>(double& v)
  {
    if (!skip_()) return *this;
    int used = 0;
    v        = vf_parse_real(b_.data() + p_, (int)(b_.size() - p_), &used);
    p_ += used;
    if (p_ >= b_.size()) eof_ = true;
    if (used == 0) { v = 0; fail_ = true; }
    return *this;
  }
};
inline vf_stringstream& getline(vf_stringstream& f, string& s, char d = '\n')
{
  s.clear();
  if (f.fail_ || f.eof_) { f.fail_ = true; return f; }
  bool any = false;
  while (f.p_ < f.b_.size()) {
    char c = f.b_[f.p_++];
    any    = true;
    if (c == d) return f;
    s.push_back(c);
  }
  f.eof_ = true;
  if (!any) f.fail_ = true;
  return f;
}
}  // namespace std
#define stringstream vf_stringstream
#define ostringstream vf_stringstream
#define istringstream vf_stringstream
