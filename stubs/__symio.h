// In-memory stand-in for the iostream library: char streams over strings and over a file table.
#ifndef STUB_SYMIO_H_
#define STUB_SYMIO_H_
#include <cstring>
#include <iosfwd>
#include <iterator>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "symx.h"
#pragma clang diagnostic ignored "-Winline-namespace-reopened-noninline"
namespace std {
struct __symfile { string name; string data; __symfile* next; };
extern __symfile* __symfs_head;
string* __symfs_find(const string& name);
bool __symfs_is_full(const string& name);
bool __symfs_is_dir(const string& name);   // a directory opens for reading, but cannot be read
string* __symfs_create(const string& name);   // nullptr: cannot be opened for writing
string __symio_num(unsigned long long v, bool neg);
float __symio_strtof(const char* s);
double __symio_strtod(const char* s);

class ios_base {
 public:
  typedef unsigned openmode; typedef unsigned iostate; typedef unsigned fmtflags;
  enum seekdir { beg = 0, cur = 1, end = 2 };
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, boolalpha = 32, skipws = 64, left = 128, right = 256;
  class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} explicit failure(const char* s) : runtime_error(s) {} };
  long precision() const { return prec_; }
  long precision(long p) { long o = prec_; prec_ = p; return o; }
  long width() const { return 0; }
  long width(long) { return 0; }
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags) { return setf(f); }
  void unsetf(fmtflags f) { f_ &= ~f; }
  static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
 protected:
  long prec_ = 6; fmtflags f_ = 0;
};
typedef long streamsize; typedef long streamoff;

template <typename C, typename T> class basic_streambuf {
 public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long off_type; typedef long pos_type;
  basic_streambuf() { buf_.reserve(40); }   // (a short string keeps its characters where its capacity would be)
  virtual ~basic_streambuf() {}
  int_type sgetc() { return pos_ < buf_.size() ? (unsigned char)buf_[pos_] : -1; }
  int_type sbumpc() { return pos_ < buf_.size() ? (unsigned char)buf_[pos_++] : -1; }
  int_type snextc() { if (pos_ < buf_.size()) ++pos_; return sgetc(); }
  int_type sungetc() { if (pos_ == 0) return -1; return (unsigned char)buf_[--pos_]; }
  int_type sputc(C c) { buf_ += c; return (unsigned char)c; }
  streamsize sputn(const C* s, streamsize n) { buf_.append(s, n); return n; }
  streamsize sgetn(C* s, streamsize n) { streamsize k = 0; while (k < n && pos_ < buf_.size()) s[k++] = buf_[pos_++]; return k; }
  streamsize in_avail() { return buf_.size() - pos_; }
  virtual int pubsync() { return 0; }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode = 0) {
    long b = d == ios_base::beg ? 0 : d == ios_base::cur ? (long)pos_ : (long)buf_.size();
    return pubseekpos(b + o);
  }
  pos_type pubseekpos(pos_type p, ios_base::openmode = 0) { if (p < 0 || p > (long)buf_.size()) return -1; pos_ = p; return p; }
  string buf_; size_t pos_ = 0; bool err_ = false;   // err_: there are no characters because reading fails
};

template <typename C, typename T> class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type; typedef int int_type; typedef long pos_type; typedef long off_type;
  iostate rdstate() const { return st_; }
  void setstate(iostate s) { st_ |= s; if (!sb_) st_ |= badbit; }
  void clear(iostate s = goodbit) { st_ = s; if (!sb_) st_ |= badbit; }
  iostate endst() const { return sb_ && sb_->err_ ? badbit : eofbit; }
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (badbit | failbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  basic_streambuf<C, T>* rdbuf() const { return sb_; }
  basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = sb_; sb_ = b; clear(); return o; }
  C widen(char c) const { return c; }
  char narrow(C c, char) const { return c; }
  C fill() const { return ' '; }
  iostate exceptions() const { return 0; }
  void exceptions(iostate) {}
  basic_streambuf<C, T>* sb_ = nullptr;
  iostate st_ = 0;
};

template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
 public:
  typedef basic_istream Self;
  explicit basic_istream(basic_streambuf<C, T>* b) { this->sb_ = b; if (!b) this->st_ = ios_base::badbit; }
  class sentry { public: sentry(Self& i, bool noskip = false) { ok_ = i.prep(noskip); } explicit operator bool() const { return ok_; } bool ok_; };
  bool prep(bool noskip) {
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    if (!noskip) {
      int c = this->sb_->sgetc();
      while (c == ' ' || (c >= 9 && c <= 13)) c = this->sb_->snextc();
      if (c == -1) { this->setstate(this->endst() | ios_base::failbit); return false; }
    }
    return true;
  }
  int get() { cnt_ = 0; if (!prep(true)) return -1; int c = this->sb_->sbumpc(); if (c == -1) this->setstate(this->endst() | ios_base::failbit); else cnt_ = 1; return c; }
  Self& get(C& ch) { int c = get(); if (c != -1) ch = (C)c; return *this; }
  int peek() { cnt_ = 0; if (!prep(true)) return -1; int c = this->sb_->sgetc(); if (c == -1) this->setstate(this->endst()); return c; }
  Self& unget() { this->st_ &= ~ios_base::eofbit; if (prep(true) && this->sb_->sungetc() == -1) this->setstate(ios_base::badbit); return *this; }
  Self& putback(C) { return unget(); }
  Self& ignore(streamsize n = 1, int delim = -1) { cnt_ = 0; if (!prep(true)) return *this; while (n-- > 0) { int c = this->sb_->sbumpc(); if (c == -1) { this->setstate(this->endst()); break; } ++cnt_; if (delim != -1 && c == delim) break; } return *this; }
  Self& read(C* s, streamsize n) { cnt_ = 0; if (!prep(true)) return *this; cnt_ = this->sb_->sgetn(s, n); if (cnt_ != n) this->setstate(this->endst() | ios_base::failbit); return *this; }
  Self& getline(C* s, streamsize n, C delim = '\n') {
    cnt_ = 0; streamsize k = 0; if (n > 0) s[0] = 0; if (!prep(true)) return *this;
    for (;;) {
      int c = this->sb_->sgetc();
      if (c == -1) { this->setstate(this->endst()); break; }
      if ((C)c == delim) { this->sb_->sbumpc(); ++cnt_; break; }
      if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
      s[k++] = (C)c; this->sb_->sbumpc(); ++cnt_;
    }
    if (n > 0) s[k] = 0;
    if (cnt_ == 0) this->setstate(ios_base::failbit);
    return *this;
  }
  streamsize gcount() const { return cnt_; }
  long tellg() { if (this->fail()) return -1; return this->sb_->pos_; }
  Self& seekg(long p) { this->st_ &= ~ios_base::eofbit; if (!this->fail()) { if (this->sb_->pubseekpos(p) < 0) this->setstate(ios_base::failbit); } return *this; }
  Self& seekg(long o, ios_base::seekdir d) { this->st_ &= ~ios_base::eofbit; if (!this->fail()) { if (this->sb_->pubseekoff(o, d) < 0) this->setstate(ios_base::failbit); } return *this; }
  int sync() { return 0; }
  bool word(string* w) {
    w->clear(); if (!prep(false)) return false;
    int c = this->sb_->sgetc();
    while (c != -1 && !(c == ' ' || (c >= 9 && c <= 13))) { *w += (C)c; c = this->sb_->snextc(); }
    if (c == -1) this->setstate(this->endst());
    if (w->empty()) this->setstate(ios_base::failbit);
    return !w->empty();
  }
  Self& operator>>(double& d) { string w; if (word(&w)) d = __symio_strtod(w.c_str()); return *this; }
  Self& operator>>(float& d) { string w; if (word(&w)) d = __symio_strtof(w.c_str()); return *this; }
  template <class I> typename enable_if<is_integral<I>::value && (sizeof(I) > 1), Self&>::type operator>>(I& v) {
    string w; if (!word(&w)) return *this;
    long long r = 0; bool neg = w[0] == '-'; size_t i = (neg || w[0] == '+') ? 1 : 0; if (i == w.size()) this->setstate(ios_base::failbit);
    for (; i < w.size(); ++i) { if (w[i] < '0' || w[i] > '9') { this->setstate(ios_base::failbit); break; } r = r * 10 + (w[i] - '0'); }
    v = (I)(neg ? -r : r); return *this;
  }
  Self& operator>>(Self& (*f)(Self&)) { return f(*this); }
  streamsize cnt_ = 0;
 protected:
  basic_istream() {}
};
template <typename C, typename T> basic_istream<C, T>& operator>>(basic_istream<C, T>& is, C& c) { if (is.prep(false)) c = (C)is.sb_->sbumpc(); return is; }

template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
 public:
  typedef basic_ostream Self;
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->sb_ = b; if (!b) this->st_ = ios_base::badbit; }
  class sentry { public: sentry(Self& o) : o_(o) {} explicit operator bool() const { return o_.good(); } Self& o_; };
  Self& put(C c) { if (this->good()) this->sb_->sputc(c); return *this; }
  Self& write(const C* s, streamsize n) { if (this->good()) this->sb_->sputn(s, n); else this->setstate(ios_base::failbit); return *this; }
  Self& flush() { if (this->good() && this->sb_->pubsync() < 0) this->setstate(ios_base::badbit); return *this; }
  long tellp() { return this->fail() ? -1 : (long)this->sb_->buf_.size(); }
  // A floating-point number is written as the token \x01 followed by its eight bytes.
  Self& operator<<(double d) { char b[9]; b[0] = 1; memcpy(b + 1, &d, 8); return write(b, 9); }
  Self& operator<<(float f) { return *this << (double)f; }
  Self& operator<<(long double f) { return *this << (double)f; }
  Self& operator<<(bool b) { return put(b ? '1' : '0'); }
  template <class I> typename enable_if<is_integral<I>::value && (sizeof(I) > 1) && !is_same<I, bool>::value, Self&>::type operator<<(I v) {
    v = (I)__sym_concretize((uint64_t)v);
    string s = is_signed<I>::value && (long long)v < 0 ? __symio_num(0ull - (unsigned long long)(long long)v, true) : __symio_num((unsigned long long)v, false);
    return write(s.data(), s.size());
  }
  Self& operator<<(const void*) { return write("0x0", 3); }
  Self& operator<<(Self& (*f)(Self&)) { return f(*this); }
  Self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  Self& operator<<(basic_streambuf<C, T>* b) { if (!b) { this->setstate(ios_base::badbit); return *this; } size_t n = b->buf_.size() - b->pos_; if (n == 0) this->setstate(ios_base::failbit); write(b->buf_.data() + b->pos_, n); b->pos_ += n; return *this; }
 protected:
  basic_ostream() {}
};
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.write(s, strlen(s)); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.put(c); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { return o.put(c); }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { return o.put(c); }
template <typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n').flush(); }
template <typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
template <typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(0); }
template <typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { int c = i.sb_->sgetc(); while (c == ' ' || (c >= 9 && c <= 13)) c = i.sb_->snextc(); return i; }
inline ios_base& fixed(ios_base& b) { return b; }
inline ios_base& scientific(ios_base& b) { return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline ios_base& noskipws(ios_base& b) { return b; }
inline ios_base& skipws(ios_base& b) { return b; }
inline ios_base& hex(ios_base& b) { return b; }
inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& left(ios_base& b) { return b; }
inline ios_base& right(ios_base& b) { return b; }

template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
 public:
  explicit basic_iostream(basic_streambuf<C, T>* b) { this->sb_ = b; }
 protected:
  basic_iostream() {}
};

template <typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {
 public:
  ~basic_filebuf() { close(); }
  basic_filebuf* open(const string& n, ios_base::openmode m) {
    if (open_) return nullptr;
    this->err_ = false; if (__symfs_is_dir(n)) { if (m & ios_base::out) return nullptr; this->err_ = true; w_ = false; full_ = false; this->buf_ = string(); this->pos_ = 0; open_ = true; return this; }
    if (__symfs_is_full(n)) { if (!(m & ios_base::out)) return nullptr; full_ = true; name_ = n; w_ = true; this->buf_ = string(); this->pos_ = 0; open_ = true; return this; }
    string* f = __symfs_find(n); full_ = false;
    if (m & ios_base::out) {
      if (!f || !(m & (ios_base::app | ios_base::in))) f = __symfs_create(n);
      if (!f) return nullptr;
      name_ = n; w_ = true; this->buf_ = (m & ios_base::app) ? *f : string();
    } else {
      if (!f) return nullptr;
      this->buf_ = *f; w_ = false;
    }
    this->pos_ = 0; open_ = true; return this;
  }
  bool is_open() const { return open_; }
  basic_filebuf* close() { if (!open_) return nullptr; bool ok = sync(); open_ = false; return ok ? this : nullptr; }
  bool sync() { if (full_) return this->buf_.empty(); __put(); return true; }
  int pubsync() override { return sync() ? 0 : -1; }
  void __put() { if (open_ && w_) { string* f = __symfs_find(name_); if (f) *f = this->buf_; } }
  bool open_ = false, w_ = false, full_ = false; string name_;
};
#define STUB_FSTREAM(NAME, BASE, MODE)                                                         \
  template <typename C, typename T> class NAME : public BASE<C, T> {                           \
   public:                                                                                     \
    NAME() { this->sb_ = &fb_; this->st_ = 0; }                                                \
    explicit NAME(const char* n, ios_base::openmode m = MODE) { this->sb_ = &fb_; open(n, m); } \
    explicit NAME(const string& n, ios_base::openmode m = MODE) { this->sb_ = &fb_; open(n, m); } \
    void open(const string& n, ios_base::openmode m = MODE) { if (!fb_.open(n, m | (MODE & (ios_base::in | ios_base::out)))) this->setstate(ios_base::failbit); else this->clear(); } \
    void open(const char* n, ios_base::openmode m = MODE) { open(string(n), m); }              \
    bool is_open() const { return fb_.is_open(); }                                             \
    void close() { if (!fb_.close()) this->setstate(ios_base::failbit); }                      \
    basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&fb_); }      \
   private:                                                                                    \
    basic_filebuf<C, T> fb_;                                                                   \
  };
STUB_FSTREAM(basic_ifstream, basic_istream, ios_base::in)
STUB_FSTREAM(basic_ofstream, basic_ostream, ios_base::out)
STUB_FSTREAM(basic_fstream, basic_iostream, (ios_base::in | ios_base::out))
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> { public: string str() const { return this->buf_; } };
#define STUB_SSTREAM(NAME, BASE)                                                               \
  template <typename C, typename T, typename A> class NAME : public BASE<C, T> {               \
   public:                                                                                     \
    explicit NAME(ios_base::openmode = 0) { this->sb_ = &b_; }                                 \
    explicit NAME(const string& s, ios_base::openmode = 0) { this->sb_ = &b_; b_.buf_ = s; }   \
    string str() const { return b_.buf_; }                                                     \
    void str(const string& s) { b_.buf_ = s; b_.pos_ = 0; }                                    \
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } \
   private:                                                                                    \
    basic_stringbuf<C, T, A> b_;                                                               \
  };
STUB_SSTREAM(basic_istringstream, basic_istream)
STUB_SSTREAM(basic_ostringstream, basic_ostream)
STUB_SSTREAM(basic_stringstream, basic_iostream)
_GLIBCXX_END_NAMESPACE_CXX11

template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim);
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str);
extern ostream cout, cerr, clog;
extern istream cin;
struct __sp { long n; };
inline __sp setprecision(int n) { return __sp{n}; }
inline __sp setw(int n) { return __sp{n}; }
inline __sp setfill(char) { return __sp{0}; }
template <typename T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, __sp) { return o; }
}
#endif
