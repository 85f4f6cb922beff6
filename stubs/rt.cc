// Guest-side runtime of the symbolic build: pieces of libstdc++/libc that live in shared libraries,
// written here as plain code so that the engine can execute them on symbolic data.
#include <google/protobuf/message.h>
#include <google/protobuf/stubs/status.h>
#include <condition_variable>
#include <thread>
#include "__prelude.h"
#include "symx.h"

extern "C" {
int pthread_once(int* o, void (*f)()) { static std::mutex m; std::lock_guard<std::mutex> l(m); if (!*o) { f(); *o = 1; } return 0; }
}
namespace std {
template class allocator<char>;
// ---- trees: red-black insertion; erase does not rebalance (same order and interface)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base* y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); }
    } else {
      _Rb_tree_node_base* y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z && h._M_right == z) { h._M_parent = nullptr; h._M_left = h._M_right = &h; return z; }
  if (h._M_left == z) h._M_left = inc(z);
  if (h._M_right == z) h._M_right = dec(z);
  auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_parent) h._M_parent->_M_color = _S_black;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
}
thread::_State::~_State() {}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
#if _GLIBCXX_USE_DUAL_ABI
__cow_string::__cow_string() {}
__cow_string::~__cow_string() {}
#endif
logic_error::logic_error(const char*) {}
logic_error::logic_error(const string&) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "std::logic_error"; }
runtime_error::runtime_error(const char*) {}
runtime_error::runtime_error(const string&) {}
runtime_error::runtime_error(const runtime_error&) noexcept {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "std::runtime_error"; }
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}

// ---- streams and the file table
__symfile* __symfs_head = nullptr;
// Links: only to /dev/full, the file every write to which fails.
static __symfile* __symfs_full = nullptr;
bool __symfs_is_full(const string& n) { if (n == "/dev/full") return true; for (__symfile* f = __symfs_full; f; f = f->next) if (f->name == n) return true; return false; }
static __symfile* __symfs_dirs = nullptr;
bool __symfs_is_dir(const string& n) { for (__symfile* f = __symfs_dirs; f; f = f->next) if (f->name == n) return true; return false; }
extern "C" int mkdir(const char* n, unsigned) { if (__symfs_find(n) || __symfs_is_dir(n)) return -1; __symfs_dirs = new __symfile{n, string(), __symfs_dirs}; return 0; }
extern "C" int symlink(const char* to, const char* at) { if (strcmp(to, "/dev/full") || __symfs_find(at) || __symfs_is_full(at)) return -1; __symfs_full = new __symfile{at, string(), __symfs_full}; return 0; }
string* __symfs_find(const string& n) { for (__symfile* f = __symfs_head; f; f = f->next) if (f->name == n) return &f->data; return nullptr; }
string* __symfs_create(const string& n) {
  if (string* s = __symfs_find(n)) { s->clear(); return s; }
  __symfs_head = new __symfile{n, string(), __symfs_head}; return &__symfs_head->data;
}
string __symio_num(unsigned long long v, bool neg) {
  char b[24]; int i = 24; do { b[--i] = '0' + v % 10; v /= 10; } while (v); if (neg) b[--i] = '-';
  return string(b + i, 24 - i);
}
float __symio_strtof(const char* s) { if (*s == 1) { double d; memcpy(&d, s + 1, 8); return (float)d; } return strtof(s, nullptr); }
double __symio_strtod(const char* s) { if (*s == 1) { double d; memcpy(&d, s + 1, 8); return d; } return strtod(s, nullptr); }
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str, char delim) {
  str.erase(); if (!in.prep(true)) return in;
  bool any = false;
  for (;;) {
    int c = in.sb_->sbumpc();
    if (c == -1) { in.setstate(in.sb_->err_ ? ios_base::badbit : ios_base::eofbit | (any ? 0 : ios_base::failbit)); break; }
    any = true; if ((char)c == delim) break;
    str += (char)c;
  }
  return in;
}
template basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& str);
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& str) { in.word(&str); return in; }
template basic_ostream<char>& operator<<(basic_ostream<char>& o, const basic_string<char>& s);
static struct __out { basic_streambuf<char, char_traits<char>> a, b, c, d; } __bufs;
ostream cout(&__bufs.a), cerr(&__bufs.b), clog(&__bufs.c);
istream cin(&__bufs.d);
}
namespace google { namespace protobuf { namespace util { const Status Status::OK; } } }
