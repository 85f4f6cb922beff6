// Random draws are nondeterministic: draw k of a generator seeded with s is one arbitrary value of
// its range, the same one whenever the same (s, k) is drawn again.
#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H 1
#include <type_traits>
#include <limits>
#include "symx.h"
namespace std {
template <class G> struct __sym_gen_ok { static constexpr bool value = true; };
template <typename _IntType = int> class uniform_int_distribution {
 public:
  typedef _IntType result_type;
  struct param_type {
    typedef uniform_int_distribution distribution_type;
    param_type() : a_(0), b_(numeric_limits<_IntType>::max()) {}
    explicit param_type(_IntType a, _IntType b = numeric_limits<_IntType>::max()) : a_(a), b_(b) {}
    _IntType a() const { return a_; }
    _IntType b() const { return b_; }
    _IntType a_, b_;
  };
  uniform_int_distribution() {}
  explicit uniform_int_distribution(_IntType a, _IntType b = numeric_limits<_IntType>::max()) : p_(a, b) {}
  explicit uniform_int_distribution(const param_type& p) : p_(p) {}
  void reset() {}
  _IntType a() const { return p_.a_; }
  _IntType b() const { return p_.b_; }
  _IntType min() const { return p_.a_; }
  _IntType max() const { return p_.b_; }
  template <class G> _IntType operator()(G& g) { return (*this)(g, p_); }
  template <class G> _IntType operator()(G& g, const param_type& p) {
    if (p.b_ < p.a_) __sym_fatal("uniform_int_distribution over an empty range");
    uint64_t c = g.__next();
    return (_IntType)((uint64_t)p.a_ + __sym_draw_int(g.__id(), c, 0, (uint64_t)p.b_ - (uint64_t)p.a_));
  }
  param_type p_;
};
}
#endif
