#ifndef STUB_PB_MESSAGE_H_
#define STUB_PB_MESSAGE_H_
#include "__prelude.h"
#include <algorithm>
#include <iterator>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "symx.h"
namespace google { namespace protobuf {
typedef int32_t int32; typedef int64_t int64; typedef uint32_t uint32; typedef uint64_t uint64;
class Message {
 public:
  virtual ~Message() {}
  std::string DebugString() const { return "msg"; }
  std::string ShortDebugString() const { return "msg"; }
  virtual void Clear() {}
};
inline void PbIndex(int i, int n) { if (i < 0 || i >= n) __sym_fatal("protobuf repeated field index out of range"); }
template <class T> class RepeatedField {
 public:
  typedef typename std::vector<T>::iterator iterator;
  typedef typename std::vector<T>::const_iterator const_iterator;
  typedef T value_type;
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  const T& Get(int i) const { PbIndex(i, size()); return v_[i]; }
  const T& operator[](int i) const { return Get(i); }
  T& operator[](int i) { PbIndex(i, size()); return v_[i]; }
  T* Mutable(int i) { PbIndex(i, size()); return &v_[i]; }
  void Set(int i, const T& t) { PbIndex(i, size()); v_[i] = t; }
  void Add(const T& t) { v_.push_back(t); }
  template <class I> void Add(I b, I e) { v_.insert(v_.end(), b, e); }
  void Clear() { v_.clear(); }
  void Reserve(int n) { v_.reserve(n); }
  void RemoveLast() { v_.pop_back(); }
  void Truncate(int n) { v_.resize(n); }
  void SwapElements(int a, int b) { std::swap(v_[a], v_[b]); }
  iterator begin() { return v_.begin(); }
  iterator end() { return v_.end(); }
  const_iterator begin() const { return v_.begin(); }
  const_iterator end() const { return v_.end(); }
  const_iterator cbegin() const { return v_.begin(); }
  const_iterator cend() const { return v_.end(); }
  void Swap(RepeatedField* o) { v_.swap(o->v_); }
  void CopyFrom(const RepeatedField& o) { v_ = o.v_; }
  void MergeFrom(const RepeatedField& o) { v_.insert(v_.end(), o.v_.begin(), o.v_.end()); }
 private:
  std::vector<T> v_;
};
template <class T> class RepeatedPtrField {
  typedef std::vector<std::unique_ptr<T>> V;
  template <class P, class R> class It {
   public:
    typedef std::random_access_iterator_tag iterator_category;
    typedef T value_type; typedef ptrdiff_t difference_type; typedef R* pointer; typedef R& reference;
    It() {}
    explicit It(P p) : p_(p) {}
    template <class P2, class R2> It(const It<P2, R2>& o) : p_(o.raw()) {}
    R& operator*() const { return **p_; }
    R* operator->() const { return p_->get(); }
    R& operator[](difference_type n) const { return *p_[n]; }
    It& operator++() { ++p_; return *this; }
    It operator++(int) { It t = *this; ++p_; return t; }
    It& operator--() { --p_; return *this; }
    It operator--(int) { It t = *this; --p_; return t; }
    It& operator+=(difference_type n) { p_ += n; return *this; }
    It& operator-=(difference_type n) { p_ -= n; return *this; }
    It operator+(difference_type n) const { return It(p_ + n); }
    It operator-(difference_type n) const { return It(p_ - n); }
    difference_type operator-(const It& o) const { return p_ - o.p_; }
    bool operator==(const It& o) const { return p_ == o.p_; }
    bool operator!=(const It& o) const { return p_ != o.p_; }
    bool operator<(const It& o) const { return p_ < o.p_; }
    bool operator>(const It& o) const { return p_ > o.p_; }
    bool operator<=(const It& o) const { return p_ <= o.p_; }
    bool operator>=(const It& o) const { return p_ >= o.p_; }
    P raw() const { return p_; }
   private:
    P p_ = nullptr;
  };
 public:
  typedef It<std::unique_ptr<T>*, T> iterator;
  typedef It<const std::unique_ptr<T>*, const T> const_iterator;
  typedef T value_type;
  RepeatedPtrField() {}
  RepeatedPtrField(const RepeatedPtrField& o) { MergeFrom(o); }
  RepeatedPtrField(RepeatedPtrField&& o) : v_(std::move(o.v_)) {}
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { if (this != &o) CopyFrom(o); return *this; }
  RepeatedPtrField& operator=(RepeatedPtrField&& o) { if (this != &o) { v_.swap(o.v_); o.v_.clear(); } return *this; }
  int size() const { return (int)v_.size(); }
  bool empty() const { return v_.empty(); }
  const T& Get(int i) const { PbIndex(i, size()); return *v_[i]; }
  const T& operator[](int i) const { return Get(i); }
  T& operator[](int i) { PbIndex(i, size()); return *v_[i]; }
  const T& at(int i) const { return Get(i); }
  T* Mutable(int i) { PbIndex(i, size()); return v_[i].get(); }
  T* Add() { v_.emplace_back(new T()); return v_.back().get(); }
  void Add(T&& t) { v_.emplace_back(new T(std::move(t))); }
  void AddAllocated(T* t) { v_.emplace_back(t); }
  void Clear() { v_.clear(); }
  void Reserve(int n) { v_.reserve(n); }
  void RemoveLast() { v_.pop_back(); }
  void DeleteSubrange(int s, int n) { v_.erase(v_.begin() + s, v_.begin() + s + n); }
  void SwapElements(int a, int b) { v_[a].swap(v_[b]); }
  iterator begin() { return iterator(v_.data()); }
  iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  void Swap(RepeatedPtrField* o) { v_.swap(o->v_); }
  void CopyFrom(const RepeatedPtrField& o) { V n; for (const auto& p : o.v_) n.emplace_back(new T(*p)); v_.swap(n); }
  void MergeFrom(const RepeatedPtrField& o) { size_t n = o.v_.size(); for (size_t i = 0; i < n; ++i) v_.emplace_back(new T(*o.v_[i])); }
 private:
  V v_;
};
// Singular sub-message with lazily allocated storage.
template <class T> class SubMsg {
 public:
  SubMsg() {}
  SubMsg(const SubMsg& o) : p_(o.p_ ? new T(*o.p_) : nullptr) {}
  SubMsg(SubMsg&& o) : p_(o.p_) { o.p_ = nullptr; }
  ~SubMsg();
  SubMsg& operator=(const SubMsg& o) { if (this != &o) { T* n = o.p_ ? new T(*o.p_) : nullptr; delete p_; p_ = n; } return *this; }
  SubMsg& operator=(SubMsg&& o) { if (this != &o) { T* n = o.p_; o.p_ = nullptr; delete p_; p_ = n; } return *this; }
  T* p_ = nullptr;
};
template <class T> SubMsg<T>::~SubMsg() { delete p_; }
}}
#endif
