// Base and containers of the plain message classes of the encoding.
#pragma once
#include <cassert>
#include <initializer_list>
#include <string>
#include <vector>
namespace google {
namespace protobuf {
struct Message {
  std::string ShortDebugString() const { return "message"; }
  std::string DebugString() const { return "message"; }
};
template <class T>
struct RepeatedField {
  std::vector<T> v;
  typedef typename std::vector<T>::iterator iterator;
  typedef typename std::vector<T>::const_iterator const_iterator;
  typedef T value_type;
  RepeatedField() {}
  RepeatedField(std::initializer_list<T> l) : v(l) {}
  template <class I> RepeatedField(I b, I e) : v(b, e) {}
  int size() const { return (int)v.size(); }
  bool empty() const { return v.empty(); }
  // at(): what protobuf only checks in debug builds is an error here
  const T& Get(int i) const { return v.at((size_t)i); }
  const T& operator[](int i) const { return v.at((size_t)i); }
  T& operator[](int i) { return v.at((size_t)i); }
  T* Mutable(int i) { return &v.at((size_t)i); }
  void Set(int i, const T& x) { v.at((size_t)i) = x; }
  T* Add() { v.emplace_back(); return &v.back(); }
  void Add(const T& x) { v.push_back(x); }
  template <class I> void Add(I b, I e) { v.insert(v.end(), b, e); }
  template <class I> void Assign(I b, I e) { v.assign(b, e); }
  void Reserve(int n) { v.reserve(n); }
  void Resize(int n, const T& x) { v.resize(n, x); }
  void Clear() { v.clear(); }
  T* mutable_data() { return v.data(); }
  const T* data() const { return v.data(); }
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
};
template <class T>
struct RepeatedPtrField : RepeatedField<T> {
  // elements keep their addresses
  RepeatedPtrField() { this->v.reserve(16); }
};
}  // namespace protobuf
}  // namespace google
