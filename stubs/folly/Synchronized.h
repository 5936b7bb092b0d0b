#pragma once
#include <mutex>
namespace folly {
template <class T> class Synchronized {
  T v_; mutable std::mutex m_;
 public:
  template <class... A> explicit Synchronized(A&&... a) : v_(std::forward<A>(a)...) {}
  struct Locked { T* p; std::unique_lock<std::mutex> l; T* operator->() { return p; } T& operator*() { return *p; } };
  Locked wlock() { return Locked{&v_, std::unique_lock<std::mutex>(m_)}; }
  Locked rlock() { return wlock(); }
  template <class F> auto withWLock(F f) { std::unique_lock<std::mutex> l(m_); return f(v_); }
  template <class F> auto withRLock(F f) { return withWLock(f); }
};
}
