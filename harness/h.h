// Shared by every harness: CML objects of every storage kind loaded from plain
// arrays, and results written back to plain arrays.  Only analysed, never run.
#pragma once
#include <cml/cml.h>
#include <cml/mathlib/mathlib.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
#include <utility>
#include <cmath>
#include <cstddef>
using namespace cml;

template<int N> using in = const double (&)[N];
template<int N> using out = double (&)[N];

struct bad_shape { int r, c; };
struct bad_size { int n; };

// marks memory that must be unchanged if the call that follows throws
extern "C" void vf_watch(const void* p, std::size_t n);
template<class V> inline void watch(const V& v) {
  vf_watch(&v, sizeof(v));
  if constexpr(cml::is_matrix<V>::value) vf_watch(v.data(), sizeof(*v.data())*std::size_t(v.rows()*v.cols()));
  else vf_watch(v.data(), sizeof(*v.data())*std::size_t(v.size()));
}

// what a variable held before the call: any number
extern "C" double vf_any(int k) __attribute__((const));
#define VF_ANY2 vf_any(0),vf_any(1)
#define VF_ANY3 VF_ANY2,vf_any(2)
#define VF_ANY4 VF_ANY3,vf_any(3)
#define VF_ANY9 VF_ANY4,vf_any(4),vf_any(5),vf_any(6),vf_any(7),vf_any(8)
// marks memory that nothing may write until vf_thaw
extern "C" void vf_freeze(const void* p, std::size_t n);
extern "C" void vf_thaw();
template<class V> inline void freeze(const V& v) {
  vf_freeze(&v, sizeof(v));
  if constexpr(cml::is_matrix<V>::value) vf_freeze(v.data(), sizeof(*v.data())*std::size_t(v.rows()*v.cols()));
  else vf_freeze(v.data(), sizeof(*v.data())*std::size_t(v.size()));
}

// ---- storage kinds
struct KF {};   // compiled (fixed)
struct KD {};   // dynamic
struct KE {};   // external, fixed size
struct KX {};   // external, run-time size
struct KC {};   // const external, fixed size
struct KY {};   // const external, run-time size

template<class K, class E, int N> struct vec;
template<class E, int N> struct vec<KF, E, N> {
  using type = vector<E, compiled<N>>; type v;
  template<class S> explicit vec(const S (&a)[N]) { for(int i = 0; i < N; ++i) v.put(i, E(a[i])); }
};
template<class E, int N> struct vec<KD, E, N> {
  using type = vector<E, dynamic<>>; type v;
  template<class S> explicit vec(const S (&a)[N]) : v(N) { for(int i = 0; i < N; ++i) v.put(i, E(a[i])); }
};
template<class E, int N> struct vec<KE, E, N> {
  using type = vector<E, external<N>>; E d[N]; type v;
  template<class S> explicit vec(const S (&a)[N]) : v(d) { for(int i = 0; i < N; ++i) d[i] = E(a[i]); }
  vec(const vec&) = delete;
};
template<class E, int N> struct vec<KX, E, N> {
  using type = vector<E, external<>>; E d[N]; type v;
  template<class S> explicit vec(const S (&a)[N]) : v(d, N) { for(int i = 0; i < N; ++i) d[i] = E(a[i]); }
  vec(const vec&) = delete;
};
template<class E, int N> struct vec<KC, E, N> {
  using type = vector<const E, external<N>>; E d[N]; type v;
  template<class S> explicit vec(const S (&a)[N]) : v(d) { for(int i = 0; i < N; ++i) d[i] = E(a[i]); }
  vec(const vec&) = delete;
};
template<class E, int N> struct vec<KY, E, N> {
  using type = vector<const E, external<>>; E d[N]; type v;
  template<class S> explicit vec(const S (&a)[N]) : v(d, N) { for(int i = 0; i < N; ++i) d[i] = E(a[i]); }
  vec(const vec&) = delete;
};

template<class K, class E, int R, int C, class B = row_basis, class L = row_major> struct mat;
template<class E, int R, int C, class B, class L> struct mat<KF, E, R, C, B, L> {
  using type = matrix<E, compiled<R, C>, B, L>; type v;
  template<class S> explicit mat(const S (&a)[R*C]) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) v.put(i, j, E(a[i*C+j])); }
};
template<class E, int R, int C, class B, class L> struct mat<KD, E, R, C, B, L> {
  using type = matrix<E, dynamic<>, B, L>; type v;
  template<class S> explicit mat(const S (&a)[R*C]) : v(R, C) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) v.put(i, j, E(a[i*C+j])); }
};
template<class L, int R, int C> constexpr int lpos(int i, int j) { return std::is_same<L, row_major>::value ? i*C+j : j*R+i; }
template<class E, int R, int C, class B, class L> struct mat<KE, E, R, C, B, L> {
  using type = matrix<E, external<R, C>, B, L>; E d[R*C]; type v;
  template<class S> explicit mat(const S (&a)[R*C]) : v(d) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) d[lpos<L,R,C>(i,j)] = E(a[i*C+j]); }
  mat(const mat&) = delete;
};
template<class E, int R, int C, class B, class L> struct mat<KX, E, R, C, B, L> {
  using type = matrix<E, external<>, B, L>; E d[R*C]; type v;
  template<class S> explicit mat(const S (&a)[R*C]) : v(d, R, C) { for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) d[lpos<L,R,C>(i,j)] = E(a[i*C+j]); }
  mat(const mat&) = delete;
};

// quaternions: arrays are always in (w, x, y, z) order
template<class E, class O = imaginary_first, class X = positive_cross> struct quat {
  using type = quaternion<E, fixed<>, O, X>; type v;
  static constexpr int W = std::is_same<O, real_first>::value ? 0 : 3;
  static constexpr int I = std::is_same<O, real_first>::value ? 1 : 0;
  template<class S> explicit quat(const S (&a)[4]) { v[W] = E(a[0]); for(int k = 0; k < 3; ++k) v[I+k] = E(a[1+k]); }
};

// ---- results
template<int N, class T, class V> inline void emitv(T (&o)[N], const V& v) {
  if(v.size() != N) throw bad_size{v.size()};
  for(int i = 0; i < N; ++i) o[i] = T(v.get(i));
}
template<int R, int C, class T, class Q> inline void emitm(T (&o)[R*C], const Q& m) {
  if(m.rows() != R || m.cols() != C) throw bad_shape{m.rows(), m.cols()};
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) o[i*C+j] = T(m.get(i, j));
}
// element j of basis vector i at o[i*C+j]: R and C are the shape of the row-basis form
template<int R, int C, class T, class Q> inline void emitb(T (&o)[R*C], const Q& m) {
  constexpr bool rb = std::is_same<typename cml::matrix_traits<Q>::basis_tag, row_basis>::value;
  if((rb ? m.rows() : m.cols()) != R || (rb ? m.cols() : m.rows()) != C) throw bad_shape{m.rows(), m.cols()};
  for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) o[i*C+j] = T(rb ? m.get(i, j) : m.get(j, i));
}
template<class T, class Q> inline void emitq(T (&o)[4], const Q& q) {
  using O = typename Q::order_type;
  const int W = std::is_same<O, real_first>::value ? 0 : 3;
  const int I = std::is_same<O, real_first>::value ? 1 : 0;
  o[0] = T(q.get(W));
  for(int k = 0; k < 3; ++k) o[1+k] = T(q.get(I+k));
}
