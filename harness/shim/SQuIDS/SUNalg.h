// Stand-in for the external SQuIDS library (not available here): Hermitian operators of dimension d as d*d real components.
// Written from scratch for the checks in /verif.  Component i*d+i is the i-th diagonal entry; for i<j, component i*d+j is
// the real part and component j*d+i the imaginary part of entry (i,j).
#ifndef VERIF_SHIM_SQUIDS_SUNALG_H
#define VERIF_SHIM_SQUIDS_SUNALG_H
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <gsl/gsl_complex.h>
#include <gsl/gsl_eigen.h>
#include <SQuIDS/const.h>
#include <SQuIDS/version.h>
#define SQUIDS_MAX_HILBERT_DIM 6
#define SQUIDS_POINTER_IS_ALIGNED(p, a) do { if (((uintptr_t)(const void*)(p)) % (a)) throw std::logic_error("a pointer promised to be aligned is not"); } while (0)
#define SQUIDS_THREAD_LOCAL thread_local
namespace squids {
class SU_vector;
namespace detail {
enum { NoAlias = 1, EqualSizes = 2, AlignedStorage = 4 };
template <unsigned F, typename T> const T& guarantee(const T& t) { return t; }
}
class SU_vector {
  typedef std::complex<double> cx;
  unsigned dim; double* c; bool own;
  void alloc(unsigned d) { dim = d; own = true; c = d ? new double[d * d]() : nullptr; }
  void drop() { if (own) delete[] c; c = nullptr; dim = 0; own = true; }
  void same(const SU_vector& o) const { if (dim != o.dim) throw std::runtime_error("SU_vector: dimensions differ"); }
public:
  SU_vector() : dim(0), c(nullptr), own(true) {}
  explicit SU_vector(unsigned d) { if (d > SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("SU_vector: dimension too large"); alloc(d); }
  SU_vector(unsigned d, double* ext) : dim(d), c(ext), own(false) {}
  SU_vector(const SU_vector& o) { alloc(o.dim); std::copy(o.c, o.c + dim * dim, c); }
  SU_vector(SU_vector&& o) : dim(o.dim), c(o.c), own(o.own) { o.dim = 0; o.c = nullptr; o.own = true; }
  ~SU_vector() { drop(); }
  SU_vector& operator=(const SU_vector& o) {
    if (&o == this) return *this;
    if (dim != o.dim) { if (!own) throw std::runtime_error("SU_vector: external storage cannot be resized"); drop(); alloc(o.dim); }
    std::copy(o.c, o.c + dim * dim, c); return *this;
  }
  SU_vector& operator=(SU_vector&& o) {
    if (&o == this) return *this;
    if (!own && dim == o.dim && o.own) { std::copy(o.c, o.c + dim * dim, c); return *this; }
    drop(); dim = o.dim; c = o.c; own = o.own; o.dim = 0; o.c = nullptr; o.own = true; return *this;
  }
  unsigned Dim() const { return dim; }
  unsigned Size() const { return dim * dim; }
  double& operator[](unsigned i) { return c[i]; }
  double operator[](unsigned i) const { return c[i]; }
  void SetAllComponents(double v) { std::fill(c, c + dim * dim, v); }
  std::vector<double> GetComponents() const { return std::vector<double>(c, c + dim * dim); }
  static SU_vector Projector(unsigned d, unsigned i) { SU_vector v(d); if (i >= d) throw std::runtime_error("SU_vector: no such component"); v.c[i * d + i] = 1; return v; }
  static SU_vector Identity(unsigned d) { SU_vector v(d); for (unsigned i = 0; i < d; i++) v.c[i * d + i] = 1; return v; }
  cx at(unsigned i, unsigned j) const { return i == j ? cx(c[i * dim + i]) : i < j ? cx(c[i * dim + j], c[j * dim + i]) : cx(c[j * dim + i], -c[i * dim + j]); }
  void put(unsigned i, unsigned j, cx z) { if (i == j) c[i * dim + i] = z.real(); else if (i < j) { c[i * dim + j] = z.real(); c[j * dim + i] = z.imag(); } }
  SU_vector& operator+=(const SU_vector& o) { same(o); for (unsigned i = 0; i < dim * dim; i++) c[i] += o.c[i]; return *this; }
  SU_vector& operator-=(const SU_vector& o) { same(o); for (unsigned i = 0; i < dim * dim; i++) c[i] -= o.c[i]; return *this; }
  SU_vector& operator*=(double x) { for (unsigned i = 0; i < dim * dim; i++) c[i] *= x; return *this; }
  SU_vector operator+(const SU_vector& o) const { SU_vector r(*this); r += o; return r; }
  SU_vector operator-(const SU_vector& o) const { SU_vector r(*this); r -= o; return r; }
  SU_vector operator-() const { SU_vector r(*this); r *= -1; return r; }
  SU_vector operator*(double x) const { SU_vector r(*this); r *= x; return r; }
  friend SU_vector operator*(double x, const SU_vector& v) { return v * x; }
  double operator*(const SU_vector& o) const { // trace of the product
    same(o); double s = 0;
    for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) s += (i == j ? 1 : 2) * c[i * dim + j] * o.c[i * dim + j];
    return s;
  }
  // conjugation by a unitary: u^dagger v u
  SU_vector conj(const std::vector<cx>& u) const {
    SU_vector r(dim); unsigned d = dim;
    std::vector<cx> t(d * d);
    for (unsigned i = 0; i < d; i++) for (unsigned j = 0; j < d; j++) { cx s = 0; for (unsigned k = 0; k < d; k++) s += at(i, k) * u[k * d + j]; t[i * d + j] = s; }
    for (unsigned i = 0; i < d; i++) for (unsigned j = i; j < d; j++) { cx s = 0; for (unsigned k = 0; k < d; k++) s += std::conj(u[k * d + i]) * t[k * d + j]; r.put(i, j, s); }
    return r;
  }
  // from flavour to mass coordinates
  void RotateToB1(const Const& p) {
    auto U = p.GetTransformationMatrix(dim); std::vector<cx> u(dim * dim);
    for (unsigned i = 0; i < dim; i++) for (unsigned j = 0; j < dim; j++) { gsl_complex z = gsl_matrix_complex_get(U.get(), i, j); u[i * dim + j] = cx(GSL_REAL(z), GSL_IMAG(z)); }
    *this = conj(u);
  }
  // exp(iHt) v exp(-iHt) for a diagonal H (this vector), prepared as cosines and sines of the pairwise phases
  size_t GetEvolveBufferSize() const { return dim * dim; }
  template <typename F> void phases(double* b, double t, F f) const {
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++) { double w = (c[i * dim + i] - c[j * dim + j]) * t, s = f(w); b[i * dim + j] = s * std::cos(w); b[j * dim + i] = s * std::sin(w); }
    for (unsigned i = 0; i < dim; i++) b[i * dim + i] = 1;
  }
  void PrepareEvolve(double* b, double t) const { phases(b, t, [](double) { return 1.0; }); }
  // fast oscillations (phase above the scale) are averaged out; avr tells which ones were
  void PrepareEvolve(double* b, double t, double scale, std::vector<bool>& avr) const {
    std::fill(avr.begin(), avr.end(), false); unsigned i0 = 0; (void)i0;
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++) {
      double w = (c[i * dim + i] - c[j * dim + j]) * t; bool a = std::fabs(w) > scale; if (a && j < avr.size()) avr[j] = true;
      b[i * dim + j] = a ? 0 : std::cos(w); b[j * dim + i] = a ? 0 : std::sin(w); }
    for (unsigned i = 0; i < dim; i++) b[i * dim + i] = 1;
  }
  void LowPassFilter(double* b, double cutoff, double scale) const {
    for (unsigned i = 0; i < dim; i++) for (unsigned j = i + 1; j < dim; j++) {
      double f = std::fabs(c[i * dim + i] - c[j * dim + j]), k = f <= cutoff - scale ? 1 : f >= cutoff ? 0 : (cutoff - f) / scale;
      b[i * dim + j] *= k; b[j * dim + i] *= k; }
  }
  SU_vector Evolve(const double* b) const {
    SU_vector r(dim);
    for (unsigned i = 0; i < dim; i++) { r.c[i * dim + i] = c[i * dim + i]; for (unsigned j = i + 1; j < dim; j++) r.put(i, j, at(i, j) * cx(b[i * dim + j], b[j * dim + i])); }
    return r;
  }
  SU_vector Evolve(const SU_vector& H0, double t) const { std::vector<double> b(H0.GetEvolveBufferSize()); H0.PrepareEvolve(b.data(), t); return Evolve(b.data()); }
  // exp(-c H) v exp(-c H)^dagger, for imaginary c (forward evolution by the time Im c)
  SU_vector UTransform(const SU_vector& H, gsl_complex z) const {
    same(H); unsigned d = dim;
    gsl_matrix_complex* M = gsl_matrix_complex_alloc(d, d); gsl_matrix_complex* V = gsl_matrix_complex_alloc(d, d);
    gsl_vector* e = gsl_vector_alloc(d); gsl_eigen_hermv_workspace* w = gsl_eigen_hermv_alloc(d);
    for (unsigned i = 0; i < d; i++) for (unsigned j = 0; j < d; j++) { cx h = H.at(i, j); gsl_matrix_complex_set(M, i, j, gsl_complex_rect(h.real(), h.imag())); }
    gsl_eigen_hermv(M, e, V, w);
    std::vector<cx> u(d * d);
    for (unsigned i = 0; i < d; i++) for (unsigned j = 0; j < d; j++) { cx s = 0; for (unsigned k = 0; k < d; k++) {
      gsl_complex a = gsl_matrix_complex_get(V, i, k), b = gsl_matrix_complex_get(V, j, k);
      s += cx(GSL_REAL(a), GSL_IMAG(a)) * std::exp(cx(GSL_REAL(z), GSL_IMAG(z)) * gsl_vector_get(e, k)) * std::conj(cx(GSL_REAL(b), GSL_IMAG(b))); } u[i * d + j] = s; }
    gsl_matrix_complex_free(M); gsl_matrix_complex_free(V); gsl_vector_free(e); gsl_eigen_hermv_free(w);
    return conj(u); // u = exp(+iHt): u^dagger v u
  }
  friend std::ostream& operator<<(std::ostream& os, const SU_vector& v) { for (unsigned i = 0; i < v.dim * v.dim; i++) os << v.c[i] << ' '; return os; }
};
inline SU_vector ACommutator(const SU_vector& a, const SU_vector& b) {
  unsigned d = a.Dim(); SU_vector r(d);
  for (unsigned i = 0; i < d; i++) for (unsigned j = i; j < d; j++) { std::complex<double> s = 0; for (unsigned k = 0; k < d; k++) s += a.at(i, k) * b.at(k, j) + b.at(i, k) * a.at(k, j); r.put(i, j, s); }
  return r;
}
inline SU_vector iCommutator(const SU_vector& a, const SU_vector& b) {
  unsigned d = a.Dim(); SU_vector r(d);
  for (unsigned i = 0; i < d; i++) for (unsigned j = i; j < d; j++) { std::complex<double> s = 0; for (unsigned k = 0; k < d; k++) s += a.at(i, k) * b.at(k, j) - b.at(i, k) * a.at(k, j); r.put(i, j, std::complex<double>(0, 1) * s); }
  return r;
}
inline double SUTrace(const SU_vector& a, const SU_vector& b) { return a * b; }
template <unsigned F> double SUTrace(const SU_vector& a, const SU_vector& b) { return a * b; }
} // namespace squids
#endif
