// Stand-in for the external SQuIDS library (not available here): density matrices over a grid of nodes, evolved with GSL.
// Written from scratch for the checks in /verif.
#ifndef VERIF_SHIM_SQUIDS_SQUIDS_H
#define VERIF_SHIM_SQUIDS_SQUIDS_H
#include <algorithm>
#include <memory>
#include <vector>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_odeiv2.h>
#include <SQuIDS/SUNalg.h>
namespace squids {
class SQuIDS {
public:
  Const params;
protected:
  struct SU_state { std::unique_ptr<SU_vector[]> rho; double* scalar = nullptr; };
  std::vector<double> x;
  unsigned nx = 0, nsun = 0, nrhos = 0, nscalars = 0;
  std::unique_ptr<SU_state[]> state, estate;
private:
  std::unique_ptr<double[]> store;
  double t = 0, t_ini = 0;
  bool CoherentRhoTerms = false, NonCoherentRhoTerms = false, OtherRhoTerms = false, AnyNumerics = true, adaptive = true, is_init = false;
  unsigned nsteps = 1000;
  double h = std::numeric_limits<double>::epsilon(), h_min = 0, h_max = std::numeric_limits<double>::max(), abs_error = 1e-6, rel_error = 1e-6;
  gsl_odeiv2_step_type const* step = gsl_odeiv2_step_rkf45;
  size_t size() const { return (size_t)nx * nrhos * nsun * nsun; }
  void point(std::unique_ptr<SU_state[]>& s, double* p) {
    for (unsigned i = 0; i < nx; i++) for (unsigned r = 0; r < nrhos; r++) { s[i].rho[r] = SU_vector(); s[i].rho[r] = SU_vector(nsun, p + ((size_t)i * nrhos + r) * nsun * nsun); }
  }
  int derive(double at, const double* y, double* dy) {
    t = at; point(estate, const_cast<double*>(y)); PreDerive(at);
    for (unsigned i = 0; i < nx; i++) for (unsigned r = 0; r < nrhos; r++) {
      SU_vector d(nsun, dy + ((size_t)i * nrhos + r) * nsun * nsun); const SU_vector& v = estate[i].rho[r];
      d.SetAllComponents(0);
      if (CoherentRhoTerms) d += iCommutator(v, HI(i, r, at));
      if (NonCoherentRhoTerms) d -= ACommutator(GammaRho(i, r, at), v);
      if (OtherRhoTerms) d += InteractionsRho(i, r, at);
    }
    return GSL_SUCCESS;
  }
  static int rhs(double at, const double* y, double* dy, void* p) {
    SQuIDS* s = static_cast<SQuIDS*>(p);
    try { return s->derive(at, y, dy); } catch (...) { s->failure = std::current_exception(); return GSL_EBADFUNC; }
  }
  std::exception_ptr failure;
protected:
  void ini(unsigned n, unsigned dim, unsigned nr, unsigned ns, double ti) {
    nx = n; nsun = dim; nrhos = nr; nscalars = ns; t = t_ini = ti;
    x.resize(nx); store.reset(new double[std::max<size_t>(size(), 1)]());
    state.reset(new SU_state[nx]); estate.reset(new SU_state[nx]);
    for (unsigned i = 0; i < nx; i++) { state[i].rho.reset(new SU_vector[nrhos]); estate[i].rho.reset(new SU_vector[nrhos]); }
    point(state, store.get()); point(estate, store.get());
    is_init = true;
  }
  void Set_xrange(const std::vector<double>& v) {
    if (v.size() != nx) throw std::runtime_error("SQUIDS: wrong number of nodes");
    if (!std::is_sorted(v.begin(), v.end())) throw std::runtime_error("SQUIDS: nodes must be sorted");
    x = v;
  }
public:
  SQuIDS() {}
  SQuIDS(SQuIDS&& o) { *this = std::move(o); }
  SQuIDS& operator=(SQuIDS&& o) {
    if (&o == this) return *this;
    params = o.params; x = std::move(o.x); nx = o.nx; nsun = o.nsun; nrhos = o.nrhos; nscalars = o.nscalars; state = std::move(o.state); estate = std::move(o.estate); store = std::move(o.store);
    t = o.t; t_ini = o.t_ini; CoherentRhoTerms = o.CoherentRhoTerms; NonCoherentRhoTerms = o.NonCoherentRhoTerms; OtherRhoTerms = o.OtherRhoTerms; AnyNumerics = o.AnyNumerics; adaptive = o.adaptive;
    is_init = o.is_init; nsteps = o.nsteps; h = o.h; h_min = o.h_min; h_max = o.h_max; abs_error = o.abs_error; rel_error = o.rel_error; step = o.step; o.is_init = false; return *this;
  }
  SQuIDS(const SQuIDS&) = delete;
  virtual ~SQuIDS() {}
  virtual void PreDerive(double) {}
  virtual SU_vector H0(double, unsigned) const { return SU_vector(nsun); }
  virtual SU_vector HI(unsigned, unsigned, double) const { return SU_vector(nsun); }
  virtual SU_vector GammaRho(unsigned, unsigned, double) const { return SU_vector(nsun); }
  virtual double GammaScalar(unsigned, unsigned, double) const { return 0; }
  virtual SU_vector InteractionsRho(unsigned, unsigned, double) const { return SU_vector(nsun); }
  virtual double InteractionsScalar(unsigned, unsigned, double) const { return 0; }
  void Evolve(double dt) {
    if (!is_init) throw std::runtime_error("SQUIDS: not initialised");
    if (!AnyNumerics) { t += dt; PreDerive(t); return; }
    if (dt == 0) { PreDerive(t); return; }
    gsl_odeiv2_system sys = {rhs, nullptr, size(), this};
    gsl_error_handler_t* old = gsl_set_error_handler_off();
    gsl_odeiv2_driver* d = gsl_odeiv2_driver_alloc_y_new(&sys, step, h, abs_error, rel_error);
    gsl_odeiv2_driver_set_hmin(d, h_min); gsl_odeiv2_driver_set_hmax(d, h_max); gsl_odeiv2_driver_set_nmax(d, 0);
    double t0 = t, t1 = t + dt; failure = nullptr;
    int st = adaptive ? gsl_odeiv2_driver_apply(d, &t0, t1, store.get()) : gsl_odeiv2_driver_apply_fixed_step(d, &t0, dt / nsteps, nsteps, store.get());
    gsl_odeiv2_driver_free(d); gsl_set_error_handler(old);
    point(estate, store.get());
    if (failure) std::rethrow_exception(failure);
    if (st != GSL_SUCCESS) throw std::runtime_error("SQUIDS::Evolve: Error in GSL ODE solver (" + std::string(gsl_strerror(st)) + ")");
    t = t1; PreDerive(t);
  }
  double GetExpectationValue(const SU_vector& op, unsigned r, unsigned i) const {
    if (!state) throw std::runtime_error("SQUIDS: no state");
    return state[i].rho[r] * op.Evolve(H0(x[i], r), t - t_ini);
  }
  double GetExpectationValue(const SU_vector& op, unsigned r, unsigned i, double scale, std::vector<bool>& avr) const {
    SU_vector hh = H0(x[i], r); std::vector<double> b(hh.GetEvolveBufferSize()); hh.PrepareEvolve(b.data(), t - t_ini, scale, avr);
    return state[i].rho[r] * op.Evolve(b.data());
  }
  SU_vector GetIntermediateState(unsigned r, double xi) const {
    if (!state) throw std::runtime_error("SQUIDS: no state");
    auto it = std::lower_bound(x.begin(), x.end(), xi);
    if (it == x.end()) throw std::runtime_error("SQUIDS: x value not in the array");
    if (it != x.begin()) it--;
    size_t k = it - x.begin();
    if (nx == 1) return state[0].rho[r];
    double f2 = (xi - x[k]) / (x[k + 1] - x[k]), f1 = 1 - f2;
    return f1 * state[k].rho[r] + f2 * state[k + 1].rho[r];
  }
  double GetExpectationValueD(const SU_vector& op, unsigned r, double xi) const { return GetIntermediateState(r, xi) * op.Evolve(H0(xi, r), t - t_ini); }
  double GetExpectationValueD(const SU_vector& op, unsigned r, double xi, double scale, std::vector<bool>& avr) const {
    SU_vector hh = H0(xi, r); std::vector<double> b(hh.GetEvolveBufferSize()); hh.PrepareEvolve(b.data(), t - t_ini, scale, avr);
    return GetIntermediateState(r, xi) * op.Evolve(b.data());
  }
  void Set_CoherentRhoTerms(bool b) { CoherentRhoTerms = b; }
  void Set_NonCoherentRhoTerms(bool b) { NonCoherentRhoTerms = b; }
  void Set_OtherRhoTerms(bool b) { OtherRhoTerms = b; }
  void Set_AnyNumerics(bool b) { AnyNumerics = b; }
  void Set_GSL_step(gsl_odeiv2_step_type const* s) { step = s; }
  void Set_AdaptiveStep(bool b) { adaptive = b; }
  void Set_NumSteps(unsigned n) { nsteps = n; }
  void Set_h(double v) { h = v; }
  void Set_h_max(double v) { if (h_min > v) throw std::runtime_error("SQUIDS: h_min > h_max"); h_max = v; }
  void Set_h_min(double v) { h_min = v; }
  void Set_rel_error(double v) { rel_error = v; }
  void Set_abs_error(double v) { abs_error = v; }
  double Get_h() const { return h; }
  double Get_t() const { return t; }
  double Get_t_initial() const { return t_ini; }
  void Set_t(double v) { t = v; }
  const std::vector<double>& Get_xrange() const { return x; }
};
} // namespace squids
#endif
