// Stand-in for the external SQuIDS library (not available here): physical units and constants with the interface
// nuSQuIDS uses.  Written from scratch for the checks in /verif; natural units, in powers of eV.
#ifndef VERIF_SHIM_SQUIDS_CONST_H
#define VERIF_SHIM_SQUIDS_CONST_H
#include <cmath>
#include <map>
#include <memory>
#include <stdexcept>
#include <utility>
#include <vector>
#include <gsl/gsl_complex.h>
#include <gsl/gsl_complex_math.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_blas.h>
namespace squids {
class Const {
public:
  typedef std::pair<unsigned, unsigned> key;
  double pi = 3.14159265358979323846, piby2 = 1.57079632679489661923, sqrt2 = 1.41421356237309504880, ln2 = 0.69314718055994530942;
  double degree = pi / 180.0, radian = 1.0, deg = degree, rad = radian;
  // energies
  double EeV = 1.0e18, PeV = 1.0e15, TeV = 1.0e12, GeV = 1.0e9, MeV = 1.0e6, keV = 1.0e3, eV = 1.0, Joule = 1 / 1.60225e-19;
  // masses
  double kg = 5.62e35, gr = 1e-3 * kg;
  // time and length
  double sec = 1.523e15, hour = 3600.0 * sec, day = 24.0 * hour, year = 365.0 * day;
  double meter = 5.06773093741e6, cm = 1.0e-2 * meter, km = 1.0e3 * meter, fermi = 1.0e-15 * meter, angstrom = 1.0e-10 * meter, AU = 149.60e9 * meter,
         parsec = 3.08568025e16 * meter, kparsec = 1.0e3 * parsec, Mparsec = 1.0e6 * parsec, ly = 9.4605284e15 * meter;
  // cross sections
  double picobarn = 1.0e-36 * cm * cm, femtobarn = 1.0e-39 * cm * cm, barn = 1.0e-24 * cm * cm, pb = picobarn, fb = femtobarn;
  // pressure, temperature, electromagnetism
  double Pascal = 1.0, hPascal = 100.0 * Pascal, atm = 101325.0 * Pascal, psi = 6893.0 * Pascal;
  double Kelvin = 1 / 1.1604505e4;
  double C = 6.24150965e18, A = C / sec, T = kg / (A * sec * sec);
  // constants
  double GF = 1.16639e-23, Na = 6.0221415e+23, sw_sq = 0.2312, G = 6.67300e-11, alpha = 1.0 / 137.0, e_charge = std::sqrt(4. * pi * alpha), Gauss = 1.e-4 * T,
         proton_mass = 938.272 * MeV, neutron_mass = 939.565 * MeV, electron_mass = 0.5110 * MeV, muon_mass = 105.658369 * MeV, muon_lifetime = 2.196981e-6 * sec,
         tau_mass = 1776.82 * MeV, tau_lifetime = 2.906e-13 * sec;
  int electron = 0, muon = 1, tau = 2, sterile1 = 3, sterile2 = 4, sterile3 = 5;

  Const() {}
  static key ordered(unsigned i, unsigned j) { if (j < i) std::swap(i, j); if (i == j) throw std::runtime_error("Const: indices must differ"); return key(i, j); }
  static void bound(unsigned i) { if (i > 5) throw std::runtime_error("Const: index beyond the largest dimension"); }
  void SetMixingAngle(unsigned i, unsigned j, double a) { bound(i); bound(j); if (j <= i) throw std::runtime_error("Const: mixing angle indices must be increasing"); th_[key(i, j)] = a; }
  double GetMixingAngle(unsigned i, unsigned j) const { bound(i); bound(j); if (j <= i) throw std::runtime_error("Const: mixing angle indices must be increasing"); return get(th_, key(i, j)); }
  void SetPhase(unsigned i, unsigned j, double a) { bound(i); bound(j); if (j <= i) throw std::runtime_error("Const: phase indices must be increasing"); dcp_[key(i, j)] = a; }
  double GetPhase(unsigned i, unsigned j) const { bound(i); bound(j); if (j <= i) throw std::runtime_error("Const: phase indices must be increasing"); return get(dcp_, key(i, j)); }
  void SetEnergyDifference(unsigned i, double d) { bound(i); if (i == 0) throw std::runtime_error("Const: the first state is the reference"); de_[i] = d; }
  double GetEnergyDifference(unsigned i) const { bound(i); if (i == 0) throw std::runtime_error("Const: the first state is the reference"); auto it = de_.find(i); return it == de_.end() ? 0.0 : it->second; }

  struct deleter { void operator()(gsl_matrix_complex* m) const { gsl_matrix_complex_free(m); } };
  typedef std::unique_ptr<gsl_matrix_complex, void (*)(gsl_matrix_complex*)> matrix_ptr;
  // U = prod over j descending, i descending of complex rotations R_ij, so that U = ... R_23 R_13 R_12 in the usual order
  matrix_ptr GetTransformationMatrix(unsigned n) const {
    gsl_matrix_complex* U = gsl_matrix_complex_alloc(n, n);
    gsl_matrix_complex_set_identity(U);
    gsl_matrix_complex* R = gsl_matrix_complex_alloc(n, n);
    gsl_matrix_complex* M = gsl_matrix_complex_alloc(n, n);
    for (unsigned j = 1; j < n; j++)
      for (unsigned i = 0; i < j; i++) {
        double t = get(th_, key(i, j)), d = get(dcp_, key(i, j));
        gsl_matrix_complex_set_identity(R);
        gsl_matrix_complex_set(R, i, i, gsl_complex_rect(std::cos(t), 0));
        gsl_matrix_complex_set(R, j, j, gsl_complex_rect(std::cos(t), 0));
        gsl_matrix_complex_set(R, i, j, gsl_complex_polar(std::sin(t), -d));
        gsl_matrix_complex_set(R, j, i, gsl_complex_negative(gsl_complex_polar(std::sin(t), d)));
        gsl_blas_zgemm(CblasNoTrans, CblasNoTrans, gsl_complex_rect(1, 0), R, U, gsl_complex_rect(0, 0), M);
        gsl_matrix_complex_memcpy(U, M);
      }
    gsl_matrix_complex_free(R); gsl_matrix_complex_free(M);
    return matrix_ptr(U, gsl_matrix_complex_free);
  }
private:
  static double get(const std::map<key, double>& m, key k) { auto it = m.find(k); return it == m.end() ? 0.0 : it->second; }
  std::map<key, double> th_, dcp_;
  std::map<unsigned, double> de_;
};
} // namespace squids
#endif
