// N01-N05 driver: one command per line on stdin, one JSON object per line on stdout.
#include <cstdint>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_complex_math.h>
#include <nuSQuIDS/tools.h>
#include <nuSQuIDS/AdaptiveQuad.h>
using namespace nusquids;
typedef std::vector<double> V;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string h(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
template <class C> static std::string hs(const C& c) { std::string o = "["; bool f = true; size_t n = 0; for (double d : c) { if (++n > 5000) break; if (!f) o += ","; f = false; o += h(d); } return o + "]"; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }
static V rdn(std::istream& is, size_t n) { V v; for (size_t i = 0; i < n; i++) v.push_back(rd(is)); return v; }
static marray<double, 1> ma(const V& v) { marray<double, 1> a({v.size()}); std::copy(v.begin(), v.end(), a.begin()); return a; }

struct PP { // piecewise polynomial integrand, with a log of where it was evaluated
  V brk; std::vector<V> c; double sh = 0; double lo = std::numeric_limits<double>::infinity(), hi = -lo; long n = 0, na = 0, nb = 0; double a = 0, b = 0; std::vector<double> at;
  void read(std::istream& is) { size_t k; is >> k; brk = rdn(is, k); sh = rd(is); for (size_t i = 0; i <= k; i++) { size_t d; is >> d; c.push_back(rdn(is, d)); } }
  double f(double x) const { size_t s = 0; while (s < brk.size() && x >= brk[s]) s++; double r = 0; double t = x - sh; for (size_t i = c[s].size(); i > 0; i--) r = r * t + c[s][i - 1]; return r; }
  double operator()(double x) { n++; if (!(x >= lo)) lo = x; if (!(x <= hi)) hi = x; if (x == a) na++; if (x == b) nb++; return f(x); }
};

int main() {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  gsl_set_error_handler_off();
  std::unique_ptr<AkimaSpline> sp; std::unique_ptr<BiCubicInterpolator> bi; std::unique_ptr<TriCubicInterpolator> tri;
  std::string line;
  while (std::getline(std::cin, line)) { alarm(25);
    std::istringstream is(line); std::string op; is >> op; std::string o;
    try {
      if (op == "spline") { // how nx ny x.. y..
        int how; size_t nx, ny; is >> how >> nx >> ny; V x = rdn(is, nx), y = rdn(is, ny);
        if (how == 0) sp.reset(new AkimaSpline(x.data(), y.data(), nx));
        else if (how == 1) sp.reset(new AkimaSpline(x, y));
        else { if (!sp) sp.reset(new AkimaSpline()); sp->initialize(x.data(), y.data(), nx); }
        o = "{\"r\":\"ok\"}";
      } else if (op == "seval") { double x = rd(is); const AkimaSpline& s = *sp; o = "{\"r\":\"ok\",\"v\":" + h(s(x)) + "}"; }
      else if (op == "sget") { const AkimaSpline& s = *sp; size_t n; is >> n; marray<double, 1> d({n}); s.getAbscissaDerivatives(d);
        o = "{\"r\":\"ok\",\"x\":" + hs(s.getAbscissas()) + ",\"y\":" + hs(s.getOrdinates()) + ",\"d\":" + hs(s.getAbscissaDerivatives()) + ",\"d2\":" + hs(d) + "}"; }
      else if (op == "bi") { size_t ny, nx, cx, cy; is >> ny >> nx >> cx >> cy; marray<double, 2> d({ny, nx}); for (auto& q : d) q = rd(is); V xs = rdn(is, cx), ys = rdn(is, cy);
        bi.reset(new BiCubicInterpolator(d, ma(xs), ma(ys))); o = "{\"r\":\"ok\"}"; }
      else if (op == "beval") { double x = rd(is), y = rd(is); const BiCubicInterpolator& b = *bi; o = "{\"r\":\"ok\",\"v\":" + h(b(x, y)) + "}"; }
      else if (op == "bmove") { BiCubicInterpolator t(*bi); BiCubicInterpolator m(std::move(*bi)); *bi = BiCubicInterpolator(); double e = (*bi)(1, 2); *bi = std::move(m); o = "{\"r\":\"ok\",\"v\":" + h(e) + "}"; }
      else if (op == "bget") { o = "{\"r\":\"ok\",\"d\":" + hs(bi->getData()) + ",\"x\":" + hs(bi->getXCoords()) + ",\"y\":" + hs(bi->getYCoords()) + "}"; }
      else if (op == "tri") { size_t nz, ny, nx, cx, cy, cz; is >> nz >> ny >> nx >> cx >> cy >> cz; marray<double, 3> d({nz, ny, nx}); for (auto& q : d) q = rd(is); V xs = rdn(is, cx), ys = rdn(is, cy), zs = rdn(is, cz);
        tri.reset(new TriCubicInterpolator(d, ma(xs), ma(ys), ma(zs))); o = "{\"r\":\"ok\"}"; }
      else if (op == "teval") { double x = rd(is), y = rd(is), z = rd(is); const TriCubicInterpolator& t = *tri; o = "{\"r\":\"ok\",\"v\":" + h(t(x, y, z)) + "}"; }
      else if (op == "lin" || op == "log") { double a = rd(is), b = rd(is); unsigned n; is >> n; auto p = op == "lin" ? linspace(a, b, n) : logspace(a, b, n);
        o = "{\"r\":\"ok\",\"n\":" + std::to_string(p.size()) + ",\"p\":" + hs(p) + "}"; }
      else if (op == "conj" || op == "umuc" || op == "ucmu") { // rows cols pad, then entries (U then M)
        size_t r, c, pad; is >> r >> c >> pad; 
        gsl_matrix_complex* big = gsl_matrix_complex_alloc(r + 2 * pad, c + 2 * pad + (pad ? 1 : 0));
        for (size_t i = 0; i < big->size1; i++) for (size_t j = 0; j < big->size2; j++) gsl_matrix_complex_set(big, i, j, gsl_complex_rect(1000.0 + i, 2000.0 + j));
        gsl_matrix_complex_view mv = gsl_matrix_complex_submatrix(big, pad, pad, r, c);
        gsl_matrix_complex* U = nullptr;
        auto fill = [&](gsl_matrix_complex* m) { for (size_t i = 0; i < m->size1; i++) for (size_t j = 0; j < m->size2; j++) { double a = rd(is), b = rd(is); gsl_matrix_complex_set(m, i, j, gsl_complex_rect(a, b)); } };
        auto dump = [&](gsl_matrix_complex* m) { V v; for (size_t i = 0; i < m->size1; i++) for (size_t j = 0; j < m->size2; j++) { gsl_complex z = gsl_matrix_complex_get(m, i, j); v.push_back(GSL_REAL(z)); v.push_back(GSL_IMAG(z)); } return hs(v); };
        if (op != "conj") { U = gsl_matrix_complex_alloc(r, r); fill(U); }
        fill(&mv.matrix);
        if (op == "conj") gsl_matrix_complex_conjugate(&mv.matrix); else if (op == "umuc") gsl_matrix_complex_change_basis_UMUC(U, &mv.matrix); else gsl_matrix_complex_change_basis_UCMU(U, &mv.matrix);
        bool padok = true;
        for (size_t i = 0; i < big->size1; i++) for (size_t j = 0; j < big->size2; j++) if (i < pad || i >= pad + r || j < pad || j >= pad + c) { gsl_complex z = gsl_matrix_complex_get(big, i, j); padok = padok && GSL_REAL(z) == 1000.0 + i && GSL_IMAG(z) == 2000.0 + j; }
        o = "{\"r\":\"ok\",\"m\":" + dump(&mv.matrix) + ",\"u\":" + (U ? dump(U) : "[]") + ",\"pad\":" + (padok ? "true" : "false") + "}";
        gsl_matrix_complex_free(big); if (U) gsl_matrix_complex_free(U);
      } else if (op == "quad" || op == "gsl1" || op == "gsl2") { // a b tol useopt giveA giveB va vb  PP
        double a = rd(is), b = rd(is), tol = rd(is); int uo, ga, gb; is >> uo >> ga >> gb; double va = rd(is), vb = rd(is);
        PP f; f.read(is); f.a = a; f.b = b;
        if (op == "quad") {
          AdaptiveQuad::Options op_; op_.uncertainty = -1; op_.outOfTolerance = ga > 1; if (ga & 1) op_.fa = va; if (gb & 1) op_.fb = vb;
          double v = AdaptiveQuad::integrate(f, a, b, tol, uo ? &op_ : nullptr);
          o = "{\"r\":\"ok\",\"v\":" + h(v) + ",\"fa\":" + h(op_.fa) + ",\"fb\":" + h(op_.fb) + ",\"oot\":" + (op_.outOfTolerance ? "true" : "false") + ",\"int\":" + (op_.inTolerance() ? "true" : "false") + ",\"unc\":" + h(op_.uncertainty);
        } else {
          double v; auto g = [&](double x) { return f(x); };
          if (op == "gsl1") v = integrate(g, a, b, tol); else { IntegrateWorkspace ws(500); v = integrate(ws, g, a, b, tol, 500u); }
          o = "{\"r\":\"ok\",\"v\":" + h(v) + ",\"oot\":false";
        }
        o += ",\"lo\":" + h(f.lo) + ",\"hi\":" + h(f.hi) + ",\"n\":" + std::to_string(f.n) + ",\"na\":" + std::to_string(f.na) + ",\"nb\":" + std::to_string(f.nb) + "}";
      } else { fprintf(stderr, "bad command %s\n", op.c_str()); return 3; }
    } catch (std::exception&) { o = "{\"r\":\"refused\"}"; } catch (...) { o = "{\"r\":\"refused2\"}"; }
    puts(o.c_str()); fflush(stdout);
  }
  puts("#done");
}
