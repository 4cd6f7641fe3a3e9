// S01-S07 driver: one command per line on stdin, one JSON object per line on stdout; works in the directory argv[1].
#include <cstdint>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <hdf5.h>
#include <hdf5_hl.h>
#include <nuSQuIDS/nuSQuIDS.h>
using namespace nusquids;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string hx(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }

static void nameAttr(hid_t g, const std::string& v) { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, v.size()); hsize_t d = 1; hid_t sp = H5Screate_simple(1, &d, nullptr); hid_t a = H5Acreate2(g, "name", t, sp, H5P_DEFAULT, H5P_DEFAULT); H5Awrite(a, t, v.data()); H5Aclose(a); H5Tclose(t); H5Sclose(sp); }
// a user's medium: uniform layers along the path, optionally emitting neutrinos, which refuses queries when told to
struct Layers : public Body {
  std::vector<double> at, rho, yes, inj; long refuse = -1; mutable long asked = 0; mutable double lo = INFINITY, hi = -INFINITY;
  struct Track : public Body::Track {
    Track(double a, double b, double c) : Body::Track(a, b, c) {}
    static std::string GetName() { return "LayersTrack"; }
    void Serialize(hid_t g) const override { nameAttr(g, GetName()); H5LTset_attribute_double(g, ".", "a", &x, 1); H5LTset_attribute_double(g, ".", "b", &xini, 1); H5LTset_attribute_double(g, ".", "c", &xend, 1); }
    static std::shared_ptr<Body::Track> Deserialize(hid_t g) { double a, b, c; H5LTget_attribute_double(g, ".", "a", &a); H5LTget_attribute_double(g, ".", "b", &b); H5LTget_attribute_double(g, ".", "c", &c); return std::make_shared<Track>(a, b, c); }
  };
  static std::string GetName() { return "Layers"; }
  static unsigned GetId() { return 77; }
  void Serialize(hid_t g) const override {
    nameAttr(g, GetName()); hsize_t n = rho.size(), m = std::max<size_t>(at.size(), 1); double z = 0;
    H5LTmake_dataset_double(g, "at", 1, &m, at.empty() ? &z : at.data()); H5LTmake_dataset_double(g, "rho", 1, &n, rho.data()); H5LTmake_dataset_double(g, "ye", 1, &n, yes.data()); }
  static std::shared_ptr<Body> Deserialize(hid_t g) {
    auto b = std::make_shared<Layers>(); hsize_t n; H5LTget_dataset_info(g, "rho", &n, nullptr, nullptr); b->rho.resize(n); b->yes.resize(n); b->at.resize(std::max<size_t>(n - 1, 1));
    H5LTread_dataset_double(g, "rho", b->rho.data()); H5LTread_dataset_double(g, "ye", b->yes.data()); H5LTread_dataset_double(g, "at", b->at.data()); b->at.resize(n - 1); return b; }
  size_t layer(const GenericTrack& t) const { double p = t.GetX(); lo = std::min(lo, p); hi = std::max(hi, p); asked++; if (refuse >= 0 && asked > refuse) throw std::runtime_error("the medium refuses"); size_t k = 0; while (k < at.size() && p >= at[k]) k++; return k; }
  double density(const GenericTrack& t) const override { return rho[layer(t)]; }
  double ye(const GenericTrack& t) const override { return yes[layer(t)]; }
  bool IsConstantDensity() const override { return at.empty(); }
  void injected_neutrino_flux(marray<double, 3>& f, const GenericTrack&, const nuSQUIDS&) override { if (inj.size() == f.size()) std::copy(inj.begin(), inj.end(), f.begin()); }
};
static nusquids::detail::registerBody rb("Layers", Layers::Deserialize);
static nusquids::detail::registerTrack rt("LayersTrack", Layers::Track::Deserialize);

// a user's Earth: one density in the first half of each way, another in the second
struct Ball : public EarthAtm {
  double r1 = 0, y1 = 1, r2 = 0, y2 = 1; Ball(double h, double a, double b, double c, double d) : EarthAtm({0, .2, .4, .6, .8, 1}, {1, 1, 1, 1, 1, 1}, {.5, .5, .5, .5, .5, .5}), r1(a), y1(b), r2(c), y2(d) { SetAtmosphereHeight(h); }
  static std::string GetName() { return "Ball"; }
  void Serialize(hid_t g) const override { nameAttr(g, GetName()); double v[5] = {GetAtmosphereHeight(), r1, y1, r2, y2}; H5LTset_attribute_double(g, ".", "ball", v, 5); }
  static std::shared_ptr<Body> Deserialize(hid_t g) { double v[5]; H5LTget_attribute_double(g, ".", "ball", v); return std::make_shared<Ball>(v[0], v[1], v[2], v[3], v[4]); }
  double density(const GenericTrack& t) const override { return t.GetX() < .5 * t.GetFinalX() ? r1 : r2; }
  double ye(const GenericTrack& t) const override { return t.GetX() < .5 * t.GetFinalX() ? y1 : y2; }
};
static nusquids::detail::registerBody rball("Ball", Ball::Deserialize);

// a user's cross sections: tables by node, refusing any other question
struct Table : public NeutrinoCrossSections {
  std::vector<double> E; std::vector<double> tot, dif; // tot[f][t][c][k], dif[f][t][c][k][j]; f 0..2, t 0..1, c 0..1 (CC, NC)
  int node(double e) const { for (size_t k = 0; k < E.size(); k++) if (E[k] == e) return k; throw std::logic_error("question off the nodes"); }
  size_t id(int f, int t, int c) const { if (f > 2) return 0; return (((size_t)f * 2 + t) * 2 + c); }
  double T(int f, int t, int c, int k) const { return f > 2 ? 0 : tot[id(f, t, c) * E.size() + k]; }
  double D(int f, int t, int c, int k, int j) const { return f > 2 ? 0 : dif[(id(f, t, c) * E.size() + k) * E.size() + j]; }
  static int ty(NeutrinoType t) { return t == NeutrinoCrossSections::neutrino ? 0 : 1; }
  static int cu(Current c) { return c == CC ? 0 : 1; }
  double TotalCrossSection(double e, NeutrinoFlavor f, NeutrinoType t, Current c) const override { int k = node(e); if (k) throw std::logic_error("point question above the first node"); return T(f, ty(t), cu(c), 0); }
  double AverageTotalCrossSection(double a, double b, NeutrinoFlavor f, NeutrinoType t, Current c) const override { int k = node(b); if (node(a) != k - 1) throw std::logic_error("average over another range"); return T(f, ty(t), cu(c), k); }
  double SingleDifferentialCrossSection(double e, double o, NeutrinoFlavor f, NeutrinoType t, Current c) const override { int k = node(e); if (node(o)) throw std::logic_error("point question above the first node"); return D(f, ty(t), cu(c), k, 0); }
  double AverageSingleDifferentialCrossSection(double e, double a, double b, NeutrinoFlavor f, NeutrinoType t, Current c) const override { int k = node(e), j = node(b); if (node(a) != j - 1 || j >= k) throw std::logic_error("average over another range"); return D(f, ty(t), cu(c), k, j); }
};

struct Sim : public nuSQUIDS {
  using nuSQUIDS::nuSQUIDS;
  Sim() {}
  Sim(Sim&& o) : nuSQUIDS(std::move(o)) {}
  Sim& operator=(Sim&& o) { nuSQUIDS::operator=(std::move(o)); return *this; }
  double pos() { return track ? track->GetX() : NAN; }
  bool has_track() const { return (bool)track; }
  unsigned rhos() const { return nrhos; }
  void terms(std::ostream& o) {
    if (GetUseInteractions() && !GetUseOscillations()) SetUpInteractionCache();
    PreDerive(Get_t());
    o << ",\"t\":[";
    for (unsigned r = 0; r < nrhos; r++) { o << (r ? ",[" : "["); for (unsigned e = 0; e < ne; e++) { o << (e ? ",{" : "{");
      auto G = GammaRho(e, r), I = InteractionsRho(e, r); o << "\"g\":["; for (unsigned f = 0; f < numneu; f++) o << (f ? "," : "") << hx(evol_b1_proj[r][f][e] * G);
      o << "],\"i\":["; for (unsigned f = 0; f < numneu; f++) o << (f ? "," : "") << hx(evol_b1_proj[r][f][e] * I);
      o << "],\"p\":["; for (unsigned f = 0; f < numneu; f++) o << (f ? "," : "") << hx(evol_b1_proj[r][f][e] * state[e].rho[r]);
      o << "],\"gg\":" << hx(G * G) << ",\"ii\":" << hx(I * I) << "}"; } o << "]"; }
    o << "]";
  }
};
typedef nuSQUIDSAtm<Sim> Atm;
struct AtmX { std::unique_ptr<Atm> a; };

int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); std::clog.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  int fd = dup(1); FILE* outf = fdopen(fd, "w"); std::cout.setstate(std::ios::failbit); // the library prints progress and warnings
  if (chdir(argv[1])) return 2;
  std::map<int, std::unique_ptr<Sim>> S; std::map<int, std::unique_ptr<Atm>> A; std::map<int, std::shared_ptr<Layers>> L; std::string line; squids::Const cc;
  auto say = [&](const std::string& s) { fprintf(outf, "%s\n", s.c_str()); fflush(outf); };
  while (std::getline(std::cin, line)) { alarm(60);
    std::istringstream is(line); std::string op; is >> op; std::ostringstream out; out << "\"r\":\"ok\"";
    auto num = [&] { return rd(is); }; auto in = [&] { long v; is >> v; return v; };
    auto list = [&](size_t n) { std::vector<double> v(n); for (auto& x : v) x = rd(is); return v; };
    auto arr1 = [&](size_t n) { marray<double, 1> v({n}); for (size_t i = 0; i < n; i++) v[i] = rd(is); return v; };
    auto val = [&](double v) { out << ",\"v\":" << hx(v); };
    auto xs = [&]() -> std::shared_ptr<CrossSectionLibrary> { // xs: library of tables: nlib [target nE E.. tot.. dif..]
      long n = in(); if (n < 0) return nullptr; auto lib = std::make_shared<CrossSectionLibrary>();
      for (long k = 0; k < n; k++) { long pdg = in(), ne = in(); if (pdg == 11) { lib->addTarget(electron, GlashowResonanceCrossSection()); continue; }
        Table t; t.E = list(ne); t.tot = list(12 * ne); t.dif = list(12 * ne * ne); lib->addTarget(static_cast<PDGCode>(pdg), Table(t)); }
      return lib; };
    try {
      if (op == "units") { out << ",\"gf\":" << hx(cc.GF) << ",\"cm\":" << hx(cc.cm) << ",\"na\":" << hx(cc.Na) << ",\"km\":" << hx(cc.km) << ",\"gev\":" << hx(cc.GeV) << ",\"gr\":" << hx(cc.gr) << ",\"me\":" << hx(cc.electron_mass) << ",\"mp\":" << hx(cc.proton_mass) << ",\"mn\":" << hx(cc.neutron_mass);
      } else if (op == "newe") { long s = in(); { std::unique_ptr<Sim> p(new Sim()); S[s] = std::move(p); }
      } else if (op == "new1") { long s = in(), n = in(), nt = in(); S.erase(s); { std::unique_ptr<Sim> p(new Sim(n, (NeutrinoType)nt)); S[s] = std::move(p); }
      } else if (op == "newm") { long s = in(), n = in(), nt = in(), inter = in(), ne = in(); auto E = arr1(ne); auto lib = xs(); S.erase(s); { std::unique_ptr<Sim> p(new Sim(E, n, (NeutrinoType)nt, inter, lib)); S[s] = std::move(p); }
      } else if (op == "newh") { long s = in(); std::string f, g; is >> f >> g; S.erase(s); { std::unique_ptr<Sim> p(new Sim(f, g)); S[s] = std::move(p); }
      } else if (op == "del") { S.erase(in());
      } else if (op == "mvc") { long a = in(), b = in(); std::unique_ptr<Sim> p(new Sim(std::move(*S.at(b)))); S[a] = std::move(p);
      } else if (op == "mva") { long a = in(), b = in(); *S.at(a) = std::move(*S.at(b));
      } else if (op == "lay") { long s = in(), n = in(); auto b = std::make_shared<Layers>(); b->at = list(n - 1); b->rho = list(n); b->yes = list(n); long m = in(); b->inj = list(m); L[s] = b;
      } else if (op == "refuse") { long s = in(); L.at(s)->refuse = in(); L.at(s)->asked = 0;
      } else if (op == "asked") { auto& b = *L.at(in()); out << ",\"lo\":" << hx(b.lo) << ",\"hi\":" << hx(b.hi); b.lo = INFINITY; b.hi = -INFINITY;
      } else if (op.size() > 1 && op[0] == 'a' && op[1] == '.') {
        std::string o = op.substr(2); long a = in();
        if (o == "new") { long n = in(), nt = in(), inter = in(), nc = in(); auto c = arr1(nc); long ne = in(); auto E = arr1(ne); auto lib = xs(); A.erase(a); { std::unique_ptr<Atm> p(new Atm(c, E, (unsigned)n, (NeutrinoType)nt, (bool)inter, lib)); A[a] = std::move(p); } }
        else if (o == "newh") { std::string f; is >> f; A.erase(a); { std::unique_ptr<Atm> p(new Atm(f)); A[a] = std::move(p); } }
        else if (o == "mvc") { long b = in(); std::unique_ptr<Atm> p(new Atm(std::move(*A.at(b)))); A[a] = std::move(p); }
        else if (o == "mva") { long b = in(); *A.at(a) = std::move(*A.at(b)); }
        else { Atm& n = *A.at(a);
          if (o == "st") { long bas = in(), rank = in(); std::vector<size_t> d(rank); for (auto& x : d) x = in();
            if (rank == 3) { marray<double, 3> v; v.resize(d); for (auto& x : v) x = rd(is); n.Set_initial_state(v, (Basis)bas); } else { marray<double, 4> v; v.resize(d); for (auto& x : v) x = rd(is); n.Set_initial_state(v, (Basis)bas); } }
          else if (o == "evo") n.EvolveState();
          else if (o == "ev") { long f = in(); double c = num(), e = num(); long r = in(); val(n.EvalFlavor(f, c, e, r)); }
          else if (o == "eva") { long f = in(); double c = num(), e = num(); long r = in(); double sc = num(); val(n.EvalFlavor(f, c, e, r, sc, std::vector<bool>(n.GetNumNeu()))); }
          else if (o == "node") { long i = in(), f = in(), e = in(), r = in(); val(n.GetnuSQuIDS(i).EvalFlavorAtNode(f, e, r)); }
          else if (o == "threads") { n.Set_EvalThreads(in()); out << ",\"n\":" << std::min<unsigned>(n.Get_EvalThreads(), 100000); }
          else if (o == "mix") { long i = in(), j = in(); n.Set_MixingAngle(i, j, num()); }
          else if (o == "ph") { long i = in(), j = in(); n.Set_CPPhase(i, j, num()); }
          else if (o == "dm") { long i = in(); n.Set_SquareMassDifference(i, num()); }
          else if (o == "tol") { double t = num(); n.Set_rel_error(t); n.Set_abs_error(t); n.Set_GSL_step(gsl_odeiv2_step_rk8pd); }
          else if (o == "osc") n.Set_IncludeOscillations(in());
          else if (o == "tau") n.Set_TauRegeneration(in());
          else if (o == "gr") n.Set_GlashowResonance(in());
          else if (o == "allow") n.Set_AllowConstantDensityOscillationOnlyEvolution(in());
          else if (o == "pos") n.Set_PositivityConstrain(in());
          else if (o == "posstep") n.Set_PositivityConstrainStep(num());
          else if (o == "prog") n.Set_ProgressBar(in());
          else if (o == "earth") { auto v = list(5); n.Set_EarthModel(std::make_shared<Ball>(v[0], v[1], v[2], v[3], v[4])); }
          else if (o == "def") n.Set_MixingParametersToDefault();
          else if (o == "poison") { long i = in(); n.GetnuSQuIDS(i).Set_Body(nullptr); }
          else if (o == "save") { std::string f; is >> f; long over = in(); n.WriteStateHDF5(f, over); }
          else if (o == "get") { out << ",\"ne\":" << n.GetNumE() << ",\"nc\":" << n.GetNumCos() << ",\"nn\":" << n.GetNumNodes() << ",\"n\":" << n.GetNumNeu() << ",\"nr\":" << n.GetNumRho() << ",\"E\":["; auto E = n.GetERange(); for (size_t i = 0; i < E.size(); i++) out << (i ? "," : "") << hx(E[i]);
            out << "],\"cs\":["; auto c = n.GetCosthRange(); for (size_t i = 0; i < c.size(); i++) out << (i ? "," : "") << hx(c[i]);
            out << "],\"th\":" << hx(n.Get_MixingAngle(0, 1)) << ",\"ph\":" << hx(n.Get_CPPhase(0, 2)) << ",\"dm\":" << hx(n.Get_SquareMassDifference(1)) << ",\"each\":["; for (size_t i = 0; i < n.GetNumNodes(); i++) { auto& q = n.GetnuSQuIDS(i); out << (i ? ",[" : "[") << hx(q.Get_MixingAngle(0, 1)) << "," << hx(q.Get_CPPhase(0, 2)) << "," << hx(q.Get_SquareMassDifference(1)) << "]"; } out << "]"; }
          else if (o == "geo") { double c = num(); EarthAtm e; auto t = e.MakeTrackWithCosine(c); out << ",\"L\":" << hx(t.GetFinalX() - t.GetInitialX()); }
          else out.str("\"r\":\"badop\"");
        }
      } else { Sim& n = *S.at(in());
        if (op == "body") { std::string k; is >> k; if (k == "vac") n.Set_Body(std::make_shared<Vacuum>()); else if (k == "const") { double a = num(), b = num(); n.Set_Body(std::make_shared<ConstantDensity>(a, b)); } else if (k == "lay") n.Set_Body(L.at(in())); else if (k == "null") n.Set_Body(nullptr); else n.Set_Body(std::make_shared<EarthAtm>()); }
        else if (op == "track") { std::string k; is >> k; if (k == "null") n.Set_Track(nullptr); else if (k == "atm") { EarthAtm e; n.Set_Track(std::make_shared<EarthAtm::Track>(e.MakeTrackWithCosine(num()))); } else { double x = num(), a = num(), b = num(); if (k == "vac") n.Set_Track(std::make_shared<Vacuum::Track>(x, a, b)); else if (k == "const") n.Set_Track(std::make_shared<ConstantDensity::Track>(x, a, b)); else n.Set_Track(std::make_shared<Layers::Track>(x, a, b)); } }
        else if (op == "E") n.Set_E(num());
        else if (op == "st") { long bas = in(), rank = in(); std::vector<size_t> d(rank); for (auto& x : d) x = in();
          if (rank == 1) { marray<double, 1> v; v.resize(d); for (auto& x : v) x = rd(is); n.Set_initial_state(v, (Basis)bas); }
          else if (rank == 2) { marray<double, 2> v; v.resize(d); for (auto& x : v) x = rd(is); n.Set_initial_state(v, (Basis)bas); }
          else { marray<double, 3> v; v.resize(d); for (auto& x : v) x = rd(is); n.Set_initial_state(v, (Basis)bas); } }
        else if (op == "evo") n.EvolveState();
        else if (op == "fn") { long f = in(), e = in(), r = in(); val(n.EvalFlavorAtNode(f, e, r)); }
        else if (op == "mn") { long f = in(), e = in(), r = in(); val(n.EvalMassAtNode(f, e, r)); }
        else if (op == "fe") { long f = in(); double e = num(); long r = in(); val(n.EvalFlavor(f, e, r)); }
        else if (op == "me") { long f = in(); double e = num(); long r = in(); val(n.EvalMass(f, e, r)); }
        else if (op == "fa") { long f = in(); double e = num(); long r = in(); double sc = num(); std::vector<bool> av(in()); val(n.EvalFlavor(f, e, r, sc, av)); }
        else if (op == "ma") { long f = in(); double e = num(); long r = in(); double sc = num(); std::vector<bool> av(in()); val(n.EvalMass(f, e, r, sc, av)); }
        else if (op == "f1") val(n.EvalFlavor(in())); else if (op == "m1") val(n.EvalMass(in()));
        else if (op == "fs") { long f = in(); double sc = num(); std::vector<bool> av(in()); val(n.EvalFlavor(f, sc, av)); }
        else if (op == "ms") { long f = in(); double sc = num(); std::vector<bool> av(in()); val(n.EvalMass(f, sc, av)); }
        else if (op == "mix") { long i = in(), j = in(); n.Set_MixingAngle(i, j, num()); }
        else if (op == "ph") { long i = in(), j = in(); n.Set_CPPhase(i, j, num()); }
        else if (op == "dm") { long i = in(); n.Set_SquareMassDifference(i, num()); }
        else if (op == "gmix") { long i = in(), j = in(); val(n.Get_MixingAngle(i, j)); }
        else if (op == "gph") { long i = in(), j = in(); val(n.Get_CPPhase(i, j)); }
        else if (op == "gdm") val(n.Get_SquareMassDifference(in()));
        else if (op == "def") n.Set_MixingParametersToDefault();
        else if (op == "osc") n.Set_IncludeOscillations(in());
        else if (op == "allow") n.Set_AllowConstantDensityOscillationOnlyEvolution(in());
        else if (op == "pos") n.Set_PositivityConstrain(in());
        else if (op == "posstep") n.Set_PositivityConstrainStep(num());
        else if (op == "tau") n.Set_TauRegeneration(in());
        else if (op == "gr") n.Set_GlashowResonance(in());
        else if (op == "src") n.Set_NeutrinoSources(in());
        else if (op == "basis") n.Set_Basis((Basis)in());
        else if (op == "tol") { double t = num(); n.Set_rel_error(t); n.Set_abs_error(t); }
        else if (op == "rk8") n.Set_GSL_step(gsl_odeiv2_step_rk8pd);
        else if (op == "h") n.Set_h(num());
        else if (op == "prog") n.Set_ProgressBar(in());
        else if (op == "xs") n.SetNeutrinoCrossSections(xs());
        else if (op == "inint") n.InitializeInteractions();
        else if (op == "terms") n.terms(out);
        else if (op == "taus") { TauDecaySpectra t(n.GetERange()); long ne = n.GetNumE(); for (int ty = 0; ty < 2; ty++) for (int k = 0; k < 2; k++) { out << ",\"" << (k ? "lep" : "all") << ty << "\":["; for (long a = 0; a < ne; a++) { out << (a ? ",[" : "["); for (long b = 0; b < a; b++) out << (b ? "," : "") << hx(k ? t.dNdEnu_Lep(a, b, ty) : t.dNdEnu_All(a, b, ty)); out << "]"; } out << "]"; } }
        else if (op == "grs") { GlashowResonanceCrossSection x; auto E = n.GetERange(); long ne = n.GetNumE(); typedef NeutrinoCrossSections X; out << ",\"st\":["; for (long a = 0; a < ne; a++) out << (a ? "," : "") << hx(a ? x.AverageTotalCrossSection(E[a - 1], E[a], X::electron, X::antineutrino, X::GR) : x.TotalCrossSection(E[a], X::electron, X::antineutrino, X::GR)); out << "],\"d\":["; for (long a = 0; a < ne; a++) { out << (a ? ",[" : "["); for (long b = 0; b < a; b++) out << (b ? "," : "") << hx(b ? x.AverageSingleDifferentialCrossSection(E[a], E[b - 1], E[b], X::electron, X::antineutrino, X::GR) : x.SingleDifferentialCrossSection(E[a], E[0], X::electron, X::antineutrino, X::GR)); out << "]"; } out << "]"; }
        else if (op == "ham") { long e = in(), r = in(); auto H = n.GetHamiltonian(e, r); val(H * H); }
        else if (op == "save") { std::string f, g, cl; is >> f >> g; long sx = in(); is >> cl; long over = in(); n.WriteStateHDF5(f, g, sx, cl == "-" ? "" : cl, over); }
        else if (op == "load") { std::string f, g, cl; is >> f >> g >> cl; n.ReadStateHDF5(f, g, cl == "-" ? "" : cl); }
        else if (op == "get") { auto E = n.GetERange(); out << ",\"n\":" << n.GetNumNeu() << ",\"ne\":" << n.GetNumE() << ",\"nr\":" << n.GetNumRho() << ",\"osc\":" << (int)n.GetUseOscillations() << ",\"int\":" << (int)n.GetUseInteractions() << ",\"t\":" << hx(n.Get_t()) << ",\"t0\":" << hx(n.Get_t_initial()) << ",\"E\":[";
          for (size_t i = 0; i < E.size(); i++) out << (i ? "," : "") << hx(E[i]); out << "],\"b\":" << (n.GetBody() ? 1 : 0) << ",\"tr\":["; if (n.has_track()) { auto t = n.GetTrack(); out << hx(t->GetX()) << "," << hx(t->GetInitialX()) << "," << hx(t->GetFinalX()); } out << "]"; }
        else out.str("\"r\":\"badop\"");
      }
    } catch (std::out_of_range& e) { out.str(""); out << "\"r\":\"" << (std::string(e.what()).find("map::at") != std::string::npos ? "none" : "refused") << "\""; }
    catch (std::exception& e) { out.str(""); std::string w = e.what(); std::string c; for (char ch : w.substr(0, 160)) c += (ch == '"' || ch == '\\' || (unsigned char)ch < 32) ? ' ' : ch; out << "\"r\":\"refused\",\"w\":\"" << c << "\""; }
    say("{" + out.str() + "}");
  }
  S.clear(); A.clear(); L.clear(); say("#done");
  return 0;
}
