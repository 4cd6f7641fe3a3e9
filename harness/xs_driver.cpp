// X01-X03 driver: one command per line on stdin, one JSON object per line on stdout; works in the directory argv[1].
#include <cstdint>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <hdf5.h>
#include <hdf5_hl.h>
#include <nuSQuIDS/xsections.h>
using namespace nusquids;
typedef NeutrinoCrossSections NX;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string h(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }
static std::string unhex(const std::string& s) { std::string o; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }

struct Log { long n = 0; double lo = INFINITY, hi = -INFINITY, vlo = INFINITY, vhi = -INFINITY; void add(double x, double v) { n++; if (!(x >= lo)) lo = x; if (!(x <= hi)) hi = x; if (!(v >= vlo)) vlo = v; if (!(v <= vhi)) vhi = v; } };
static Log lg;
// records where the averaging functions evaluate the cross sections
struct LDis : NeutrinoDISCrossSectionsFromTables { LDis() {} LDis(std::string p) : NeutrinoDISCrossSectionsFromTables(p) {}
  double TotalCrossSection(double E, NeutrinoFlavor f, NeutrinoType t, Current c) const override { double v = NeutrinoDISCrossSectionsFromTables::TotalCrossSection(E, f, t, c); lg.add(E, v); return v; }
  double SingleDifferentialCrossSection(double E, double E2, NeutrinoFlavor f, NeutrinoType t, Current c) const override { double v = NeutrinoDISCrossSectionsFromTables::SingleDifferentialCrossSection(E, E2, f, t, c); lg.add(E2, v); return v; } };
struct LV1 : NeutrinoDISCrossSectionsFromTables_V1 { LV1() {} LV1(std::string p) : NeutrinoDISCrossSectionsFromTables_V1(p) {}
  double TotalCrossSection(double E, NeutrinoFlavor f, NeutrinoType t, Current c) const override { double v = NeutrinoDISCrossSectionsFromTables_V1::TotalCrossSection(E, f, t, c); lg.add(E, v); return v; }
  double SingleDifferentialCrossSection(double E, double E2, NeutrinoFlavor f, NeutrinoType t, Current c) const override { double v = NeutrinoDISCrossSectionsFromTables_V1::SingleDifferentialCrossSection(E, E2, f, t, c); lg.add(E2, v); return v; } };
// a user's cross section: powers of the energies
struct Law : NX { double p, k; Law(double p, double k) : p(p), k(k) {}
  double TotalCrossSection(double E, NeutrinoFlavor, NeutrinoType, Current) const override { double v = k * pow(E, p); lg.add(E, v); return v; }
  double SingleDifferentialCrossSection(double E, double E2, NeutrinoFlavor, NeutrinoType, Current) const override { double v = k * pow(E2, p) / E; lg.add(E2, v); return v; } };
struct Obj { std::shared_ptr<NX> x; std::shared_ptr<LDis> d; std::shared_ptr<LV1> v; std::string k; };

int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); std::clog.setstate(std::ios::failbit);
  if (chdir(argv[1])) return 2;
  mkdir("data", 0777); mkdir("data/xsections", 0777); setenv("NUSQUIDS_DATA_PATH", "data", 1);
  std::map<int, Obj> o; std::map<int, CrossSectionLibrary> libs; std::string line;
  squids::Const cc;
  while (std::getline(std::cin, line)) { alarm(40); lg = Log();
    std::istringstream is(line); std::string op; is >> op; std::ostringstream out; out << "\"r\":\"ok\"";
    bool io = false;
    { std::istringstream pk(line); std::string w; int s; pk >> w >> s;
      if ((w == "wt" || w == "wh" || w == "tot" || w == "sd" || w == "dd" || w == "avt" || w == "avs") && !o.count(s)) { std::cout << "{\"r\":\"none\"}" << std::endl; continue; } }
    try {
      auto fl = [&] { int f; is >> f; return (NX::NeutrinoFlavor)f; }; auto ty = [&] { int f; is >> f; return (NX::NeutrinoType)f; }; auto cu = [&] { int f; is >> f; return (NX::Current)f; };
      auto logged = [&] { out << ",\"n\":" << std::min(lg.n, 1000000L) << ",\"lo\":" << h(lg.lo) << ",\"hi\":" << h(lg.hi) << ",\"vlo\":" << h(lg.vlo) << ",\"vhi\":" << h(lg.vhi); };
      if (op == "units") out << ",\"gf\":" << h(cc.GF) << ",\"cm\":" << h(cc.cm) << ",\"me\":" << h(cc.electron_mass) << ",\"mm\":" << h(cc.muon_mass) << ",\"gev\":" << h(cc.GeV);
      else if (op == "put") { std::string n, b; is >> n >> b; std::ofstream f(n.c_str(), std::ios::binary); f << unhex(b); }
      else if (op == "del") { std::string n; while (is >> n) if (n.find('/') == std::string::npos) unlink(n.c_str()); }
      else if (op == "h5put") { std::string n, w; is >> n; hid_t f = H5Fcreate(n.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        while (is >> w) {
          if (w == "g") { std::string p; is >> p; H5Gclose(H5Gcreate2(f, p.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT)); }
          else if (w == "l") { std::string a, b; is >> a >> b; H5Lcreate_hard(f, a.c_str(), f, b.c_str(), H5P_DEFAULT, H5P_DEFAULT); }
          else if (w == "a") { std::string a; is >> a; double v = rd(is); H5LTset_attribute_double(f, "/", a.c_str(), &v, 1); }
          else if (w == "d") { std::string p; int r; is >> p >> r; std::vector<hsize_t> d(r); size_t sz = 1; for (auto& q : d) { is >> q; sz *= q; } std::vector<double> v(sz); for (auto& q : v) q = rd(is); H5LTmake_dataset_double(f, p.c_str(), r, d.data(), v.data()); } }
        H5Fclose(f); }
      else if (op == "load") { int s; std::string k, p; is >> s >> k >> p; io = true; Obj q; q.k = k;
        if (k == "dis") { q.d = p == "-" ? std::make_shared<LDis>() : std::make_shared<LDis>(p); q.x = q.d; out << ",\"emin\":" << h(q.d->GetEmin()) << ",\"emax\":" << h(q.d->GetEmax()); }
        else { q.v = p == "-" ? std::make_shared<LV1>() : std::make_shared<LV1>(p); q.x = q.v; out << ",\"emin\":" << h(q.v->GetEmin()) << ",\"emax\":" << h(q.v->GetEmax()) << ",\"n\":" << q.v->GetNumE() << ",\"init\":" << (q.v->IsInit() ? "true" : "false"); }
        o[s] = q; }
      else if (op == "mk") { int s; std::string k; is >> s >> k; Obj q; q.k = k; if (k[0] == 'g') q.k = "glashow"; GlashowResonanceCrossSection base; if (k == "glashowc") q.x = std::make_shared<GlashowResonanceCrossSection>((const GlashowResonanceCrossSection&)base); else if (k == "glashowm") q.x = std::make_shared<GlashowResonanceCrossSection>(std::move(base)); else if (k == "glashow") q.x = std::make_shared<GlashowResonanceCrossSection>(); else if (k == "null") q.x = std::make_shared<NullCrossSections>(); else { double p = rd(is), kk = rd(is); q.x = std::make_shared<Law>(p, kk); } o[s] = q; }
      else if (op == "wt") { int s; std::string p; is >> s >> p; io = true; if (o[s].d) o[s].d->WriteText(p); else o[s].v->WriteText(p); }
      else if (op == "wh") { int s, lev; std::string p; is >> s >> p >> lev; io = true; if (o[s].d) o[s].d->WriteHDF(p, lev); else o[s].v->WriteHDF(p); }
      else if (op == "tot") { int s; is >> s; double E = rd(is); auto f = fl(); auto t = ty(); auto c = cu(); out << ",\"v\":" << h(o[s].x->TotalCrossSection(E, f, t, c)); }
      else if (op == "sd") { int s; is >> s; double E = rd(is), F = rd(is); auto f = fl(); auto t = ty(); auto c = cu(); out << ",\"v\":" << h(o[s].x->SingleDifferentialCrossSection(E, F, f, t, c)); }
      else if (op == "dd") { int s; is >> s; double E = rd(is), F = rd(is), G = rd(is); auto f = fl(); auto t = ty(); auto c = cu(); out << ",\"v\":" << h(o[s].x->DoubleDifferentialCrossSection(E, F, G, f, t, c)); }
      else if (op == "avt") { int s; is >> s; double a = rd(is), b = rd(is); auto f = fl(); auto t = ty(); auto c = cu(); double v = o[s].x->AverageTotalCrossSection(a, b, f, t, c); out << ",\"v\":" << h(v); logged(); }
      else if (op == "avs") { int s; is >> s; double E = rd(is), a = rd(is), b = rd(is); auto f = fl(); auto t = ty(); auto c = cu(); double v = o[s].x->AverageSingleDifferentialCrossSection(E, a, b, f, t, c); out << ",\"v\":" << h(v); logged(); }
      else if (op == "br") { auto f = fl(); out << ",\"v\":" << h(GlashowResonanceCrossSection::WDecayBranchingFraction(f)); }
      else if (op == "libnew") { int s; size_t n; is >> s >> n; CrossSectionLibrary::MapType m; for (size_t i = 0; i < n; i++) { int t, q; is >> t >> q; m[(PDGCode)t] = o[q].x; } libs[s] = n ? CrossSectionLibrary(m) : CrossSectionLibrary(); }
      else if (op == "libdef") { int s; is >> s; io = true; libs[s] = loadDefaultCrossSections(); }
      else if (op == "libcopy") { int a, b; is >> a >> b; CrossSectionLibrary t(libs[a]); libs[b] = t; }
      else if (op == "libadd") { int s, t, q, how; is >> s >> t >> q >> how; PDGCode p = (PDGCode)t; auto& L = libs[s]; auto& b = o[q];
        if (how == 0) L.addTarget(p, b.x);
        else if (b.k == "dis") L.addTarget(p, LDis(*b.d)); else if (b.k == "v1") L.addTarget(p, LV1(*b.v)); else if (b.k == "glashow") L.addTarget(p, GlashowResonanceCrossSection(dynamic_cast<GlashowResonanceCrossSection&>(*b.x)));
        else if (b.k == "null") L.addTarget(p, NullCrossSections()); else L.addTarget(p, Law(dynamic_cast<Law&>(*b.x))); }
      else if (op == "lib") { int s, t; is >> s >> t; auto x = libs[s].crossSectionForTarget((PDGCode)t); bool has = libs[s].hasTarget((PDGCode)t); out << ",\"has\":" << (has ? "true" : "false") << ",\"nul\":" << (x ? "false" : "true");
        double E = rd(is); auto f = fl(); auto ty_ = ty(); auto c = cu();
        if (x) { std::string r = "ok"; double v = 0; try { v = x->TotalCrossSection(E, f, ty_, c); } catch (std::exception&) { r = "refused"; } out << ",\"qr\":\"" << r << "\",\"v\":" << h(v); } }
      else { std::cerr << "unknown op " << op << "\n"; return 2; }
    } catch (std::exception& e) { out.str(""); out << "\"r\":\"refused\""; }
    if (io) out << ",\"open\":" << H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL);
    std::cout << "{" << out.str() << "}" << std::endl;
  }
  std::cout << "#done" << std::endl; return 0;
}
