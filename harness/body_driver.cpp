// B01-B03 driver: bodies and tracks; argv[1] = scratch directory. One command per line, one JSON object per line.
#include <cstdint>
#include <cassert>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <hdf5.h>
#include <hdf5_hl.h>
#include <SQuIDS/const.h>
#include <nuSQuIDS/body.h>
using namespace nusquids;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string h(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
static std::string hv(const std::vector<double>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + h(v[i]); return s + "]"; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }
static std::vector<double> rdv(std::istream& is) { size_t n; is >> n; std::vector<double> v; for (size_t i = 0; i < n; i++) v.push_back(rd(is)); return v; }
static std::string unhex(const std::string& s) { std::string o; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }

struct Ops { // what the static type of a slot allows
  virtual ~Ops() {}
};
typedef std::shared_ptr<Body> BP; typedef std::shared_ptr<Body::Track> TP;
static std::map<int, BP> B; static std::map<int, TP> T;
static std::string bname(const Body& b) {
  if (typeid(b) == typeid(Vacuum)) return "vac"; if (typeid(b) == typeid(ConstantDensity)) return "const"; if (typeid(b) == typeid(VariableDensity)) return "var";
  if (typeid(b) == typeid(Earth)) return "earth"; if (typeid(b) == typeid(Sun)) return "sun"; if (typeid(b) == typeid(SunASnu)) return "sunas";
  if (typeid(b) == typeid(EarthAtm)) return "earthatm"; return "other"; }
static std::string tname(const Body::Track& b) {
  if (typeid(b) == typeid(Vacuum::Track)) return "vac"; if (typeid(b) == typeid(ConstantDensity::Track)) return "const"; if (typeid(b) == typeid(VariableDensity::Track)) return "var";
  if (typeid(b) == typeid(Earth::Track)) return "earth"; if (typeid(b) == typeid(Sun::Track)) return "sun"; if (typeid(b) == typeid(SunASnu::Track)) return "sunas";
  if (typeid(b) == typeid(EarthAtm::Track)) return "earthatm"; return "other"; }
static unsigned bid(const std::string& k) { return k == "vac" ? Vacuum::GetId() : k == "const" ? ConstantDensity::GetId() : k == "var" ? VariableDensity::GetId() : k == "earth" ? Earth::GetId() : k == "sun" ? Sun::GetId() : k == "sunas" ? SunASnu::GetId() : EarthAtm::GetId(); }
static std::string bnm(const std::string& k) { return k == "vac" ? Vacuum::GetName() : k == "const" ? ConstantDensity::GetName() : k == "var" ? VariableDensity::GetName() : k == "earth" ? Earth::GetName() : k == "sun" ? Sun::GetName() : k == "sunas" ? SunASnu::GetName() : EarthAtm::GetName(); }
static BP bcopy(const Body& b) {
  std::string k = bname(b);
  if (k == "vac") return std::make_shared<Vacuum>(static_cast<const Vacuum&>(b)); if (k == "const") return std::make_shared<ConstantDensity>(static_cast<const ConstantDensity&>(b));
  if (k == "var") return std::make_shared<VariableDensity>(static_cast<const VariableDensity&>(b)); if (k == "earth") return std::make_shared<Earth>(static_cast<const Earth&>(b));
  if (k == "sun") return std::make_shared<Sun>(static_cast<const Sun&>(b)); if (k == "sunas") return std::make_shared<SunASnu>(static_cast<const SunASnu&>(b));
  return std::make_shared<EarthAtm>(static_cast<const EarthAtm&>(b)); }
static TP tcopy(const Body::Track& b) {
  std::string k = tname(b);
  if (k == "vac") return std::make_shared<Vacuum::Track>(static_cast<const Vacuum::Track&>(b)); if (k == "const") return std::make_shared<ConstantDensity::Track>(static_cast<const ConstantDensity::Track&>(b));
  if (k == "var") return std::make_shared<VariableDensity::Track>(static_cast<const VariableDensity::Track&>(b)); if (k == "earth") return std::make_shared<Earth::Track>(static_cast<const Earth::Track&>(b));
  if (k == "sun") return std::make_shared<Sun::Track>(static_cast<const Sun::Track&>(b)); if (k == "sunas") return std::make_shared<SunASnu::Track>(static_cast<const SunASnu::Track&>(b));
  return std::make_shared<EarthAtm::Track>(static_cast<const EarthAtm::Track&>(b)); }
template <class T_> BP tab(int how, const std::string& file, std::vector<double>& x, std::vector<double>& a, std::vector<double>& b) {
  if (how == 0) return std::make_shared<T_>(x, a, b); if (how == 1) return std::make_shared<T_>(file); return std::make_shared<T_>(); }
// identifiers are handed out in increasing order per kind: what is still valid between two probes was left open
static hid_t gScratch = -1;
static std::vector<hid_t> probe() {
  std::vector<hid_t> v; hid_t i;
  i = H5Screate(H5S_SCALAR); v.push_back(i); H5Sclose(i);
  i = H5Tcopy(H5T_C_S1); v.push_back(i); H5Tclose(i);
  i = H5Pcreate(H5P_DATASET_CREATE); v.push_back(i); H5Pclose(i);
  i = H5Gopen2(gScratch, "/", H5P_DEFAULT); v.push_back(i); H5Gclose(i);
  i = H5Dopen2(gScratch, "s", H5P_DEFAULT); v.push_back(i); H5Dclose(i);
  i = H5Aopen(gScratch, "t", H5P_DEFAULT); v.push_back(i); H5Aclose(i);
  for (hid_t x : v) if (x < 0) { fprintf(stderr, "probe failed\n"); exit(3); }
  return v;
}
static long left(const std::vector<hid_t>& b, const std::vector<hid_t>& a) {
  long n = 0;
  for (size_t k = 0; k < b.size(); k++) for (hid_t i = b[k] + 1; i < a[k]; i++) if (H5Iis_valid(i) > 0) n++;
  return n;
}
static herr_t quiet(hid_t, void*) { return 0; }

int main(int argc, char** argv) {
  if (argc < 2 || chdir(argv[1])) return 3;
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGALRM}) signal(s, onsig);
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  mkdir("astro", 0755); setenv("NUSQUIDS_DATA_PATH", argv[1], 1);
  H5Eset_auto2(H5E_DEFAULT, quiet, nullptr);
  gScratch = H5Fcreate("probe.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  { double z = 0; hsize_t one = 1; H5LTmake_dataset_double(gScratch, "s", 1, &one, &z); H5LTset_attribute_double(gScratch, "/", "t", &z, 1); }
  hid_t file = H5Fcreate("objects.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  squids::Const units;
  std::string line; int serial = 0; std::map<std::string, std::string> group;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string c, k; is >> c; std::string out;
    alarm(25);
    try {
      if (c == "units") out = ",\"km\":" + h(units.km) + ",\"cm\":" + h(units.cm);
      else if (c == "body") { int s; is >> s >> k; BP b;
        if (k == "vac") b = std::make_shared<Vacuum>();
        else if (k == "const") { double r = rd(is), y = rd(is); b = std::make_shared<ConstantDensity>(r, y); }
        else { int how; is >> how; std::vector<double> x, r, y; std::string f = "t.dat";
          if (how == 0) { x = rdv(is); r = rdv(is); y = rdv(is); }
          else { std::string t; is >> t; f = how == 1 ? "t.dat" : k == "earth" || k == "earthatm" ? "astro/EARTH_MODEL_PREM.dat" : "astro/bs05_agsop.dat"; std::ofstream o(f); o << unhex(t); }
          if (k == "var") b = std::make_shared<VariableDensity>(x, r, y);
          else if (k == "earth") b = tab<Earth>(how, f, x, r, y); else if (k == "sun") b = tab<Sun>(how, f, x, r, y);
          else if (k == "sunas") b = tab<SunASnu>(how, f, x, r, y); else if (k == "earthatm") b = tab<EarthAtm>(how, f, x, r, y); else return 3; }
        B[s] = b; }
      else if (c == "track") { int s; is >> s >> k; std::string a; is >> a; std::vector<double> v; size_t n; is >> n; for (size_t i = 0; i < n; i++) v.push_back(rd(is)); TP t;
#define LIN(K) (n == 3 ? TP(std::make_shared<K>(v[0], v[1], v[2])) : n == 2 ? TP(std::make_shared<K>(v[0], v[1])) : TP(std::make_shared<K>(v[0])))
        if (k == "vac") t = LIN(Vacuum::Track); else if (k == "const") t = LIN(ConstantDensity::Track); else if (k == "sun") t = LIN(Sun::Track); else if (k == "sunas") t = LIN(SunASnu::Track);
        else if (k == "var") t = n == 3 ? TP(std::make_shared<VariableDensity::Track>(v[0], v[1], v[2])) : n == 2 ? TP(std::make_shared<VariableDensity::Track>(v[0], v[1])) : TP(std::make_shared<VariableDensity::Track>(v[0]));
        else if (k == "earth") t = n == 4 ? TP(std::make_shared<Earth::Track>(v[0], v[1], v[2], v[3])) : n == 3 ? TP(std::make_shared<Earth::Track>(v[0], v[1], v[2])) : TP(std::make_shared<Earth::Track>(v[0]));
        else if (a == "xphi") t = std::make_shared<EarthAtm::Track>(v[0], v[1], v[2], v[3]);
        else if (a == "phi") t = std::make_shared<EarthAtm::Track>(v[0], v[1], v[2]);
        else if (a == "cos") t = std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(v[0], v[1], v[2]));
        else if (a == "bphi" || a == "bcos") { int b; is >> b; auto e = std::dynamic_pointer_cast<EarthAtm>(B.at(b)); if (!e) return 3;
          t = std::make_shared<EarthAtm::Track>(a == "bphi" ? e->MakeTrack(v[0]) : e->MakeTrackWithCosine(v[0])); }
        else return 3;
        T[s] = t; }
      else if (c == "bcopy") { int s, d; is >> s >> d; B[d] = bcopy(*B.at(s)); }
      else if (c == "tcopy") { int s, d; is >> s >> d; T[d] = tcopy(*T.at(s)); }
      else if (c == "setx") { int s; is >> s; T.at(s)->SetX(rd(is)); }
      else if (c == "rev") { int s; is >> s; T.at(s)->ReverseTrack(); }
      else if (c == "icd") { int s, v; is >> s >> v; B.at(s)->SetIsConstantDensity(v); }
      else if (c == "seth") { int s; is >> s; auto e = std::dynamic_pointer_cast<EarthAtm>(B.at(s)); if (!e) return 3; e->SetAtmosphereHeight(rd(is)); }
      else if (c == "tget") { int s; is >> s; Body::Track& t = *T.at(s); std::string n = tname(t);
        out = ",\"k\":\"" + n + "\",\"x\":" + h(t.GetX()) + ",\"xi\":" + h(t.GetInitialX()) + ",\"xf\":" + h(t.GetFinalX()) + ",\"p\":" + hv(t.GetTrackParams());
        if (n == "earth") out += ",\"L\":" + h(static_cast<Earth::Track&>(t).GetBaseline()); if (n == "earthatm") out += ",\"L\":" + h(static_cast<EarthAtm::Track&>(t).GetBaseline()); }
      else if (c == "bget") { int s; is >> s; Body& b = *B.at(s); std::string n = bname(b);
        out = ",\"k\":\"" + n + "\",\"id\":" + std::to_string(bid(n)) + ",\"name\":\"" + bnm(n) + "\",\"const\":" + (b.IsConstantDensity() ? "true" : "false") + ",\"p\":" + hv(b.GetBodyParams());
        if (n == "earth") out += ",\"R\":" + h(static_cast<Earth&>(b).GetRadius()); if (n == "sun") out += ",\"R\":" + h(static_cast<Sun&>(b).GetRadius());
        if (n == "sunas") out += ",\"R\":" + h(static_cast<SunASnu&>(b).GetRadius());
        if (n == "earthatm") out += ",\"R\":" + h(static_cast<EarthAtm&>(b).GetRadius()) + ",\"h\":" + h(static_cast<EarthAtm&>(b).GetAtmosphereHeight()); }
      else if (c == "at") { int b, t; is >> b >> t; const Body& y = *B.at(b); const Body::Track& r = *T.at(t);
        std::string d = "\"ok\"", e = "\"ok\"", dv = "0", ev = "0";
        try { dv = h(y.density(r)); } catch (std::exception&) { d = "\"refused\""; }
        try { ev = h(y.ye(r)); } catch (std::exception&) { e = "\"refused\""; }
        out = ",\"dr\":" + d + ",\"yr\":" + e + (d == "\"ok\"" ? ",\"d\":" + dv : "") + (e == "\"ok\"" ? ",\"y\":" + ev : ""); }
      else if (c == "save") { char w; int s; std::string n; is >> w >> s >> n; std::string g = "g" + std::to_string(serial++);
        hid_t q = H5Gcreate2(file, g.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); if (q < 0) return 3;
        auto p0 = probe(); bool ok = true;
        try { if (w == 'b') B.at(s)->Serialize(q); else T.at(s)->Serialize(q); } catch (std::exception&) { ok = false; }
        out = ",\"open\":" + std::to_string(left(p0, probe())); H5Gclose(q); if (!ok) throw std::runtime_error("x"); group[n] = g; }
      else if (c == "load") { char w; int d; std::string n; is >> w >> n >> d;
        hid_t q = H5Gopen2(file, group.at(n).c_str(), H5P_DEFAULT); if (q < 0) return 3;
        char nm[256]; memset(nm, 0, sizeof nm); if (H5LTget_attribute_string(q, ".", "name", nm) < 0) { H5Gclose(q); printf("{\"r\":\"noname\"}\n"); continue; }
        auto p0 = probe(); bool ok = true;
        try { if (w == 'b') B[d] = GetBodyDeserializer(nm)(q); else T[d] = GetTrackDeserializer(nm)(q); } catch (std::exception&) { ok = false; }
        out = ",\"open\":" + std::to_string(left(p0, probe())); H5Gclose(q); if (!ok) throw std::runtime_error("x"); }
      else if (c == "reopen") { H5Fclose(file); file = H5Fopen("objects.h5", H5F_ACC_RDWR, H5P_DEFAULT); if (file < 0) return 3; }
      else if (c == "unknown") { char w; std::string n; is >> w >> n; n = unhex(n); if (w == 'b') GetBodyDeserializer(n); else GetTrackDeserializer(n); }
      else { fprintf(stderr, "bad command %s\n", line.c_str()); return 3; }
      printf("{\"r\":\"ok\"%s}\n", out.c_str());
    } catch (std::exception& e) { printf("{\"r\":\"refused\"}\n"); }
  }
  printf("#done\n"); return 0;
}
