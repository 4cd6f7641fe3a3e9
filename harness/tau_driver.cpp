// T01 driver: TauDecaySpectra objects in three slots; one command per line, one JSON object per line.
#include <cstdint>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <nuSQuIDS/taudecay.h>
using namespace nusquids;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string h(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }
int main() {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  std::vector<std::unique_ptr<TauDecaySpectra>> ob(4);
  for (auto& o : ob) o.reset(new TauDecaySpectra());
  std::string line;
  while (std::getline(std::cin, line)) { alarm(25);
    std::istringstream is(line); std::string op; is >> op; std::string out = "\"r\":\"ok\"";
    try {
      if (op == "chan") {
        int s; std::string k; is >> s >> k; double a = rd(is), b = rd(is); TauDecaySpectra& o = *ob[s];
        double v = k == "lepton" ? o.TauDecayToLepton(a, b) : k == "pion" ? o.TauDecayToPion(a, b) : k == "rho" ? o.TauDecayToRho(a, b) : k == "a1" ? o.TauDecayToA1(a, b) : k == "hadron" ? o.TauDecayToHadron(a, b) : o.TauDecayToAll(a, b);
        out += ",\"v\":" + h(v);
      } else if (op == "read") {
        int s; std::string k; long i, j, t; is >> s >> k >> i >> j >> t; const TauDecaySpectra& o = *ob[s];
        unsigned ui = i, uj = j, ut = t;
        double v = k == "enuall" ? o.dNdEnu_All(ui, uj, ut) : k == "enulep" ? o.dNdEnu_Lep(ui, uj, ut) : k == "eleall" ? o.dNdEle_All(ui, uj, ut) : o.dNdEle_Lep(ui, uj, ut);
        if (t == 0) { double w = k == "enuall" ? o.dNdEnu_All(ui, uj) : k == "enulep" ? o.dNdEnu_Lep(ui, uj) : k == "eleall" ? o.dNdEle_All(ui, uj) : o.dNdEle_Lep(ui, uj); if (w != v) v = NAN; }
        out += ",\"v\":" + h(v);
      } else if (op == "br") { int s; is >> s; out += ",\"lep\":" + h(ob[s]->GetTauToLeptonBranchingRatio()) + ",\"had\":" + h(ob[s]->GetTauToHadronBranchingRatio());
      } else if (op == "init") {
        int s, how; size_t n; is >> s >> how >> n; marray<double, 1> g({n}); for (size_t i = 0; i < n; i++) g[i] = rd(is);
        if (how == 0) ob[s]->Init(g); else if (how == 1) ob[s].reset(new TauDecaySpectra(g)); else *ob[s] = TauDecaySpectra(g);
        for (auto& x : g) x = -1; // the tables must not keep referring to the caller's grid
      } else if (op == "copy") { int s, d, how; is >> s >> d >> how; if (how) ob[d].reset(new TauDecaySpectra(*ob[s])); else *ob[d] = *ob[s];
      } else if (op == "move") { int s, d, how; is >> s >> d >> how; if (how) ob[d].reset(new TauDecaySpectra(std::move(*ob[s]))); else *ob[d] = std::move(*ob[s]); ob[s].reset(new TauDecaySpectra());
      } else if (op == "fresh") { int s; is >> s; ob[s].reset(new TauDecaySpectra(s % 2 == 0)); }
    } catch (std::exception&) { out = "\"r\":\"refused\""; }
    printf("{%s}\n", out.c_str()); fflush(stdout);
  }
  ob.clear();
  printf("#done\n");
}
