// F01/F04 driver: text tables and the resource path in a scratch directory (argv[1]).
#include <cstdint>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <nuSQuIDS/tools.h>
#include <nuSQuIDS/resources.h>
using namespace nusquids;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string h(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }
static std::string unhex(const std::string& s) { std::string o; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
static std::string q(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  std::string dir = argv[1]; dir += "/"; std::string line;
  while (std::getline(std::cin, line)) { alarm(25);
    std::istringstream is(line); std::string op, n; is >> op >> n; std::string out = "\"r\":\"ok\""; std::string path = dir + n;
    try {
      if (op == "put") { std::string b; is >> b; std::ofstream f(path.c_str(), std::ios::binary); f << unhex(b);
      } else if (op == "write") {
        size_t r, c; is >> r >> c; marray<double, 2> t({r, c}); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) t[i][j] = rd(is);
        quickwrite(path, t);
      } else if (op == "read") {
        marray<double, 2> t = quickread(path);
        std::ostringstream o; o << ",\"ex\":[" << std::min<size_t>(t.extent(0), 1000000) << "," << std::min<size_t>(t.extent(1), 1000000) << "],\"rows\":[";
        if (t.extent(0) * t.extent(1) < 100000) for (size_t i = 0; i < t.extent(0); i++) { o << (i ? ",[" : "["); for (size_t j = 0; j < t.extent(1); j++) o << (j ? "," : "") << h(t[i][j]); o << "]"; }
        out += o.str() + "]";
      } else if (op == "raw") { // rows of decimal tokens, blank lines dropped
        std::ifstream f(path.c_str()); std::string ln; std::ostringstream o; o << ",\"rows\":["; bool first = true;
        while (std::getline(f, ln)) { std::istringstream ls(ln); std::string tok; bool any = false; while (ls >> tok) { o << (any ? "," : first ? "[" : ",[") << q(tok); any = true; } if (any) { o << "]"; first = false; } }
        out += o.str() + "]";
      } else if (op == "rm") { unlink(path.c_str());
      } else if (op == "exists") { out += std::string(",\"v\":") + (fexists(path) ? "true" : "false");
      } else if (op == "setenv") { setenv("NUSQUIDS_DATA_PATH", unhex(n).c_str(), 1);
      } else if (op == "unsetenv") { unsetenv("NUSQUIDS_DATA_PATH");
      } else if (op == "res") { out += ",\"v\":" + q(getResourcePath()); }
    } catch (std::exception&) { out = "\"r\":\"refused\""; }
    printf("{%s}\n", out.c_str()); fflush(stdout);
  }
  printf("#done\n");
}
