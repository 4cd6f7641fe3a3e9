// F02/F03 driver: HDF5 helpers and wrappers; argv[1] = scratch directory. One command per line, one JSON object per line.
#include <cstdint>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <hdf5.h>
#include <nuSQuIDS/tools.h>
using namespace nusquids;
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"r\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static std::string h(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; sprintf(b, "\"%a\"", d); return b; }
static double rd(std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), nullptr); }
static std::string unhex(const std::string& s) { std::string o; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
static std::string hexs(const std::string& s) { std::string o = "x"; char b[4]; for (unsigned char c : s) { sprintf(b, "%02x", c); o += b; } return o; }

static bool gArm = false; // next allocation through FaultAlloc fails
template <class T> struct FaultAlloc : std::allocator<T> {
  template <class U> struct rebind { typedef FaultAlloc<U> other; };
  FaultAlloc() {} template <class U> FaultAlloc(const FaultAlloc<U>&) {}
  T* allocate(size_t n, const void* = nullptr) { if (gArm) throw std::bad_alloc(); return std::allocator<T>::allocate(n); }
};
static int gErrs = 0; static herr_t onerr(hid_t, void*) { gErrs++; return 0; }
// Identifiers are handed out in increasing order per kind: probes before and after a call bracket those made during it,
// and whatever in between is still valid was left open.
static hid_t gScratch = -1;
static std::vector<hid_t> probe() {
  std::vector<hid_t> v; hid_t i;
  i = H5Screate(H5S_SCALAR); v.push_back(i); H5Sclose(i);
  i = H5Tcopy(H5T_C_S1); v.push_back(i); H5Tclose(i);
  i = H5Pcreate(H5P_DATASET_CREATE); v.push_back(i); H5Pclose(i);
  i = H5Gopen2(gScratch, "/", H5P_DEFAULT); v.push_back(i); H5Gclose(i);
  i = H5Dopen2(gScratch, "s", H5P_DEFAULT); v.push_back(i); H5Dclose(i);
  i = H5Aopen(gScratch, "t", H5P_DEFAULT); v.push_back(i); H5Aclose(i);
  for (hid_t x : v) if (x < 0) { fprintf(stderr, "probe failed\n"); exit(3); }
  return v;
}
static std::vector<long> left(const std::vector<hid_t>& b, const std::vector<hid_t>& a, hid_t file) {
  std::vector<long> v;
  for (size_t k = 0; k < b.size(); k++) { long n = 0; if (a[k] - b[k] > 1000000 || a[k] <= b[k]) { fprintf(stderr, "identifiers are not sequential\n"); exit(3); } for (hid_t i = b[k] + 1; i < a[k]; i++) if (H5Iis_valid(i) > 0) n++; v.push_back(n); }
  v.push_back(H5Iget_ref(file) - 1); return v;
}

struct Digest { uint64_t a = 1469598103934665603ULL; size_t n = 0; void add(double d) { char b[64]; sprintf(b, "%a", d); for (char* p = b; *p; p++) { a ^= (unsigned char)*p; a *= 1099511628211ULL; } n++; } std::string str() const { char b[80]; sprintf(b, "%zu:%016llx", n, (unsigned long long)a); return b; } };
static double gen(uint64_t& s) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (double)(int)((s >> 40) % 20001) - 10000; }
static const size_t BIG = 400;

template <class Src, class Dst, unsigned R> std::string wr(hid_t loc, const std::string& name, const std::vector<size_t>& dims, std::istream& is, unsigned comp, bool big) {
  std::array<size_t, R> ex; std::copy_n(dims.begin(), R, ex.begin()); marray<Src, R> m(ex); std::string out; Digest dg;
  if (big) { uint64_t s; is >> s; for (auto& x : m) { double g = gen(s); if (std::is_unsigned<Src>::value || std::is_unsigned<Dst>::value) g = std::fabs(g); x = (Src)g; dg.add((double)x); } out = ",\"data\":\"" + dg.str() + "\""; }
  else for (auto& x : m) x = (Src)rd(is);
  marray<Src, R> keep(m);
  if (comp == 0 && dims[0] % 2) writeArrayH5<Dst>(loc, name, m); else writeArrayH5<Dst>(loc, name, m, comp);
  if (!std::equal(m.begin(), m.end(), keep.begin())) out += ",\"r\":\"argument changed\"";
  return out;
}
template <class Src, class Dst> std::string wr2(hid_t loc, const std::string& n, const std::vector<size_t>& d, std::istream& is, unsigned c, bool b) {
  switch (d.size()) { case 1: return wr<Src, Dst, 1>(loc, n, d, is, c, b); case 2: return wr<Src, Dst, 2>(loc, n, d, is, c, b); case 3: return wr<Src, Dst, 3>(loc, n, d, is, c, b); default: return wr<Src, Dst, 4>(loc, n, d, is, c, b); }
}
template <class Src> std::string wr1(const std::string& dst, hid_t loc, const std::string& n, const std::vector<size_t>& d, std::istream& is, unsigned c, bool b) {
  if (dst == "int") return wr2<Src, int>(loc, n, d, is, c, b);
  if (dst == "uint") return wr2<Src, unsigned>(loc, n, d, is, c, b);
  if (dst == "float") return wr2<Src, float>(loc, n, d, is, c, b);
  return wr2<Src, double>(loc, n, d, is, c, b);
}
template <class T, unsigned R> std::string rdArr(hid_t loc, const std::string& name, bool fault) {
  if (fault) { marray<T, R, FaultAlloc<T>> m; gArm = true; try { readArrayH5(loc, name, m); } catch (...) { gArm = false; throw; } gArm = false; return ""; }
  static marray<T, R> m; // reused: whatever it held before must be replaced
  readArrayH5(loc, name, m);
  std::ostringstream o; o << ",\"dims\":["; for (unsigned i = 0; i < R; i++) o << (i ? "," : "") << m.extent(i); o << "]";
  size_t n = m.size(); o << ",\"big\":" << (n > BIG ? "true" : "false") << ",\"data\":";
  if (n > BIG) { Digest d; for (auto x : m) d.add((double)x); o << "\"" << d.str() << "\""; }
  else { o << "["; size_t i = 0; for (auto x : m) o << (i++ ? "," : "") << h((double)x); o << "]"; }
  return o.str();
}
template <class T> std::string rdArr1(hid_t loc, const std::string& n, int rank, bool f) { switch (rank) { case 1: return rdArr<T, 1>(loc, n, f); case 2: return rdArr<T, 2>(loc, n, f); case 3: return rdArr<T, 3>(loc, n, f); default: return rdArr<T, 4>(loc, n, f); } }
template <class T> std::string rdAttr(hid_t o, const std::string& n) { T v = T(77); readH5Attribute(o, n, v); return ",\"v\":" + h((double)v); }

static std::vector<long> gLog; static std::map<hid_t, int> gIds; // fake handles
static herr_t delA(hid_t i) { gLog.push_back(i % 2 ? i - 100000 : 9000 + i - 100000); return 0; }   // odd identifiers belong to A
static herr_t delB(hid_t i) { gLog.push_back(i % 2 ? 9000 + i - 100000 : i - 100000); return 0; }
struct Wrap { virtual ~Wrap() {} };
int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, onsig);
  std::string dir = argv[1]; dir += "/"; std::string line; std::map<std::string, hid_t> files;
  H5Eset_auto2(H5E_DEFAULT, onerr, nullptr);
  { hsize_t n = 3; hid_t st = H5Tcopy(H5T_C_S1); H5Tset_size(st, 5); hid_t sp = H5Screate_simple(1, &n, nullptr); gScratch = H5Fcreate((dir + "strings.h5").c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    hid_t ds = H5Dcreate2(gScratch, "s", st, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dclose(ds); ds = H5Acreate2(gScratch, "t", st, sp, H5P_DEFAULT, H5P_DEFAULT); H5Aclose(ds); H5Sclose(sp); H5Tclose(st); }
  std::vector<std::unique_ptr<H5Handle>> H(5); std::vector<std::unique_ptr<H5File>> F(5); std::map<hid_t, int> fid; std::vector<hid_t> made(1, -1);
  auto path = [](const std::string& s) { return unhex(s); };
  while (std::getline(std::cin, line)) { alarm(25);
    std::istringstream is(line); std::string op, f; is >> op >> f; std::string out = "\"r\":\"ok\"";
    std::vector<hid_t> before; hid_t loc = -1; bool isattr = false;
    auto doH = [&]() -> std::string { // wrappers with logging deleters
      int s, d; is >> s >> d; gLog.clear(); std::string r = "ok";
      try {
        if (op == "new") { int id; is >> id; if (d == 0) {} H[d].reset(new H5Handle(100000 + id, id % 2 ? delA : delB, id % 3 ? "make a thing" : nullptr)); }
        else if (op == "bad") { int id; is >> id; std::unique_ptr<H5Handle> p(new H5Handle(-1 - id, delA, id % 2 ? "make a thing" : nullptr)); }
        else if (op == "empty") H[d].reset(new H5Handle());
        else if (op == "mc") H[d].reset(new H5Handle(std::move(*H[s])));
        else if (op == "ma") { H5Handle& r = (*H[d] = std::move(*H[s])); if (&r != H[d].get()) throw 1; }
        else if (op == "del") H[d].reset();
      } catch (std::exception&) { r = "refused"; }
      std::ostringstream o; o << "\"r\":\"" << r << "\",\"errs\":0,\"closed\":["; for (size_t i = 0; i < gLog.size(); i++) o << (i ? "," : "") << gLog[i];
      o << "],\"own\":["; for (int i = 1; i < 5; i++) { long v = -2; if (H[i]) { v = H[i]->get(); hid_t w = *H[i]; if (w != v) v = 8888; else if (v >= 100000) v -= 100000; else if (v < 0) v = -1; } o << (i > 1 ? "," : "") << v; } o << "]"; return o.str();
    };
    auto doF = [&]() -> std::string { // file wrappers on real files
      int s, d; is >> s >> d; gErrs = 0; std::vector<bool> was; for (size_t i = 0; i < made.size(); i++) was.push_back(made[i] >= 0 && H5Iis_valid(made[i]) > 0); gErrs = 0; std::string r = "ok";
      try {
        if (op == "new") { int id; is >> id; hid_t x = H5Fcreate((dir + "w" + std::to_string(id)).c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); if (x < 0) throw 1; F[d].reset(new H5File(x)); made.push_back(x); was.push_back(true); fid[x] = made.size() - 1; }
        else if (op == "empty") F[d].reset(new H5File(-1));
        else if (op == "mc") F[d].reset(new H5File(std::move(*F[s])));
        else if (op == "ma") { H5File& r = (*F[d] = std::move(*F[s])); if (&r != F[d].get()) throw 1; }
        else if (op == "del") F[d].reset();
      } catch (std::exception&) { r = "refused"; }
      int e = gErrs; std::ostringstream o; o << "\"r\":\"" << r << "\",\"errs\":" << e << ",\"closed\":["; bool first = true; for (size_t i = 1; i < made.size(); i++) if (was[i] && H5Iis_valid(made[i]) <= 0) { o << (first ? "" : ",") << i; first = false; }
      o << "],\"own\":["; for (int i = 1; i < 5; i++) { long v = -2; if (F[i]) { hid_t w = *F[i]; v = w > 0 ? (fid.count(w) ? fid[w] : 7777) : -1; } o << (i > 1 ? "," : "") << v; } o << "]"; return o.str();
    };
    if (f == "handle") { printf("{%s}\n", doH().c_str()); fflush(stdout); continue; }
    if (f == "file") { printf("{%s}\n", doF().c_str()); fflush(stdout); continue; }
    std::string fn = dir + f + ".h5";
    try {
      if (op == "create") { if (files.count(f)) H5Fclose(files[f]); files[f] = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); before = probe(); }
      else if (op == "reopen") { H5Fclose(files[f]); files[f] = H5Fopen(fn.c_str(), H5F_ACC_RDWR, H5P_DEFAULT); before = probe(); }
      else {
        std::string p; is >> p; p = path(p); hid_t file = files[f];
        // the location handed to the helper: the file, or a group or object opened by the caller
        std::string par = "/", leaf = p; if (op == "wattr" || op == "rattr") { loc = p == "/" ? file : H5Oopen(file, p.c_str(), H5P_DEFAULT); isattr = p != "/"; }
        else { int how; is >> how; size_t c = p.rfind('/'); if (how && c != std::string::npos) { loc = H5Gopen2(file, p.substr(0, c).c_str(), H5P_DEFAULT); isattr = loc >= 0; if (loc >= 0) leaf = p.substr(c + 1); else loc = file; } else loc = file; }
        before = probe();
        if (op == "group") { hid_t g = H5Gcreate2(loc, leaf.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Gclose(g); }
        else if (op == "link") { H5Lcreate_soft("/no/such/thing", loc, leaf.c_str(), H5P_DEFAULT, H5P_DEFAULT); }
        else if (op == "write") {
          std::string src, dst; unsigned rank, comp; int big; is >> src >> dst >> comp >> rank; std::vector<size_t> d(rank); for (auto& x : d) is >> x; is >> big;
          out += src == "int" ? wr1<int>(dst, loc, leaf, d, is, comp, big) : src == "uint" ? wr1<unsigned>(dst, loc, leaf, d, is, comp, big) : src == "float" ? wr1<float>(dst, loc, leaf, d, is, comp, big) : wr1<double>(dst, loc, leaf, d, is, comp, big);
        } else if (op == "read" || op == "readfail") {
          std::string t; int rank, fault; is >> t >> rank >> fault;
          if (op == "readfail" && !fault) out += rdArr1<double>(gScratch, "s", 1, false);
          else out += t == "int" ? rdArr1<int>(loc, leaf, rank, fault) : t == "uint" ? rdArr1<unsigned>(loc, leaf, rank, fault) : t == "float" ? rdArr1<float>(loc, leaf, rank, fault) : rdArr1<double>(loc, leaf, rank, fault);
        } else if (op == "exists") { bool b = h5ObjectExists(loc, leaf.c_str()); out += std::string(",\"v\":") + (b ? "true" : "false"); }
        else if (op == "wattr") { std::string a, t, v; is >> a >> t >> v; a = unhex(a);
          if (t == "string") addH5Attribute<std::string>(loc, a, unhex(v)); else { double x = strtod(v.c_str(), nullptr); if (t == "int") addH5Attribute(loc, a, (int)x); else if (t == "uint") addH5Attribute(loc, a, (unsigned)x); else if (t == "float") addH5Attribute(loc, a, (float)x); else addH5Attribute(loc, a, x); } }
        else if (op == "rattr") { std::string a, t; is >> a >> t; a = unhex(a);
          if (t == "string") { std::string v = "previous contents"; readH5Attribute(loc, a, v); out += ",\"v\":\"" + hexs(v) + "\""; } else out += t == "int" ? rdAttr<int>(loc, a) : t == "uint" ? rdAttr<unsigned>(loc, a) : t == "float" ? rdAttr<float>(loc, a) : rdAttr<double>(loc, a); }
      }
    } catch (std::exception&) { out = "\"r\":\"refused\""; }
    std::vector<long> lv = left(before, probe(), files[f]); out += ",\"ids\":["; for (size_t i = 0; i < lv.size(); i++) out += (i ? "," : "") + std::to_string(lv[i]); out += "]";
    if (isattr && loc >= 0) H5Oclose(loc);
    printf("{%s}\n", out.c_str()); fflush(stdout);
  }
  printf("#done\n");
}
