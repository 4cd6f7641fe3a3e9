// M05 driver: runs histories of aligned allocations with the system allocator replaced by an arena that
// returns chosen addresses.  stdin: lines of operations; stdout: ndjson events.
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <new>
#include <utility>
#include <type_traits>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <map>
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include <nuSQuIDS/aligned_alloc.h>
#include <nuSQuIDS/marray.h>

typedef unsigned long long u64;
static char* arena = nullptr;               // 2^32-aligned, NORESERVE
static const u64 ARENA = 14ULL << 30;
static bool hooked = false;                 // only calls under test go to the arena
static u64 want = 0; static bool want_set = false, fail_next = false;
struct Blk { u64 off, n; };
static Blk blks[4096]; static int nblk = 0;
static u64 bump = 1 << 16;
static void lim(u64 v, char* o) { sprintf(o, "[%llu,%llu,%llu]", v >> 48, (v >> 24) & 0xffffff, v & 0xffffff); }
static void put(const char* fmt, const char* a, const char* b = "") { printf(fmt, a, b); }
static const u64 G = 64;                    // guard bytes on each side of a system block

static void* sysnew(size_t n) {
  char l1[80], l2[80]; lim(n, l1);
  if (n > (6ULL << 30) || fail_next || nblk >= 4000) { fail_next = false; put("{\"e\":\"sysfail\",\"n\":%s}\n", l1); fflush(stdout); throw std::bad_alloc(); }
  u64 off = bump + G;
  if (want_set) { while (((off & 0xffffffffULL) & ((want >> 32) - 1)) != (want & 0xffffffffULL)) { u64 m = (want >> 32) - 1, cur = off & m, t = want & 0xffffffffULL; off += (t - cur) & m; } }
  want_set = false;
  if (off + n + G >= ARENA) { put("{\"e\":\"sysfail\",\"n\":%s}\n", l1); fflush(stdout); throw std::bad_alloc(); }
  memset(arena + off - G, 0xA5, G); memset(arena + off + n, 0x5A, G);
  blks[nblk].off = off; blks[nblk].n = n; nblk++;
  bump = off + n + G;
  lim(off, l2); put("{\"e\":\"sysnew\",\"b\":%s,\"n\":%s}\n", l2, l1); fflush(stdout);
  return arena + off;
}
static void sysdel(void* p) {
  if (!p) return;
  u64 off = (char*)p - arena; char l[80];
  bool in = (char*)p >= arena && off < ARENA; int k = -1;
  if (in) for (int i = 0; i < nblk; i++) if (blks[i].off == off) k = i;
  if (k < 0) { if (!in) off = 0; lim(off, l); put("{\"e\":\"sysdel\",\"b\":%s,\"known\":false,\"guard\":true}\n", l); fflush(stdout); return; }
  bool g = true;
  for (u64 i = 0; i < G; i++) g = g && (unsigned char)arena[off - G + i] == 0xA5 && (unsigned char)arena[off + blks[k].n + i] == 0x5A;
  lim(off, l); put("{\"e\":\"sysdel\",\"b\":%s,\"known\":true,\"guard\":%s}\n", l, g ? "true" : "false"); fflush(stdout);
  if (blks[k].n > (1 << 20)) madvise(arena + ((off + 4095) & ~4095ULL), (blks[k].n - 4096) & ~4095ULL, MADV_DONTNEED);
  blks[k] = blks[--nblk];
}
static bool inarena(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
void* operator new(size_t n) { if (hooked) { return sysnew(n); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { if (hooked) { return sysnew(n); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void del(void* p) { if (!p) return; if (hooked || inarena(p)) { sysdel(p); return; } free(p); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }

struct S3 { char c[3]; }; struct S24 { double d[3]; }; struct Big { char c[5000]; };
static void onsig(int s) { char b[80]; int n = sprintf(b, "{\"e\":\"crash\",\"sig\":%d}\n", s); if (write(1, b, n)) {} _exit(0); }
static const char* B(bool b) { return b ? "true" : "false"; }

struct Live { char* p; u64 bytes, n; int ty, pow; unsigned char pat; };
static std::map<int, Live> live; static unsigned char pat = 1;
static u64 fillend(u64 bytes) { return bytes < (1 << 18) ? bytes : (1 << 17); }
static void fill(const Live& v) {
  if (!v.p) return; // large blocks: both ends only
  u64 f = fillend(v.bytes); memset(v.p, v.pat, f); if (f < v.bytes) memset(v.p + v.bytes - f, v.pat, f);
}
static bool intact(const Live& v) {
  u64 f = fillend(v.bytes);
  for (u64 i = 0; i < f; i++) if ((unsigned char)v.p[i] != v.pat || (unsigned char)v.p[v.bytes - f + i] != v.pat) return false;
  return true;
}
template <class T> static T* doalloc(int pow, u64 n, int how) {
  // how: 0 direct, 1 copy, 2 rebound from another type, 3 through allocator_traits
  aligned_allocator<T> a((uint8_t)pow);
  if (how == 1) { aligned_allocator<T> b(a); hooked = true; T* p = b.allocate(n); hooked = false; return p; }
  if (how == 2) { aligned_allocator<S24> c((uint8_t)pow); typename aligned_allocator<S24>::template rebind<T>::other b(c); hooked = true; T* p = b.allocate(n); hooked = false; return p; }
  if (how == 3) { hooked = true; T* p = std::allocator_traits<aligned_allocator<T>>::allocate(a, n); hooked = false; return p; }
  hooked = true; T* p = a.allocate(n); hooked = false; return p;
}
template <class T> static void dofree(char* p, int pow, u64 n, int how) {
  aligned_allocator<T> a((uint8_t)pow);
  if (how == 1) { aligned_allocator<T> b(a); hooked = true; b.deallocate((T*)p, n); hooked = false; return; }
  if (how == 2) { aligned_allocator<Big> c((uint8_t)pow); aligned_allocator<T> b(c); hooked = true; b.deallocate((T*)p, n); hooked = false; return; }
  hooked = true; a.deallocate((T*)p, n); hooked = false;
}
static size_t SZ[] = {1, 3, 4, 8, 24, 5000};

static void marr(int pow, unsigned seed) {
  typedef nusquids::marray<double, 2, aligned_allocator<double>> A;
  std::srand(seed);
  bool ok = true;
  printf("{\"e\":\"mbegin\",\"pow\":%d}\n", pow); fflush(stdout);
  std::vector<double> ref; 
  hooked = true;
  {
    aligned_allocator<double> al((uint8_t)pow), al2((uint8_t)(pow ^ 1));
    A a({3, 4}, al), b({2, 2}, al2), c({2, 5}, al);
    auto chk = [&](A& x, int q) { u64 d = (u64)(x.get_data() ? (char*)&*x.get_data() - arena : 0); hooked = false; char l[80]; lim(d, l); printf("{\"e\":\"mdata\",\"pow\":%d,\"a\":%s,\"bytes\":%llu}\n", q, l, (u64)(x.size() * 8)); fflush(stdout); hooked = true; };
    for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < 4; j++) a[i][j] = 10 * i + j;
    chk(a, pow); chk(b, pow ^ 1);
    a.insert(0, 1, 7.5, 2); chk(a, pow);
    a.erase(1, 0, 2); chk(a, pow);
    c = a; chk(c, pow);
    a.resize(1, 6); chk(a, pow);
    A d(c); chk(d, pow);
    A m(std::move(a)); chk(m, pow);
    b = c; chk(b, pow ^ 1);
    c = std::move(m); chk(c, pow);
    d.swap(c); chk(d, pow); chk(c, pow);
    b = std::move(d); chk(b, pow);   // moved allocator
  }
  hooked = false;
  printf("{\"e\":\"mend\"}\n"); fflush(stdout);
}

int main() {
  u64 len = ARENA + (1ULL << 32);
  char* raw = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (raw == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); return 3; }
  arena = (char*)(((uintptr_t)raw + 0xffffffffULL) & ~0xffffffffULL);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, onsig);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string op; is >> op;
    if (op == "reset") { live.clear(); nblk = 0; bump = 1 << 16; hooked = want_set = fail_next = false; printf("{\"e\":\"reset\"}\n"); }
    else if (op == "alloc") { // id ty pow how n(decimal u64) misalign-mod misalign-res failflag
      int id, ty, pow, how, f; u64 n, m, r; is >> id >> ty >> pow >> how >> n >> m >> r >> f;
      want = (m << 32) | r; want_set = m != 0; fail_next = f;
      char l[80]; lim(n, l);
      printf("{\"e\":\"call\",\"pow\":%d,\"sz\":%d,\"n\":%s}\n", pow, (int)SZ[ty], l); fflush(stdout);
      void* p = nullptr; bool th = false, other = false;
      try {
        switch (ty) { case 0: p = doalloc<char>(pow, n, how); break; case 1: p = doalloc<S3>(pow, n, how); break; case 2: p = doalloc<int>(pow, n, how); break;
          case 3: p = doalloc<double>(pow, n, how); break; case 4: p = doalloc<S24>(pow, n, how); break; default: p = doalloc<Big>(pow, n, how); }
      } catch (std::bad_alloc&) { th = true; } catch (...) { th = other = true; }
      hooked = false; fail_next = want_set = false;
      if (th) { printf("{\"e\":\"refused\",\"type\":%s}\n", other ? "false" : "true"); }
      else {
        bool in = (char*)p >= arena && (char*)p < arena + ARENA; char a[80]; lim(in ? (u64)((char*)p - arena) : 0, a);
        printf("{\"e\":\"got\",\"in\":%s,\"a\":%s}\n", B(in), a); fflush(stdout);
        bool fits = in; // writing is attempted only where the arena has memory
        u64 tot; if (__builtin_mul_overflow(n, (u64)SZ[ty], &tot) || tot > ARENA - (u64)((char*)p - arena)) fits = false;
        Live v; v.p = (char*)p; v.n = n; v.bytes = fits ? tot : 0; v.ty = ty; v.pow = pow; v.pat = pat = pat % 250 + 1;
        fill(v); live[id] = v;
      }
    } else if (op == "free") { int id, how; is >> id >> how; if (!live.count(id)) continue; Live v = live[id];
      char a[80]; lim((u64)(v.p - arena), a);
      printf("{\"e\":\"free\",\"a\":%s,\"ok\":%s}\n", a, B(intact(v))); fflush(stdout);
      switch (v.ty) { case 0: dofree<char>(v.p, v.pow, v.n, how); break; case 1: dofree<S3>(v.p, v.pow, v.n, how); break; case 2: dofree<int>(v.p, v.pow, v.n, how); break;
        case 3: dofree<double>(v.p, v.pow, v.n, how); break; case 4: dofree<S24>(v.p, v.pow, v.n, how); break; default: dofree<Big>(v.p, v.pow, v.n, how); }
      hooked = false; live.erase(id); printf("{\"e\":\"freed\"}\n");
    } else if (op == "cmp") { int p, q; is >> p >> q; aligned_allocator<int> a((uint8_t)p), b((uint8_t)q); aligned_allocator<char> c((uint8_t)q);
      printf("{\"e\":\"cmp\",\"p\":%d,\"q\":%d,\"r\":[%s,%s,%s,%s]}\n", p, q, B(a == b), B(a == c), B(!(a != b)), B(!(a != c)));
    } else if (op == "null") { aligned_allocator<int> a((uint8_t)4); hooked = true; a.deallocate(nullptr, 3); hooked = false; printf("{\"e\":\"null\"}\n");
    } else if (op == "marr") { int p; unsigned s; is >> p >> s; marr(p, s); }
    fflush(stdout);
  }
  printf("#done\n");
}
