#include "arith_core.h"
#include <csignal>
#include <unistd.h>
#include <cstdlib>
std::map<uint64_t,long> tok; std::mt19937 rng;
static std::string buf;
void emitLine(const std::string& s){ buf+=s+"\n"; if(buf.size()>60000){ fwrite(buf.data(),1,buf.size(),stdout); buf.clear(); } }
std::string ints(const std::vector<long>& a){ std::string s="["; for(size_t i=0;i<a.size();i++){ if(i) s+=","; s+=std::to_string(a[i]); } return s+"]"; }
static std::vector<Fn>& fns(){ static std::vector<Fn> f; return f; }
RegA::RegA(Fn f){ fns().push_back(f); }
static void sig(int s){ emitLine("{\"e\":\"crash\"}"); fwrite(buf.data(),1,buf.size(),stdout); fflush(stdout); _exit(77); }
int main(int c,char** v){
  for(int s: {SIGSEGV,SIGABRT,SIGFPE,SIGBUS}) signal(s,sig);
  rng.seed(atoi(v[1])); int n=atoi(v[2]);
  for(int i=0;i<n;i++) for(Fn f: fns()) f();
  fwrite(buf.data(),1,buf.size(),stdout); printf("#done\n"); return 0;
}
