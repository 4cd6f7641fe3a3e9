#include "marray_core.h"
#include <iostream>
#include <csignal>
#include <unistd.h>
namespace led {
std::map<char*,Block> blocks; int nextSerial=1; std::unordered_set<const void*> live; long tmps=0; long countdown=-1; bool fired=false;
static std::string buf;
static char rk=0; static int rb=0; static long ri=0, rn=0;
void line(const std::string& s){ buf+=s; buf+='\n'; if(buf.size()>1<<16){ fwrite(buf.data(),1,buf.size(),stdout); buf.clear(); } }
void flushAll(){ flushRun(); fwrite(buf.data(),1,buf.size(),stdout); buf.clear(); fflush(stdout); }
void flushRun(){
  if(!rn) return;
  line(std::string("{\"e\":\"")+(rk=='c'?"ctor":"dtor")+"\",\"b\":"+std::to_string(rb)+",\"i\":"+std::to_string(ri)+",\"n\":"+std::to_string(rn)+"}");
  rn=0;
}
void bad(const char* w){ flushRun(); line(std::string("{\"e\":\"bad\",\"w\":\"")+w+"\"}"); }
void elem(char k,const void* p){
  if(k=='c'){ if(live.count(p)) bad("construct over a live element"); live.insert(p); } else live.erase(p);
  auto it=blocks.upper_bound((char*)p);
  int b=0; long i=0;
  if(it!=blocks.begin()){ --it; Block& B=it->second; if((char*)p>=B.base && (char*)p<B.base+B.bytes){ b=B.serial; i=((char*)p-B.base)/B.esize; } }
  if(!b){ tmps+=k=='c'?1:-1; return; }
  if(rn && rk==k && rb==b && i==ri+rn){ rn++; return; }
  flushRun(); rk=k; rb=b; ri=i; rn=1;
}
}
static std::map<std::string,Runner>& table(){ static std::map<std::string,Runner> t; return t; }
Reg::Reg(const char* n,Runner r){ table()[n]=r; }
static void onsig(int s){ led::line("{\"e\":\"crash\",\"sig\":"+std::to_string(s)+"}"); led::flushAll(); _exit(77); }
int main(){
  for(int s: {SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL}) signal(s,onsig);
  std::set_terminate([]{ led::line("{\"e\":\"crash\",\"sig\":-1}"); led::flushAll(); _exit(77); });
  std::string l;
  while(std::getline(std::cin,l)){
    // name|cfg json|script
    size_t a=l.find('|'), b=l.find('|',a+1); if(a==std::string::npos||b==std::string::npos) continue;
    auto it=table().find(l.substr(0,a)); if(it==table().end()){ fprintf(stderr,"no type %s\n",l.c_str()); return 3; }
    it->second(l.substr(b+1),l.substr(a+1,b-a-1));
  }
  led::flushAll(); printf("#done\n"); return 0;
}
