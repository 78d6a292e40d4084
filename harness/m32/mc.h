// the explorer of lib/mc.h for programs without a C or C++ library (32 bit): one process per
// worker (argv: worker workers [skip=SUITE] [only=SUITE] [thorough] [choices...]); a failure ends it
#pragma once
#define MC_M32 1
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <atomic>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" { extern void*m32_jmp[16]; extern void*m32_thrown; } extern int m32_armed;
// the object that a call throws, or null
template<class F> __attribute__((noinline)) void m32_call(F&f){ f(); }
template<class F> __attribute__((noinline)) void*m32_try(F&f){ void*volatile r=nullptr; if(__builtin_setjmp(m32_jmp)==0){ m32_armed=1; m32_call(f); m32_armed=0; } else r=m32_thrown; return r; }
namespace mc {
inline uint64_t h64(const void*p,size_t n,uint64_t h=0xcbf29ce484222325ull){ const uint8_t*b=(const uint8_t*)p; while(n>=8){uint64_t v;memcpy(&v,b,8);h=(h^v)*0x9fb21c651e98df25ull;h^=h>>32;b+=8;n-=8;} while(n--){h=(h^*b++)*0x100000001b3ull;} h^=h>>29;h*=0xff51afd7ed558ccdull;return h^(h>>32); }
inline uint64_t mix(uint64_t a,uint64_t b){uint64_t x[2]={a,b};return h64(x,16);}
inline bool&thorough(){static bool t=false;return t;}
struct Ctx{ std::vector<int> force,choice,width; long long evals=0,trans=0; size_t cap=2000000; bool capped=false; const char*suite=""; long ats[8]={}; int nat=0; struct Slot{long beat;}*slot=nullptr;
  std::unordered_set<uint64_t> states,outs; std::vector<std::string> samples;
  int choose(int n){ size_t i=choice.size(); int c=i<force.size()?force[i]:0; if(c>=n||n<=0){ printf("m32: divergence at choice %d: %d of %d\n",int(i),c,n); _exit(3); } choice.push_back(c); width.push_back(n); if(probe)__builtin_longjmp(probe_jmp,1); return c; }
  bool probe=false; void*probe_jmp[8]; // only asks for the number of first choices
  template<class F> __attribute__((noinline)) void first(F body){ probe=true; force={}; choice.clear(); width.clear(); if(!__builtin_setjmp(probe_jmp))body(*this); probe=false; }
  bool flip(){return choose(2);}
  template<class T> const T& pick(const std::vector<T>&v){return v[choose(int(v.size()))];}
  template<class...A> void at(A...a){ long v[]={long(a)...}; for(size_t i=0;i<sizeof...(a)&&i<8;i++)ats[i]=v[i]; nat=sizeof...(a); }
  void eval(long k=1){ evals+=k; } void tr(long k=1){trans+=k;}
  bool state(uint64_t h){ if(states.size()>=cap){capped=true;return true;} return states.insert(h).second; }
  void out(uint64_t h){ if(outs.size()<cap)outs.insert(h);else capped=true; } void out(const void*p,size_t n){out(h64(p,n));}
  [[noreturn]] void fail(const char*f,...) __attribute__((format(printf,2,3))) { static char b[3000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); printf("FAILED suite=%s choices=[",suite); for(size_t i=0;i<choice.size();i++)printf(i?",%d":"%d",choice[i]); printf("] at=["); for(int i=0;i<nat&&i<8;i++)printf(i?",%ld":"%ld",ats[i]); printf("]: %s\n",b); _exit(1); }
  void sample(const char*f,...) __attribute__((format(printf,2,3))) { if(samples.size()>=1)return; char b[600]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); samples.push_back(b); }
};
struct Suite{const char*name;void(*body)(Ctx&);};
inline std::vector<Suite>&suites(){static std::vector<Suite> s;return s;}
struct Reg{Reg(const char*n,void(*b)(Ctx&)){suites().push_back({n,b});}};
#define MC_SUITE(nm) static void mc_body_##nm(mc::Ctx&); static mc::Reg mc_reg_##nm(#nm,mc_body_##nm); static void mc_body_##nm([[maybe_unused]] mc::Ctx&C)
inline Ctx*&cur(){static Ctx*c=nullptr;return c;}
inline int main(int argc,char**argv,int=0){ std::vector<int> rep; const char*skip="",*only=""; int W=1,w=0; Ctx C; cur()=&C;
  for(int i=1;i<argc;i++){ const char*a=argv[i]; if(!strncmp(a,"skip=",5))skip=a+5; else if(!strncmp(a,"only=",5))only=a+5; else if(!strcmp(a,"thorough"))thorough()=true; else if(i==1)w=atoi(a); else if(i==2)W=atoi(a); else rep.push_back(atoi(a)); }
  for(auto&s:suites()){ bool no=false; for(const char*k=skip;*k;){ size_t n=0; while(k[n]&&k[n]!=',')n++; if(n==strlen(s.name)&&!strncmp(k,s.name,n))no=true; k+=n; if(*k)k++; } if(no||(*only&&strcmp(s.name,only)))continue; C.suite=s.name; long long ex=0,e0=C.evals; C.samples.clear();
    if(!rep.empty()){ C.force=rep; C.choice.clear();C.width.clear(); s.body(C); continue; }
    C.first(s.body); if(C.width.empty())_exit(3); for(int j=0,width=C.width[0];j<width;j++){ if(j%W!=w)continue; C.force={j};
      for(;;){ C.choice.clear();C.width.clear();C.nat=0; s.body(C); ex++; if(C.choice.empty())_exit(3); int i=int(C.choice.size())-1; while(i>0&&C.choice[i]+1>=C.width[i])i--; if(i<=0)break; C.force.assign(C.choice.begin(),C.choice.begin()+i+1); C.force[i]++; } }
    printf("SUITE %s %lld %lld %s\n",s.name,ex,C.evals-e0,C.samples.empty()?"":C.samples[0].c_str()); }
  printf("END %lld %lld %lld %d\n",C.trans,(long long)C.states.size(),(long long)C.outs.size(),int(C.capped)); return 0; }
}
