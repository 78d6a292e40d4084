// P14: the assembly that asks the processor returns what the processor says
#include "all.h"
#include <sched.h>
MC_SUITE(cpuid){ int part=C.choose(4); cpu_set_t s; sched_getaffinity(0,sizeof s,&s); for(int i=0;i<1024;i++)if(CPU_ISSET(i,&s)){CPU_ZERO(&s);CPU_SET(i,&s);sched_setaffinity(0,sizeof s,&s);break;} unsigned mx=__get_cpuid_max(0,nullptr);
  for(unsigned leaf=0;leaf<=mx&&leaf<64;leaf++)for(unsigned sub=part;sub<32;sub+=4){ if(leaf==0xd)continue; C.at(leaf,sub); uint32_t g[6]={0x5a5a5a5a,1,2,3,4,0x5a5a5a5a},e[4]; milo::internal::arch_x86_64_cpuid(g+1,leaf,sub); __cpuid_count(leaf,sub,e[0],e[1],e[2],e[3]); if(memcmp(g+1,e,16))C.fail("leaf %u subleaf %u: %08x %08x %08x %08x, the processor says %08x %08x %08x %08x",leaf,sub,g[1],g[2],g[3],g[4],e[0],e[1],e[2],e[3]); if(g[0]!=0x5a5a5a5a||g[5]!=0x5a5a5a5a)C.fail("writes outside its result"); C.eval(); C.out(mc::h64(e,16)); }
  unsigned a,b,c,d; __cpuid(1,a,b,c,d); if(c>>27&1){ uint32_t x,y; asm volatile("xgetbv":"=a"(x),"=d"(y):"c"(0)); if(milo::internal::arch_x86_64_xgetbv()!=x)C.fail("xgetbv: %x, the processor says %x",milo::internal::arch_x86_64_xgetbv(),x); C.eval(); } C.sample("leaves 0..%u",mx); }
int main(int c,char**v){return mc::main(c,v);}
