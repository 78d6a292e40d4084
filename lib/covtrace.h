// traces from compiler instrumentation (-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores): basic blocks and the addresses of loads and stores
#pragma once
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#define NOCOV __attribute__((no_sanitize("coverage"),noinline))
namespace cov{
static const size_t CAP=1<<22; inline uint64_t*ref=nullptr; inline size_t nref=0,pos=0,bad=0; inline uint64_t badev=0; inline int mode=0; inline bool overflow=false,differs=false;
NOCOV inline void ev(uint64_t e){ if(mode==1){ if(nref<CAP)ref[nref++]=e; else overflow=true; } else if(mode==2&&!differs){ if(pos>=nref||ref[pos]!=e){differs=true;bad=pos;badev=e;} else pos++; } }
inline ucontext_t back,there; inline uint8_t*stk=nullptr; inline void(*fun)(); inline int want=0; static const size_t STK=1<<20;
NOCOV inline void hop(){ mode=want; fun(); mode=0; }
NOCOV inline void run(void(*f)(),int m){ fun=f; want=m; if(!stk){stk=(uint8_t*)mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);ref=(uint64_t*)mmap(nullptr,CAP*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);} getcontext(&there); there.uc_stack.ss_sp=stk; there.uc_stack.ss_size=STK; there.uc_link=&back; makecontext(&there,hop,0); swapcontext(&back,&there); }
NOCOV inline size_t first(void(*f)()){ nref=0;overflow=false; run(f,1); return nref; }
NOCOV inline bool again(void(*f)()){ pos=0;differs=false; run(f,2); if(!differs&&pos!=nref){differs=true;bad=pos;badev=0;} return !differs; }
NOCOV inline void describe(char*b,size_t n){ auto k=[](uint64_t e){return e>>62==0?"block":e>>62==1?"load of":"store to";}; const uint64_t M=(1ull<<62)-1; if(bad<nref)snprintf(b,n,"event %zu of %zu: first %s 0x%llx, then %s 0x%llx",bad,nref,k(ref[bad]),(unsigned long long)(ref[bad]&M),k(badev),(unsigned long long)(badev&M)); else snprintf(b,n,"%zu events, then more",nref); }
}
extern "C"{ NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t*,uint32_t*){} NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*){cov::ev(uint64_t(__builtin_return_address(0)));}
#define LD(n,t) NOCOV void __sanitizer_cov_load##n(t*a){cov::ev(uint64_t(a)|1ull<<62);} NOCOV void __sanitizer_cov_store##n(t*a){cov::ev(uint64_t(a)|2ull<<62);}
LD(1,uint8_t) LD(2,uint16_t) LD(4,uint32_t) LD(8,uint64_t) LD(16,__int128)
}
