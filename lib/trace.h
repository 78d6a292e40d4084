// single stepping of code in this process: the sequence of instructions and of addresses they access
#pragma once
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <asm/prctl.h>
#include <sys/syscall.h>
#ifndef ARCH_GET_FS
#define ARCH_GET_FS 0x1003
#endif
namespace trace{
struct Opnd{int8_t base,index,scale;uint8_t used,seg,write,x,y;int64_t disp;};
struct Table{uint64_t lo=0,hi=0,n=0;const uint32_t*at=nullptr;const Opnd*rec=nullptr;};
inline Table T; 
inline bool load(){ static char p[4200]; ssize_t l=readlink("/proc/self/exe",p,4096); if(l<0)return false; strcpy(p+l,".table"); int fd=open(p,O_RDONLY); struct stat s; if(fd<0||fstat(fd,&s))return false; auto*m=(const uint8_t*)mmap(nullptr,s.st_size,PROT_READ,MAP_SHARED,fd,0); close(fd); if(m==MAP_FAILED)return false; memcpy(&T.lo,m,24); T.at=(const uint32_t*)(m+24); T.rec=(const Opnd*)(m+24+4*(T.hi-T.lo)); return true; }
struct Ev{uint64_t ip;uint64_t ea[2];};
// -- a trace: reference run stores events, later runs are compared
static const size_t CAP=1<<23;
inline Ev*ref=nullptr; inline size_t nref=0; inline bool storing=false; inline size_t pos=0; inline size_t bad=0; inline Ev badev; inline bool differs=false; inline uint64_t stop_ip=0; inline bool overflow=false; inline uint64_t fsbase=0; inline unsigned long long total=0;
inline uint64_t ea(const Opnd&o,const greg_t*g){ uint64_t v=o.disp; if(o.base>=0)v+=g[o.base]; if(o.index>=0)v+=g[o.index]*o.scale; if(o.seg==1)v+=fsbase; return v; }
inline void decode(Ev&e,const greg_t*g){ e.ip=g[REG_RIP]; e.ea[0]=e.ea[1]=0; if(e.ip>=T.lo&&e.ip<T.hi){ uint32_t k=T.at[e.ip-T.lo]; if(k!=0xffffffffu&&k){ const Opnd*o=T.rec+2*k; if(o[0].used)e.ea[0]=ea(o[0],g); if(o[1].used)e.ea[1]=ea(o[1],g); } } }
inline void on(int,siginfo_t*,void*c){ auto*u=(ucontext_t*)c; greg_t*g=u->uc_mcontext.gregs; Ev e; decode(e,g); total++; if(storing){ if(nref<CAP)ref[nref++]=e; else overflow=true; } else { if(!differs){ if(pos>=nref||ref[pos].ip!=e.ip||ref[pos].ea[0]!=e.ea[0]||ref[pos].ea[1]!=e.ea[1]){differs=true;bad=pos;badev=e;} else pos++; } if(differs)g[REG_EFL]&=~0x100ull; } }
inline void init(){ static bool done=false; if(done)return; done=true; if(!load()){fprintf(stderr,"no trace table\n");_exit(95);} syscall(SYS_arch_prctl,ARCH_GET_FS,&fsbase); ref=(Ev*)mmap(nullptr,CAP*sizeof(Ev),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=on; a.sa_flags=SA_SIGINFO|SA_ONSTACK; sigaction(SIGTRAP,&a,nullptr); static uint8_t*st=(uint8_t*)mmap(nullptr,1<<18,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=st; ss.ss_size=1<<18; sigaltstack(&ss,nullptr); }
#define TRACE_ON  asm volatile("sub $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; add $128,%%rsp":::"memory","cc")
#define TRACE_OFF asm volatile("sub $128,%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; add $128,%%rsp":::"memory","cc")
// always on the same stack at the same depth, so that addresses can be compared
inline ucontext_t back,there; inline uint8_t*stk=nullptr; static const size_t STK=1<<20;
inline void(*fun)(); inline void hop(){ TRACE_ON; fun(); TRACE_OFF; }
__attribute__((noinline)) inline void stepped(void(*f)()){ fun=f; if(!stk)stk=(uint8_t*)mmap(nullptr,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); getcontext(&there); there.uc_stack.ss_sp=stk; there.uc_stack.ss_size=STK; there.uc_link=&back; makecontext(&there,hop,0); swapcontext(&back,&there); }
// the first run: stores; returns the number of steps
inline size_t first(void(*f)()){ init(); storing=true;nref=0;overflow=false; stepped(f); storing=false; return nref; }
// another run: true when it took the same steps
inline bool again(void(*f)()){ pos=0;differs=false; stepped(f); if(!differs&&pos!=nref){differs=true;bad=pos;badev=Ev{0,{0,0}};} return !differs; }
inline void describe(char*b,size_t n){ if(bad<nref)snprintf(b,n,"step %zu of %zu: first at 0x%llx accessing 0x%llx/0x%llx, then at 0x%llx accessing 0x%llx/0x%llx",bad,nref,(unsigned long long)ref[bad].ip,(unsigned long long)ref[bad].ea[0],(unsigned long long)ref[bad].ea[1],(unsigned long long)badev.ip,(unsigned long long)badev.ea[0],(unsigned long long)badev.ea[1]); else snprintf(b,n,"%zu steps, then more (at 0x%llx)",nref,(unsigned long long)badev.ip); }
}
