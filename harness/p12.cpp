// P12: memory. The same harness is built plain (guard pages, read-only inputs) and under sanitizers (exact heap blocks).
#include "subject.h"
#include <memory>
#include <sys/syscall.h>
#ifndef SUBJ
#define SUBJ SUBJECTS
#endif
#if defined(__SANITIZE_ADDRESS__)||defined(HEAPENV)
#define HEAP 1
#else
#define HEAP 0
#endif
// ---- guard pages: every input is at the end (or start) of a read-only page next to inaccessible ones; the harness writes through another mapping
static const size_t AREA=1<<16, PG=4096;
struct Area{ uint8_t*user,*alias; bool ro; Area(bool r):ro(r){ int fd=memfd_create("p12",0); if(fd<0||ftruncate(fd,AREA))_exit(96); uint8_t*m=(uint8_t*)mmap(nullptr,AREA+2*PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); user=(uint8_t*)mmap(m+PG,AREA,ro?PROT_READ:PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0); alias=(uint8_t*)mmap(nullptr,AREA,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);} };
static const uint8_t*matp(int slot,int seed){ static B*m[6][16]; auto&b=m[slot][seed]; if(!b)b=new B(ref::pattern(30000,100+slot*16+seed)); return b->data(); }
static uint8_t*null_page(){ static uint8_t*p=(uint8_t*)mmap(nullptr,PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); return p+PG/2; }
struct GuardEnv{ Ctx&C; const char*nm; bool end; int off; uint64_t h=1; size_t lastn=0; bool nul;
  static Area&area(int s){ static Area*a[6]; if(!a[s])a[s]=new Area(s!=5); return *a[s]; }
  const uint8_t*in(int slot,size_t n,int seed){ if(!n)return nul?nullptr:null_page(); Area&a=area(slot); size_t at=end?AREA-n:off; memcpy(a.alias+at,matp(slot,seed),n); return a.user+at; }
  uint8_t*out(size_t n){ lastn=n; if(!n)return nul?nullptr:null_page(); Area&a=area(5); size_t at=end?AREA-n:off; size_t lo=at<300?at:300,hi=AREA-at-n<300?AREA-at-n:300; memset(a.alias+at-lo,0xa7,lo+n+hi); return a.user+at; }
  void wrote(uint8_t*p,size_t r,size_t n,size_t expect){ if(r!=expect)C.fail("%s: %zu bytes reported, %zu expected",nm,r,expect); h=mc::mix(h,r); C.eval(); if(!n)return; for(size_t i=r;i<n;i++)if(p[i]!=0xa7)C.fail("%s: byte %zu written, %zu reported",nm,i,r); Area&a=area(5); size_t at=end?AREA-n:off; size_t lo=at<300?at:300,hi=AREA-at-n<300?AREA-at-n:300; for(size_t i=0;i<lo;i++)if(a.alias[at-lo+i]!=0xa7)C.fail("%s: wrote %zu before the output",nm,lo-i); for(size_t i=0;i<hi;i++)if(a.alias[at+n+i]!=0xa7)C.fail("%s: wrote %zu after the output",nm,i); h=mc::mix(h,mc::h64(p,r)); C.out(p,r); } };
// ---- exact heap blocks, for sanitizers
struct HeapEnv{ Ctx&C; const char*nm; bool end; int off; uint64_t h=1; bool nul; std::unique_ptr<uint8_t[]> b[6]; std::unique_ptr<uint8_t[]> o; HeapEnv(Ctx&c,const char*n,bool e,int of,uint64_t,size_t,bool nu):C(c),nm(n),end(e),off(of),nul(nu){}
  const uint8_t*in(int slot,size_t n,int seed){ if(!n&&nul)return nullptr; auto&x=b[slot]; x.reset(new uint8_t[n]); memcpy(x.get(),matp(slot,seed),n); return x.get(); }
  uint8_t*out(size_t n){ if(!n&&nul)return nullptr; o.reset(new uint8_t[n]); return o.get(); }
  void wrote(uint8_t*p,size_t r,size_t n,size_t expect){ if(r!=expect)C.fail("%s: %zu bytes reported, %zu expected",nm,r,expect); h=mc::mix(h,r); C.eval(); if(r){ h=mc::mix(h,mc::h64(p,r)); uint64_t x=mc::h64(p,r); if(x==0x1234567)C.sample("."); C.out(x);} } };
#if HEAP
using Env=HeapEnv;
#else
using Env=GuardEnv;
#endif
// an object at the end of a page that is followed by an inaccessible one, in memory with a given fill, and a polluted stack
__attribute__((noinline)) static void pollute(int v){ volatile uint8_t a[6000]; for(size_t i=0;i<sizeof a;i++)a[i]=v; asm volatile(""::"r"(a):"memory"); }
template<class T> struct Obj{ T*p; uint8_t*raw=nullptr; Obj(int fill,bool end){
#if HEAP
  raw=(uint8_t*)malloc(sizeof(T)); memset(raw,fill,sizeof(T)); p=new(raw)T; }
  ~Obj(){p->~T();free(raw);}
#else
  static uint8_t*m=nullptr; static size_t S=(sizeof(T)+PG-1)/PG*PG; if(!m){m=(uint8_t*)mmap(nullptr,S+2*PG,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);mprotect(m+PG,S,PROT_READ|PROT_WRITE);} memset(m+PG,fill,S); raw=m+PG; size_t at=end?S-sizeof(T):0; p=new(m+PG+at)T; }
  ~Obj(){p->~T();}
#endif
  T&operator*(){return *p;} };
static const int FILLS[]={0,0xff,0x5a};
// every legal sequence of operations up to a depth, with a small set of sizes; all placements and fills must give the same results
template<class S> static void sequences(Ctx&C,const char*nm){ int depth=(mc::thorough()?6:5)-(HEAP?1:0); size_t b=S::block(); if(b>256)b=mc::thorough()?b:64; const size_t sz[]={0,1,b/2+1,b,b+1,2*b+7}; const int NS=mc::thorough()?6:5; static const size_t szi[]={0,1,3,4,5,2};
  struct St{int op;size_t n;}; std::vector<St> seq; int ph=READY; seq.push_back({S::INIT,S::sized(S::INIT)?sz[szi[C.choose(NS)]]:0}); int fill0=0; 
  for(int i=1;i<depth;i++){ std::vector<St> opt; for(int o=0;o<S::OPS;o++)if(S::legal(ph,o)&&!(o==S::INIT&&i==1)){ if(S::sized(o))for(int k=0;k<NS;k++)opt.push_back({o,sz[szi[k]]}); else opt.push_back({o,0}); } if(opt.empty())break; St s=opt[C.choose(int(opt.size()))]; seq.push_back(s); C.tr();
    switch(s.op){default:break;} // the phase after an operation is what run() returns; computed on a scratch object
    { struct Nul{ uint8_t buf[30000]; const uint8_t*in(int sl,size_t,int sd){return matp(sl,sd);} uint8_t*out(size_t){return buf;} void wrote(uint8_t*,size_t,size_t,size_t){} }; static Nul nul; typename S::T t; int p=RAW; for(auto&x:seq)p=S::run(t,x.op,x.n,nul,p); ph=p; } }
  uint64_t h0=0; bool first=true; int nf=HEAP?1:3; for(int f=0;f<nf;f++)for(int pl=0;pl<2;pl++){ C.at(f,pl,seq.size()); Env e{C,nm,pl==0,pl==0?0:(f*7),1,0,(f+pl)%2==1}; pollute(FILLS[f]); { Obj<typename S::T> o(FILLS[f],pl==0); int p=RAW; for(auto&s:seq){ pollute(FILLS[(f+1)%3]); p=S::run(*o,s.op,s.n,e,p,s.op==0?1:2);} } if(first){h0=e.h;first=false;} else if(e.h!=h0){std::string w;for(auto&s:seq)w+=std::string(S::op(s.op))+"("+std::to_string(s.n)+") ";C.fail("%s: %sgives different results with other fills or placements of unrelated memory",nm,w.c_str());} } (void)fill0; }
// every size of every operation, alone and after a prefix of every residue class
template<class S> static void sizes(Ctx&C,const char*nm,int part,int parts){ size_t b=S::block(); size_t mx=mc::thorough()?5*b+3:2*b+3; if(mx>1200&&!mc::thorough())mx=1200; 
  for(size_t n=part;n<=mx;n+=parts)for(int o=0;o<S::OPS;o++){ if(!S::sized(o))continue; for(size_t pre:{size_t(0),size_t(1),n%b,b-1}){ uint64_t h0=0; bool first=true; for(int v=0;v<(HEAP?2:4);v++){ C.at(o,n,pre,v); Env e{C,nm,v%2==0,v%2==0?0:v*3,1,0,HEAP?v==1:v>=2}; pollute(FILLS[v%3]); Obj<typename S::T> x(FILLS[v%3],v%2); int p=S::run(*x,S::INIT,o==S::INIT?n:32,e,RAW,1);
       // reach a phase in which o is legal: feed pre bytes, then finalize where needed
       for(int k=1;k<S::OPS&&o!=S::INIT;k++)if(k!=o&&S::sized(k)&&S::legal(p,k)&&pre&&k<3){ int q=S::run(*x,k,pre,e,p,2); p=q; if(S::legal(p,o))break; }
       if(!S::legal(p,o))for(int k=1;k<S::OPS;k++)if(!S::sized(k)&&S::legal(p,k)){p=S::run(*x,k,0,e,p,2);} if(!S::legal(p,o)){continue;} if(o!=S::INIT){p=S::run(*x,o,n,e,p,3); if(S::legal(p,o))p=S::run(*x,o,pre,e,p,4);} else p=S::run(*x,S::OPS>2?1:0,pre,e,p,3);
       // whatever is left: close and read the result
       for(int k=1;k<S::OPS;k++)if(!S::sized(k)&&S::legal(p,k))p=S::run(*x,k,0,e,p,5); if(S::legal(p,S::OPS-1))p=S::run(*x,S::OPS-1,40,e,p,6); if(first){h0=e.h;first=false;}else if(e.h!=h0)C.fail("%s: %s of %zu bytes after %zu gives different results with other fills or placements of unrelated memory",nm,S::op(o),n,pre); } } } C.sample("%s: sizes 0..%zu",nm,mx); }
struct Sub{const char*nm;int need;void(*seq)(Ctx&,const char*);void(*sz)(Ctx&,const char*,int,int);};
#define Y(n,s,nd) {n,nd,sequences<s>,sizes<s>},
static const Sub SB[]={SUBJ(Y)}; static const int NSB=sizeof SB/sizeof*SB;
static const std::vector<int>&ok(){static std::vector<int> r=[]{std::vector<int>r;for(int i=0;i<NSB;i++)if(have(SB[i].need))r.push_back(i);return r;}();return r;}
MC_SUITE(sequences){ auto&s=SB[ok()[C.choose(int(ok().size()))]]; s.seq(C,s.nm); C.sample("%s",s.nm); }
MC_SUITE(sizes){ int c=C.choose(int(ok().size())*4); auto&s=SB[ok()[c/4]]; s.sz(C,s.nm,c%4,4); }
// codecs: valid and broken inputs of every size
template<class K> static void codec(Ctx&C,const char*nm,int part){ static const char*al="0123456789abcdef"; using milo::error; for(size_t n=part;n<(mc::thorough()?1200u:300u);n+=4)for(int v=0;v<(HEAP?2:4);v++){ Env e{C,nm,v%2==0,v%2==0?0:v*3,1,0,HEAP?v==1:v>=2}; C.at(n,v); const uint8_t*p=e.in(0,n,1); size_t z=K::encode_size(p,n); uint8_t*o=e.out(z); size_t r=K::encode(p,n,o); e.wrote(o,r,z,z); 
   // text of n characters in the input slot
   for(int bad=-1;bad<=int(n);bad=bad<0?0:bad<2?bad+1:bad+1+int(n)/5){ B t(n); for(size_t i=0;i<n;i++)t[i]=al[(i*7+n)%16]; if(n%4==0&&n>4&&n%8==0&&sizeof(K)&&nm[5]=='6'){t[n-1]='=';if(n%16==0)t[n-2]='=';} if(bad>=0&&bad<int(n))t[bad]=bad%3==0?'!':bad%3==1?0xff:'='; 
#if HEAP
     std::unique_ptr<uint8_t[]> q(new uint8_t[n]); if(n)memcpy(q.get(),t.data(),n); const uint8_t*tp=q.get();
#else
     const uint8_t*tp=n?nullptr:(e.nul?nullptr:null_page()); if(n){ Area&a=GuardEnv::area(0); size_t at=e.end?AREA-n:e.off; memcpy(a.alias+at,t.data(),n); tp=a.user+at; }
#endif
     size_t dz=K::decode_size(tp,n); uint8_t*d=e.out(dz); error er; size_t g=K::decode(tp,n,d,er); if(g>dz)C.fail("%s: decode reported %zu of %zu",nm,g,dz); if(!er)e.wrote(d,g,dz,g); else { C.eval();
#if !HEAP
       for(size_t i=g;i<dz;i++)if(d[i]!=0xa7)C.fail("%s: failed decode of %zu characters: byte %zu written, %zu reported",nm,n,i,g);
       Area&a=GuardEnv::area(5); if(dz){ size_t at=e.end?AREA-dz:e.off; for(size_t i=0;i<(at<300?at:300);i++)if(a.alias[at-1-i]!=0xa7)C.fail("%s: wrote before the output",nm); for(size_t i=0;i<300&&at+dz+i<AREA;i++)if(a.alias[at+dz+i]!=0xa7)C.fail("%s: wrote after the output",nm);} 
#endif
     } } } }
MC_SUITE(codecs){ int c=C.choose(8); if(c%2)codec<P::codec::base_16<>>(C,"base_16",c/2); else codec<P::codec::base_64<>>(C,"base_64",c/2); C.sample("codecs"); }
// verification: the tag is read within its size only, every size
template<class A> static void verify(Ctx&C,const char*nm){ for(size_t n=0;n<=40;n++)for(int v=0;v<(HEAP?2:4);v++)for(size_t m:{0,1,70}){ C.at(n,v,m); Env e{C,nm,v%2==0,v%2==0?0:v,1,0,HEAP?v==1:v>=2}; P::aead::apie<A> a; a.initialize(e.in(1,32,0),32,e.in(2,12,0),12); a.aad(e.in(3,m,0),m); uint8_t*o=e.out(m); size_t r=a.decrypt(e.in(0,m,0),m,o); e.wrote(o,r,m,m); milo::error er; const uint8_t*t=e.in(4,n,0); a.verify(t,n,er); if(!er)C.fail("%s: pattern accepted as a tag",nm); uint8_t x[16]; a.digest(x,16); if(n==16){
#if HEAP
   std::unique_ptr<uint8_t[]> q(new uint8_t[16]); memcpy(q.get(),x,16); t=q.get();
#else
   memcpy(GuardEnv::area(4).alias+(t-GuardEnv::area(4).user),x,16);
#endif
   a.verify(t,16,er); if(er)C.fail("%s: right tag rejected",nm);} C.eval(); } }
MC_SUITE(verify){ int c=C.choose(2); if(c)verify<P::aead_chacha_20_poly_1305>(C,"aead"); else verify<P::aead_chacha_20_sw_poly_1305_sw>(C,"aead_sw"); C.sample("tags of 0..40 bytes"); }
int main(int c,char**v){return mc::main(c,v);}
