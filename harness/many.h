// more calls, and more uses of one object, than a byte or two can count
#pragma once
#include "subject.h"
namespace many {
template<class>struct Hk{static constexpr bool v=false;}; template<class K,bool W>struct Hk<SKdf<K,true,W>>{static constexpr bool v=true;};
static const size_t N=66000;
static const uint8_t*big(){ static std::vector<uint8_t> b=[]{std::vector<uint8_t> r(N*80);uint32_t x=7;for(auto&v:r){x=x*1664525+1013904223;v=uint8_t(x>>24);}return r;}(); return b.data(); }
struct Env{ size_t ip[4]={0,0,0,0}; std::vector<uint8_t> o; size_t at=0; bool bad=false;
  const uint8_t*in(int s,size_t n,int){ size_t p=ip[s]; ip[s]+=n; return big()+(s==1||s==2?77*s:p); }
  uint8_t*out(size_t n){ o.resize(at+n); return o.data()+at; } void wrote(const uint8_t*,size_t r,size_t n,size_t expect){ if(r!=expect)bad=true; o.resize(at+=r); (void)n; } };
template<class S> static void close(typename S::T&o,int ph,Env&e){ if(S::OPS==6&&ph==READY)ph=S::run(o,2,50,e,ph,0); for(int p=1;p<S::OPS;p++)if(!S::sized(p)&&S::legal(ph,p))ph=S::run(o,p,0,e,ph,0); if(S::OPS>2&&S::legal(ph,S::OPS-1))ph=S::run(o,S::OPS-1,64,e,ph,0); if(S::OPS==2)ph=S::run(o,1,50,e,ph,0); }
template<class S> static int init(typename S::T&o,Env&e,size_t k){ return S::run(o,0,S::sized(0)?k:0,e,RAW,1); }
template<class S> static bool stream(int p){ bool cipher=S::OPS==4&&S::sized(2)&&!std::is_same_v<S,void>&&S::legal(READY,2)&&S::sized(3)&&!S::legal(DONE,3); return p==1||(S::OPS==6&&p<=3)||(S::OPS==4&&cipher&&p<=3); }
template<class S> static void calls(Ctx&C,const char*nm,size_t c){ for(int p=1;p<S::OPS&&p<4;p++){ if(!S::sized(p)||!S::legal(READY,p)||!stream<S>(p))continue; size_t n=N; if(Hk<S>::v&&c)n=5000/c; C.at(p,c);
    Env e,f; Box<typename S::T> a,b; int x=init<S>(*a,e,30),y=init<S>(*b,f,30); for(size_t i=0;i<n;i++)x=S::run(*a,p,c,e,x,0); y=S::run(*b,p,n*c,f,y,0); if(c&&e.o!=f.o)C.fail("%s: %zu calls of %s with %zu bytes do not give what one call gives",nm,n,S::op(p),c); close<S>(*a,x,e); close<S>(*b,y,f); if(e.bad||f.bad)C.fail("%s: %s: wrong size reported",nm,S::op(p)); if(e.o!=f.o)C.fail("%s: after %zu calls of %s with %zu bytes the result differs from that of one call",nm,n,S::op(p),c); C.eval(); C.tr(long(n)); C.out(e.o.data(),e.o.size()); } }
template<class S> static void uses(Ctx&C,const char*nm){ std::vector<uint8_t> want[7]; for(int k=0;k<7;k++){ Box<typename S::T> a; Env e; int x=init<S>(*a,e,k*9); x=S::run(*a,1,k,e,x,0); close<S>(*a,x,e); want[k]=e.o; } 
  Box<typename S::T> a; for(size_t i=0;i<N;i++){ int k=int(i%7); C.at(int(i)); Env e; int x=init<S>(*a,e,k*9); x=S::run(*a,1,k,e,x,0); close<S>(*a,x,e); if(e.bad||e.o!=want[k])C.fail("%s: use number %zu of an object gives another result than the first of a new one",nm,i+1); } C.eval(long(N)); C.tr(long(N)*4); }
// one call of every size against the same bytes given one by one; results asked for in every size
inline size_t every(bool kdf){ return kdf?5040:mc::thorough()?66000:20000; }
template<class S> static void sizes(Ctx&C,const char*nm,int p,int part,int parts){ if(p>=S::OPS||!S::sized(p))return; const bool last=p==S::OPS-1&&S::OPS>2; const bool dig=!stream<S>(p); if(dig&&(!last||S::legal(READY,1)&&S::legal(READY,2)&&S::legal(READY,3)&&S::OPS==4))return; const size_t N=every(Hk<S>::v||S::OPS==2); size_t lo=N*part/parts,hi=N*(part+1)/parts+1;
  Env f; Box<typename S::T> b; int y=init<S>(*b,f,30);
  if(dig){ y=S::run(*b,1,20,f,y,0); int k=y; if(!S::legal(k,p)){k=S::run(*b,p-1,0,f,k,0);} Box<typename S::T> full(b); f.at=0;f.o.clear(); S::run(*full,p,64,f,k,0); for(size_t n=lo;n<hi;n++){ C.at(p,n); Box<typename S::T> a(b); Env e; e.o.assign(n,0x5a); S::run(*a,p,n,e,k,0); size_t w=std::min(n,f.at); if(e.bad||e.at!=w||memcmp(e.o.data(),f.o.data(),w))C.fail("%s: %s of %zu bytes differs from the first bytes of the whole",nm,S::op(p),n); C.eval(); } return; }
  y=S::run(*b,p,lo/2,f,y,0),y=S::run(*b,p,lo-lo/2,f,y,0); 
  Box<typename S::T> a0; Env e0; int x0=init<S>(*a0,e0,30);
  for(size_t n=lo;n<hi;n++){ C.at(p,n); Env e=e0,g; Box<typename S::T> a(a0),c(b); int x=S::run(*a,p,n,e,x0,0); if(e.bad||e.o.size()!=f.o.size()||n&&memcmp(e.o.data(),f.o.data(),e.o.size()))C.fail("%s: one call of %s with %zu bytes does not give what smaller calls give",nm,S::op(p),n); e.o.clear(); e.at=0; for(int i=0;i<4;i++)g.ip[i]=e.ip[i]; close<S>(*a,x,e); close<S>(*c,y,g); if(e.bad||g.bad||e.o!=g.o)C.fail("%s: after one call of %s with %zu bytes the result is not that after smaller calls",nm,S::op(p),n); C.eval(); C.tr(2); C.out(e.o.data(),e.o.size()); y=S::run(*b,p,1,f,y,0); } }
// every alignment of every input and of the output
struct AEnv{ size_t al[5]={0,0,0,0,0}; std::vector<uint8_t> o; uint8_t*last=nullptr; bool bad=false; static uint8_t*room(int s){ alignas(64) static uint8_t b[5][4096+128]; return b[s]; }
  const uint8_t*in(int s,size_t n,int){ uint8_t*p=room(s)+al[s]; memcpy(p,big()+s*997,n); return p; } uint8_t*out(size_t){ last=room(4)+al[4]; memset(last-(al[4]>0),0x5a,4096); return last; } void wrote(const uint8_t*,size_t r,size_t,size_t expect){ if(r!=expect)bad=true; o.insert(o.end(),last,last+r); } };
template<class S> static void life(AEnv&e,size_t n,int kind){ Box<typename S::T> t; int ph=RAW; auto go=[&](int p,size_t z){ if(p<S::OPS&&S::legal(ph,p))ph=S::run(*t,p,z,e,ph,0); }; go(0,n); if constexpr(S::OPS==2){ go(1,n);go(1,n/2); } else { go(1,n); if(S::OPS==6){ go(kind?3:2,n);go(kind?3:2,n/3+1); } else { go(1,n/2);go(2,n);go(3,S::sized(2)?n:64); } for(int p=2;p<S::OPS;p++)if(!S::sized(p))go(p,0); go(S::OPS-1,64); } }
template<class S> static void places(Ctx&C,const char*nm,int part,int parts){ for(size_t n:{2,5,16,17,33,61,64,65,127,130,257,600})for(int kind=0;kind<(S::OPS==6?2:1);kind++){ AEnv w; life<S>(w,n,kind); for(int s=-1;s<5;s++)for(size_t al=part;al<64;al+=parts){ C.at(n,kind,s,al); AEnv e; if(s<0)for(auto&x:e.al)x=al; else e.al[s]=al; life<S>(e,n,kind); C.eval(); if(e.bad||e.o!=w.o)C.fail("%s: with %zu bytes and %s at an address %zu past a multiple of 64 the result is another",nm,n,s<0?"everything":s==0?"the message":s==1?"the key":s==2?"the salt, nonce or iv":s==3?"the additional data or info":"the output",al); } C.out(w.o.data(),w.o.size()); } }
struct Sub{const char*nm;int need;void(*c)(Ctx&,const char*,size_t);void(*u)(Ctx&,const char*);void(*z)(Ctx&,const char*,int,int,int);void(*p)(Ctx&,const char*,int,int);};
#define MANY(n,s,nd) {n,nd,many::calls<s>,many::uses<s>,many::sizes<s>,many::places<s>},
#define MANY_SUITE(LIST) static const many::Sub MANYS[]={LIST(MANY)}; MC_SUITE(many){ const size_t cs[]={0,1,3,65}; int c=C.choose(int(sizeof MANYS/sizeof*MANYS)*5); auto&s=MANYS[c/5]; if(!have(s.need)){C.eval();return;} if(c%5<4)s.c(C,s.nm,cs[c%5]); else s.u(C,s.nm); C.sample("%s: %zu calls",s.nm,many::N); } \
 MC_SUITE(every){ int c=C.choose(int(sizeof MANYS/sizeof*MANYS)*20); auto&s=MANYS[c/20]; if(!have(s.need)){C.eval();return;} s.z(C,s.nm,1+c%5,c/5%4,4); C.sample("%s: calls of every size up to %zu",s.nm,many::every(false)); } \
 MC_SUITE(places){ int c=C.choose(int(sizeof MANYS/sizeof*MANYS)*4); auto&s=MANYS[c/4]; if(!have(s.need)){C.eval();return;} s.p(C,s.nm,c%4,4); C.sample("%s: inputs and outputs at 64 alignments",s.nm); }
}
