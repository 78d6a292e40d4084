// P16: after destruction the storage of an object does not depend on what it was given
#include "seq.h"
#ifndef SUBJ
#define SUBJ SUBJECTS
#endif
static int secret=0; // which secret world
static const uint8_t*matp(int slot,int seed){ static uint8_t buf[6][9][600]; static int have_[6][9]; // one address for all worlds
  static int w=-1; if(w!=secret){w=secret;memset(have_,0,sizeof have_);} uint8_t*b=buf[slot][seed%9]; if(!have_[slot][seed%9]){have_[slot][seed%9]=1; for(size_t i=0;i<600;i++)b[i]=secret==2?0:secret==3?0xff:ref::pat(i+secret*7919,slot*31+seed+secret*101);} return b; }
struct SecEnv{ uint64_t h=1; static uint8_t*buf(){static uint8_t b[4000];return b;} const uint8_t*in(int slot,size_t,int seed){return matp(slot,seed);} uint8_t*out(size_t){return buf();} void wrote(uint8_t*p,size_t r,size_t,size_t){h=mc::mix(h,mc::h64(p,r));} };
// storage seen by operator delete
static uint8_t snap[2][4096]; static size_t watched=0; static int nsnap=0;
void operator delete(void*p)noexcept{ if(watched&&p){ volatile uint8_t*v=(volatile uint8_t*)p; for(size_t i=0;i<watched&&nsnap<2;i++)snap[nsnap][i]=v[i]; nsnap++; } free(p); }
void operator delete(void*p,size_t)noexcept{ operator delete(p); }
void operator delete(void*p,std::align_val_t)noexcept{ operator delete(p); }
void operator delete(void*p,size_t,std::align_val_t)noexcept{ operator delete(p); }
void*operator new(size_t n){ size_t z=(n+63)/64*64; void*p=aligned_alloc(64,z?z:64); memset(p,0,z); return p; }
void*operator new(size_t n,std::align_val_t){ return operator new(n); }
template<class S> static void apply(typename S::T&o,const std::vector<Step>&q,SecEnv&e){ int p=RAW,k=0; for(auto&s:q)p=S::run(o,s.op,s.n,e,p,k++%4+1); }
static volatile uint8_t*leak;
template<class S> __attribute__((noinline)) static void on_stack(const std::vector<Step>&q,SecEnv&e){ typename S::T o; leak=(volatile uint8_t*)&o; apply<S>(o,q,e); }
// the object lies well inside of what clear_stack cleared, away from its return address and canary
template<class S> __attribute__((noinline)) static void deeper(const std::vector<Step>&q,SecEnv&e){ volatile uint8_t pad[2048]; for(size_t i=0;i<sizeof pad;i++)pad[i]=0; on_stack<S>(q,e); pad[5]=1; }
__attribute__((noinline)) static void clear_stack(){ volatile uint8_t a[20000]; for(size_t i=0;i<sizeof a;i++)a[i]=0; }
enum{PLACED,HEAPED,STACK,COPY,MOVE,CASSIGN,MASSIGN,SELF,WAYS};
static const char*wn[]={"destroyed in place","deleted","left scope","copied, both destroyed","moved, both destroyed","copy assigned over another, both destroyed","move assigned over another, both destroyed","assigned to itself, destroyed"};
// what is left in storage after the history and the way of destruction
template<class S> static B left(int way,const std::vector<Step>&q,const std::vector<Step>&q2,uint64_t&h){ using T=typename S::T; SecEnv e; B r; alignas(64) static uint8_t a[sizeof(T)],b[sizeof(T)]; memset(a,0,sizeof a);memset(b,0,sizeof b); auto take=[&](volatile uint8_t*p){for(size_t i=0;i<sizeof(T);i++)r.push_back(uint8_t(p[i]));};
  switch(way){ case PLACED:{T*x=new(a)T; apply<S>(*x,q,e); x->~T(); take(a); break;}
   case HEAPED:{T*x=new T; apply<S>(*x,q,e); watched=sizeof(T);nsnap=0; delete x; watched=0; r.assign(snap[0],snap[0]+sizeof(T)); break;}
   case STACK:{ clear_stack(); deeper<S>(q,e); static uint8_t c[sizeof(T)]; for(size_t i=0;i<sizeof(T);i++)c[i]=leak[i]; take(c); break; }
   case COPY:{T*x=new(a)T; apply<S>(*x,q,e); T*y=new(b)T(*x); x->~T(); y->~T(); take(a);take(b); break;}
   case MOVE:{T*x=new(a)T; apply<S>(*x,q,e); T*y=new(b)T(std::move(*x)); x->~T(); y->~T(); take(a);take(b); break;}
   case CASSIGN:{T*x=new(a)T; apply<S>(*x,q,e); T*y=new(b)T; apply<S>(*y,q2,e); *y=*x; x->~T(); y->~T(); take(a);take(b); break;}
   case MASSIGN:{T*x=new(a)T; apply<S>(*x,q,e); T*y=new(b)T; apply<S>(*y,q2,e); *y=std::move(*x); x->~T(); y->~T(); take(a);take(b); break;}
   case SELF:{T*x=new(a)T; apply<S>(*x,q,e); *x=*x; x->~T(); take(a); break;} } h=e.h; return r; }
template<class S> static void erased(mc::Ctx&C,const char*nm){ size_t b=S::block()>256?64:S::block(); const size_t sz[]={b/2+3,0,b+1,2*b+9}; int way=C.choose(WAYS); int max=mc::thorough()?6:5; if(way>=COPY)max--; int depth=C.choose(max+1); int ns=depth>=4?2:3; if(ns==2){} static const size_t s2[]={37,133}; auto q=ns==2?draw<S>(C,depth,s2,2):draw<S>(C,depth,sz,mc::thorough()?4:3); std::vector<Step> q2; if(way==CASSIGN||way==MASSIGN)q2=draw<S>(C,C.choose(3),s2,2);
  uint64_t h[4]; B r[4]; int nw=depth<=2?4:2; for(int w=0;w<nw;w++){ secret=w; r[w]=left<S>(way,q,q2,h[w]); } for(int w=1;w<nw;w++)if(r[w]!=r[0]){ size_t i=0;while(r[w][i]==r[0][i])i++; C.fail("%s: %s, then %s: byte %zu of %zu of the storage depends on the secrets (%02x, %02x)",nm,show<S>(q).c_str(),wn[way],i,r[0].size(),r[0][i],r[w][i]); } C.eval(); C.out(mc::mix(h[0],h[1])); C.state(mc::mix(h[0],mc::mix(way,depth))); C.sample("%s: %s, %s",nm,show<S>(q).c_str(),wn[way]); }
struct Sub{const char*nm;int need;void(*f)(mc::Ctx&,const char*);};
#define Y(n,s,nd) {n,nd,erased<s>},
static const Sub SB[]={SUBJ(Y)};
MC_SUITE(erased){ static std::vector<int> ok=[]{std::vector<int>r;for(size_t i=0;i<sizeof SB/sizeof*SB;i++)if(have(SB[i].need))r.push_back(i);return r;}(); auto&s=SB[ok[C.choose(int(ok.size()))]]; s.f(C,s.nm); }
int main(int c,char**v){return mc::main(c,v);}
