// P17: objects are values
#include "seq.h"
#include <optional>
#ifndef SUBJ
#define SUBJ SUBJECTS
#endif
struct RecEnv{ uint64_t h=1; const uint8_t*in(int slot,size_t,int seed){ static B*m[6][16]; auto&b=m[slot][seed&15]; if(!b)b=new B(ref::pattern(700,300+slot*16+(seed&15))); return b->data(); } uint8_t*out(size_t){static uint8_t b[4000];memset(b,0x3c,700);return b;} void wrote(uint8_t*p,size_t r,size_t n,size_t){h=mc::mix(h,r);h=mc::mix(h,mc::h64(p,n>r?n:r));} };
struct Run{int op;size_t n;int seed;};
template<class S> static void finish(typename S::T&o,int&ph,RecEnv&e){ for(int k=1;k<S::OPS;k++)if(!S::sized(k)&&S::legal(ph,k)){ph=S::run(o,k,0,e,ph,9);break;} if(ph!=RAW){ if(S::legal(ph,S::OPS-1))ph=S::run(o,S::OPS-1,70,e,ph,9); else if(S::legal(ph,1))ph=S::run(o,1,70,e,ph,9);} }
enum{CCTOR,MCTOR,CASSIGN,MASSIGN,SELFC,SELFM,SWAP,GROW,INSERT,BYVAL,OPT,WAYS};
static const char*wn[]={"copy constructed","move constructed","copy assigned","move assigned","assigned to itself","moved to itself","swapped","vector grown","vector insert at front","passed and returned by value","kept in an optional that is assigned"};
template<class T> __attribute__((noinline)) static T through(T x){ return x; }
template<class S> static bool step(typename S::T&o,const std::vector<Run>&c,size_t i,int&ph,RecEnv&e){ if(i<c.size()){ if(S::legal(ph,c[i].op))ph=S::run(o,c[i].op,c[i].n,e,ph,c[i].seed); return true; } if(i==c.size()){finish<S>(o,ph,e);return true;} return false; }
template<class S> static void whole(typename S::T&o,const std::vector<Run>&c,int&ph,RecEnv&e){ for(size_t i=0;step<S>(o,c,i,ph,e);i++); }
static std::vector<Run> seeded(const std::vector<Step>&q,int s){ std::vector<Run> r; for(auto&x:q)r.push_back({x.op,x.n,s++%8}); return r; }
template<class S> static void play(typename S::T&o,const std::vector<Run>&c,int&ph,RecEnv&e){ for(auto&x:c)ph=S::run(o,x.op,x.n,e,ph,x.seed); }
template<class S> static void values(mc::Ctx&C,const char*nm){ using T=typename S::T; size_t b=S::block()>256?64:S::block(); const size_t sz[]={b/2+3,b+1,2*b+9,0}; const bool th=mc::thorough();
  int way=C.choose(WAYS); bool pair=way==CASSIGN||way==MASSIGN||way==SWAP||way==INSERT||way==OPT; int p1=RAW,p2=RAW; auto q1=draw<S>(C,C.choose(th?5:4),sz,th?3:2,&p1); std::vector<Step> q2; if(pair)q2=draw<S>(C,C.choose(3),sz,th?2:1,&p2);
  // continuation of the one under test, and what happens to the other meanwhile
  std::vector<Run> cont; { int n=C.choose(3); static T*scratch=new T; static NulEnv ne; int ph=RAW; for(auto&x:q1)ph=S::run(*scratch,x.op,x.n,ne,ph); for(int i=0;i<n;i++){ std::vector<Step> o; for(int k=0;k<S::OPS;k++)if(S::legal(ph,k)){ if(S::sized(k))for(int j=0;j<2;j++)o.push_back({k,sz[j]}); else o.push_back({k,0}); } auto s=o[C.choose(int(o.size()))]; cont.push_back({s.op,s.n,4+i}); C.tr(); ph=S::run(*scratch,s.op,s.n,ne,ph); } }
  auto r1=seeded(q1,0),r2=seeded(q2,3);
  // what objects that were never copied give
  RecEnv e1,e2; { alignas(64) uint8_t m[sizeof(T)]; memset(m,0x11,sizeof m); T*o=new(m)T; int ph=RAW; play<S>(*o,r1,ph,e1); RecEnv mid=e1; whole<S>(*o,cont,ph,e1); e1.h=mc::mix(e1.h,ph); o->~T(); }
  { alignas(64) uint8_t m[sizeof(T)]; memset(m,0x22,sizeof m); T*o=new(m)T; int ph=RAW; play<S>(*o,r2,ph,e2); std::vector<Run> none; whole<S>(*o,none,ph,e2); e2.h=mc::mix(e2.h,ph); o->~T(); }
  auto is=[&](uint64_t got,uint64_t want,const char*who,const char*other,int order){ C.eval(); if(got!=want){ std::string k; for(auto&x:cont)k+=std::string(" ")+S::op(x.op); C.fail("%s: %s, %s%s%s; then%s: the %s continues differently (the other one meanwhile: %s, order %d)",nm,show<S>(q1).c_str(),wn[way],pair?" with one after ":"",pair?show<S>(q2).c_str():"",k.empty()?" (finish)":k.c_str(),who,other,order); } };
  alignas(64) static uint8_t ma[sizeof(T)+64],mb[sizeof(T)+64]; auto fresh=[&](uint8_t*m,int fill){memset(m,fill,sizeof(T)+64);};
  if(way==SELFC||way==SELFM){ fresh(ma,0x33); T*a=new(ma)T; RecEnv e; int ph=RAW; play<S>(*a,r1,ph,e); T&r=*a; asm volatile("":"+r"(a)); if(way==SELFC)*a=r; else { if constexpr(std::is_move_assignable_v<T>)*a=static_cast<T&>(r); } whole<S>(*a,cont,ph,e); is(mc::mix(e.h,ph),e1.h,"object","(none)",0); a->~T(); }
  else if(way==SWAP){ fresh(ma,0x33);fresh(mb,0x44); T*a=new(ma)T,*x=new(mb)T; RecEnv ea,ex; int pa=RAW,px=RAW; play<S>(*a,r1,pa,ea); play<S>(*x,r2,px,ex); std::swap(*a,*x); whole<S>(*x,cont,pa,ea); std::vector<Run> none; whole<S>(*a,none,px,ex); is(mc::mix(ea.h,pa),e1.h,"first","used",0); is(mc::mix(ex.h,px),e2.h,"second","used",0); a->~T();x->~T(); }
  else if(way==GROW||way==INSERT){ std::vector<T> v; v.reserve(1); v.emplace_back(); RecEnv e; int ph=RAW; play<S>(v[0],r1,ph,e); if(way==GROW){ v.emplace_back(); v.resize(5); v.shrink_to_fit(); RecEnv t; int tp=RAW; for(int i=1;i<5;i++){tp=RAW;play<S>(v[i],seeded(q1,5),tp,t);} whole<S>(v[0],cont,ph,e); is(mc::mix(e.h,ph),e1.h,"element","other elements used",0); }
     else { v.reserve(4); T y; RecEnv ey; int py=RAW; play<S>(y,r2,py,ey); v.insert(v.begin(),y); v.insert(v.begin(),v[1]); RecEnv ez=e; int pz=ph; std::vector<Run> none; RecEnv e0=ey; int p0=py; whole<S>(v[1],none,py,ey); is(mc::mix(ey.h,py),e2.h,"inserted one","used",0); whole<S>(v[2],cont,ph,e); is(mc::mix(e.h,ph),e1.h,"element moved up","used",1); whole<S>(v[0],cont,pz,ez); is(mc::mix(ez.h,pz),e1.h,"copy of an element","used",2); whole<S>(y,none,p0,e0); is(mc::mix(e0.h,p0),e2.h,"source of the insertion","used",3); } }
  else { bool moved=way==MCTOR||way==MASSIGN; enum{SAME,DESTROYED,REINIT,LEFT,NO}; static const char*on[]={"the same calls with other data","destroyed and overwritten","initialized again and used","left alone"};
   for(int oth=0;oth<NO;oth++)for(int order=0;order<(oth==SAME||oth==REINIT?3:1);order++)for(int keep=0;keep<(moved?1:2);keep++){ // keep: whether the original (1) or the copy (0) is under test
     C.at(oth,order,keep); fresh(ma,0x33);fresh(mb,0x44); T*a=new(ma)T; RecEnv e; int ph=RAW; play<S>(*a,r1,ph,e); T*x=nullptr; std::optional<T> op; RecEnv junk; int pj=RAW;
     switch(way){ case CCTOR:x=new(mb)T(*a);break; case MCTOR:x=new(mb)T(std::move(*a));break; case CASSIGN:x=new(mb)T;play<S>(*x,r2,pj,junk);*x=*a;break; case MASSIGN:x=new(mb)T;play<S>(*x,r2,pj,junk);*x=std::move(*a);break; case BYVAL:x=new(mb)T(through<T>(*a));break; default:{ x=new(mb)T; op.emplace(); play<S>(*op,r2,pj,junk); op=*a; *x=*op; op.reset(); } }
     T*t=keep?a:x,*o=keep?x:a; uint8_t*om=keep?mb:ma; int po=ph; RecEnv eo; bool gone=false; if(oth==DESTROYED){o->~T();memset(om,0xee,sizeof(T));gone=true;}
     std::vector<Run> oc; if(oth==SAME&&!moved){oc=cont;for(auto&c:oc)c.seed+=4;} if(oth==REINIT||(oth==SAME&&moved)){ po=RAW; oc.push_back({S::INIT,sz[1],8}); oc.push_back({1,sz[0],9}); }
     if(gone||oth==LEFT)whole<S>(*t,cont,ph,e); else if(order==0){whole<S>(*o,oc,po,eo);whole<S>(*t,cont,ph,e);} else if(order==1){whole<S>(*t,cont,ph,e);whole<S>(*o,oc,po,eo);} else { bool m=true; for(size_t i=0;m;i++){ bool m1=step<S>(*o,oc,i,po,eo),m2=step<S>(*t,cont,i,ph,e); m=m1||m2; } }
     is(mc::mix(e.h,ph),e1.h,keep?"original":"copy",on[oth],order);
     // the other one, initialized again, is as good as new
     if(oth==REINIT||(oth==SAME&&moved)){ RecEnv en; static T*nw=nullptr; T n; int pn=RAW; whole<S>(n,oc,pn,en); is(eo.h,en.h,keep?"copy (initialized again)":"original (initialized again)",on[oth],order); }
     // and so is the same for the other one, run on with data of its own
     if(oth==SAME&&!moved){ RecEnv en; T n; int pn=RAW; RecEnv skip; play<S>(n,r1,pn,skip); whole<S>(n,oc,pn,en); is(eo.h,en.h,keep?"copy":"original","used",order); }
     if(!gone)o->~T(); t->~T(); } }
  C.out(e1.h); C.state(mc::mix(mc::mix(e1.h,e2.h),way)); C.sample("%s: %s, %s",nm,show<S>(q1).c_str(),wn[way]); }
#define Y(n,s,nd) static_assert(std::is_copy_constructible_v<s::T>&&std::is_copy_assignable_v<s::T>&&std::is_move_constructible_v<s::T>&&std::is_move_assignable_v<s::T>);
SUBJ(Y)
#undef Y
struct Sub{const char*nm;int need;void(*f)(mc::Ctx&,const char*);};
#define Y(n,s,nd) {n,nd,values<s>},
static const Sub SB[]={SUBJ(Y)};
MC_SUITE(values){ static std::vector<int> ok=[]{std::vector<int>r;for(size_t i=0;i<sizeof SB/sizeof*SB;i++)if(have(SB[i].need))r.push_back(int(i));return r;}(); auto&s=SB[ok[C.choose(int(ok.size()))]]; s.f(C,s.nm); }
int main(int c,char**v){return mc::main(c,v);}
