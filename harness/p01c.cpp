// P01, P02: messages of up to 2^61 - 1 and 2^66 bytes, with a block function that counts
#include "huge.h"
using namespace huge_;
template<class U,class TI> static Model<U> model(){ Model<U> m{}; TI o; o.initialize(); o.finalize(); uint8_t d[80]{}; o.digest(d); for(int i=0;i<8;i++){ m.iv[i]=0; for(size_t k=0;k<sizeof(U);k++)m.iv[i]=U(m.iv[i]<<8)|d[i*sizeof(U)+k]; } return m; }
template<class T,class TI,class U> static void hash(Ctx&C,const char*nm,int v){ const auto m=model<U,TI>(); if(setjmp(g_jmp)){ C.sample("%s: not explored, the block function is called too often",nm); C.eval(); return; } g_calls=0;
  T o; o.initialize(); Tail t; u128 pos=0; auto ts=targets(20,sizeof(U)==4?61:mc::thorough()?68:66,16*sizeof(U)); long n=0;
  walk(ts,v,[&](const uint8_t*p,size_t k){ o.update(p,k); t.add(p,k); n++; if(!(n&0xfffff)&&C.slot)C.slot->beat++; },pos,[&](u128 x){ C.at(int(n)); T c(o); c.finalize(); uint8_t d[80]; memset(d,0xa5,80); size_t k=c.digest(d); B e=m.digest(x,t.b,T::digest_size); if(k!=e.size()||memcmp(d,e.data(),k))C.fail("%s: a message of %s bytes (%s) in calls of up to %zu: number of blocks, or the last one, is wrong: %s, expected %s",nm,dec(x).c_str(),v==0?"whole blocks":"any sizes",room().n,ref::tohex(d,k).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,k); });
  C.tr(n); C.sample("%s: %zu lengths up to %s bytes in %ld calls",nm,ts.size(),dec(pos).c_str(),n); }
template<class T,class TI,class U,class HI> static void hmac(Ctx&C,const char*nm,int v){ (void)sizeof(TI); const auto m=model<U,HI>(); if(setjmp(g_jmp)){ C.sample("%s: not explored, the block function is called too often",nm); C.eval(); return; } g_calls=0;
  const size_t BS=16*sizeof(U); B key=ref::pattern(v==1?BS+9:23,3); T o; o.initialize(key.data(),key.size()); B k0=key; if(k0.size()>BS)k0=m.digest(k0.size(),k0,T::digest_size); k0.resize(BS,0); B ip=k0,op=k0; for(auto&x:ip)x^=0x36; for(auto&x:op)x^=0x5c;
  Tail t; t.add(ip.data(),BS); u128 pos=0; auto ts=targets(20,sizeof(U)==4?61:mc::thorough()?67:65,16*sizeof(U)); for(auto&x:ts)if(x>=BS)x-=BS; long n=0;
  walk(ts,v,[&](const uint8_t*p,size_t k){ o.update(p,k); t.add(p,k); n++; if(!(n&0xfffff)&&C.slot)C.slot->beat++; },pos,[&](u128 x){ C.at(int(n)); T c(o); c.finalize(); uint8_t d[80]; memset(d,0xa5,80); size_t k=c.digest(d); B in=m.digest(x+BS,t.b,T::digest_size); B ot=op; ot.insert(ot.end(),in.begin(),in.end()); B e=m.digest(ot.size(),ot,T::digest_size); if(k!=e.size()||memcmp(d,e.data(),k))C.fail("hmac %s: a message of %s bytes: number of blocks, or the last one, is wrong: %s, expected %s",nm,dec(x).c_str(),ref::tohex(d,k).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,k); });
  C.tr(n); C.sample("hmac %s: %zu lengths up to %s bytes in %ld calls",nm,ts.size(),dec(pos).c_str(),n); }
#define H(X) X(sha_1_160,uint32_t) X(sha_2_224,uint32_t) X(sha_2_256,uint32_t) X(sha_2_384,uint64_t) X(sha_2_512,uint64_t) X(sha_2_512_224,uint64_t) X(sha_2_512_256,uint64_t)
template<class U> using ET=O::impl_enforce<Toy<U>>; template<class U> using EI=O::impl_enforce<Idle<U>>;
struct A{const char*nm;void(*f)(Ctx&,const char*,int);};
#ifdef HM
#define X(n,U) {#n,hmac<P::mac::hmac<P::hash::n<ET<U>>>,void*,U,P::hash::n<EI<U>>>},
#else
#define X(n,U) {#n,hash<P::hash::n<ET<U>>,P::hash::n<EI<U>>,U>},
#endif
static const A T[]={H(X)};
MC_SUITE(huge){ int c=C.choose(int(sizeof T/sizeof*T)*4); T[c/4].f(C,T[c/4].nm,c%4); }
int main(int c,char**v){return mc::main(c,v);}
