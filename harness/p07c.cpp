// P07: additional data of up to 2^64 - 1 bytes and texts of up to 2^38 - 64, with a cipher and a mac that only count
#include "huge.h"
using namespace huge_;
static long n_calls=0;
struct Ciph:P::cipher::chacha_20<>{ uint64_t used=0;
  template<meta::byte K,meta::byte I> constexpr auto initialize(const K*,size_t,const I*,size_t)noexcept(true)->void{ used=0; }
  template<meta::byte X,meta::byte Y> constexpr auto encrypt(const X*,size_t n,Y*)noexcept(true)->size_t{ used+=n; return n; }
  template<meta::byte X,meta::byte Y> constexpr auto decrypt(const X*,size_t n,Y*)noexcept(true)->size_t{ used+=n; return n; }
  template<meta::byte X> constexpr auto encrypt_size(const X*,size_t n)noexcept(true)->size_t{ return n; }
  template<meta::byte X> constexpr auto decrypt_size(const X*,size_t n)noexcept(true)->size_t{ return n; } };
struct Mac:P::mac::poly_1305<>{ static constexpr size_t digest_size=48; u128 n=0; uint8_t last[32]{}; bool fin=false;
  template<meta::byte K> constexpr auto initialize(const K*,size_t)noexcept(true)->void{ n=0; fin=false; for(auto&x:last)x=0; }
  template<meta::byte X> constexpr auto update(const X*p,size_t k)noexcept(true)->void{ if(++n_calls>MAXC)longjmp(g_jmp,1); n+=k; if(k>=32)for(int i=0;i<32;i++)last[i]=uint8_t(p[k-32+i]); else if(k){ memmove(last,last+k,32-k); for(size_t i=0;i<k;i++)last[32-k+i]=uint8_t(p[i]); } }
  constexpr auto finalize()noexcept(true)->void{ fin=true; }
  template<meta::byte X> constexpr auto digest(X*d,size_t k=digest_size)const noexcept(true)->size_t{ uint8_t o[48]{}; for(int i=0;i<16;i++)o[i]=uint8_t(n>>(8*i)); for(int i=0;i<32;i++)o[16+i]=last[i]; if(k>48)k=48; for(size_t i=0;i<k;i++)d[i]=X(o[i]); return k; } };
using T=D::aead_chacha_20_poly_1305<Ciph,Mac>;
static void end(Ctx&C,T c,u128 a,u128 x,const Tail&ta,const Tail&tx,const char*what){ c.finalize(); uint8_t d[64]; memset(d,0xa5,64); size_t k=c.digest(d); u128 pa=(a+15)/16*16,px=(x+15)/16*16; B e(48,0); u128 n=pa+px+16; for(int i=0;i<16;i++)e[i]=uint8_t(n>>(8*i)); B all; auto put=[&](u128 v,const Tail&t){ size_t r=size_t(std::min<u128>(v,64)); all.insert(all.end(),t.b.end()-r,t.b.end()); while(v%16){all.push_back(0);v++;} }; all.assign(64,0); put(a,ta); put(x,tx); for(int i=0;i<8;i++)all.push_back(uint8_t(a>>(8*i))); for(int i=0;i<8;i++)all.push_back(uint8_t(x>>(8*i))); size_t known=std::min<size_t>(32,all.size()-64); memcpy(&e[16+32-known],&all[all.size()-known],known);
  if(k!=48||memcmp(d,e.data(),16)||memcmp(d+48-known,&e[48-known],known))C.fail("%s: %s bytes of additional data and %s of text: the input of the mac has a wrong size or end: %s, expected %s",what,dec(a).c_str(),dec(x).c_str(),ref::tohex(d,48).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,k); }
MC_SUITE(huge){ int c=C.choose(3*4); int mode=c/4,v=c%4; if(setjmp(g_jmp)){ C.sample("not explored, the mac is called too often"); C.eval(); return; } n_calls=0; T o; B k=ref::pattern(32,1),iv=ref::pattern(12,2); o.initialize(k.data(),32,iv.data(),12); Tail ta,tx; u128 pos=0; const char*nm=mode==0?"data":mode==1?"encrypt":"decrypt"; uint8_t*dst=(uint8_t*)room().p;
  if(mode==0){ auto ts=targets(20,64,16); walk(ts,v,[&](const uint8_t*p,size_t n){ o.aad(p,n); ta.add(p,n); },pos,[&](u128 a){ for(size_t x:{0,1,16,77}){ T q(o); Tail t; if(x){ q.encrypt(room().p+5,x,dst+5); t.add(room().p+5,x); } end(C,q,a,x,ta,t,nm); } }); }
  else { size_t a=v*5; o.aad(room().p+3,a); ta.add(room().p+3,a); auto ts=targets(20,38,64); const size_t cap=size_t(1)<<(38-v); walk(ts,0,[&](const uint8_t*p,size_t n){ while(n){ size_t m=std::min(n,v==3?cap-77:cap); if(mode==1)o.encrypt(p,m,(uint8_t*)p); else o.decrypt(p,m,(uint8_t*)p); tx.add(p,m); n-=m; } },pos,[&](u128 x){ end(C,o,a,x,ta,tx,nm); }); }
  C.tr(n_calls); C.sample("%s: up to %s bytes",nm,dec(pos).c_str()); }
int main(int c,char**v){return mc::main(c,v);}
