// messages longer than any memory: a mapped range is given again and again to a class whose block function only counts
#pragma once
#include "all.h"
#include <sys/mman.h>
#include <csetjmp>
#include <deque>
namespace O=milo::option; namespace D=P::detail; namespace meta=milo::meta;
using mc::Ctx; using u128=unsigned __int128;
namespace huge_ {
inline long g_calls=0; inline jmp_buf g_jmp; static const long MAXC=40000000;
inline bool budget(){ if(++g_calls>MAXC)longjmp(g_jmp,1); return true; }
// the state counts blocks, and folds the last one into its third (and fourth) word
template<class U> constexpr void step(size_t n,U*s,const uint8_t*last){ if constexpr(sizeof(U)==4){ uint64_t c=s[0]|uint64_t(s[1])<<32; c+=n; s[0]=U(c); s[1]=U(c>>32); } else s[0]+=n; uint64_t f=0; for(size_t i=0;i<16*sizeof(U);i++){ f=(f^last[i])*0x100000001b3ull; f^=f>>29; } s[2]=U(f); if constexpr(sizeof(U)==4)s[3]=U(f>>32); }
template<class U> struct Toy{ static constexpr size_t block_size=16*sizeof(U); template<meta::byte S> static constexpr auto blocks(size_t n,U*s,const S*p)noexcept(true)->void{ if(!n)return; if(!std::is_constant_evaluated())budget(); uint8_t b[block_size]; const S*q=p+(n-1)*block_size; for(size_t i=0;i<block_size;i++)b[i]=uint8_t(q[i]); step(n,s,b); } };
template<class U> struct Idle{ static constexpr size_t block_size=16*sizeof(U); template<meta::byte S> static constexpr auto blocks(size_t,U*,const S*)noexcept(true)->void{} };
// address range: zero, but for its first and last two pages
struct Room{ const uint8_t*p=nullptr; size_t n=0; };
inline const Room&room(){ static Room r=[]{ Room x; for(int k=45;k>=32&&!x.p;k--){ size_t n=size_t(1)<<k; void*m=mmap(nullptr,n,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED)continue; x.p=(uint8_t*)m; x.n=n; for(size_t at:{size_t(0),n-8192}){ uint8_t*w=(uint8_t*)mmap((uint8_t*)m+at,8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0); if(w==MAP_FAILED)abort(); for(size_t i=0;i<8192;i++)w[i]=ref::pat(i+at%1000); } } if(!x.p)abort(); return x; }(); return r; }
struct Tail{ B b; void add(const uint8_t*p,size_t n){ size_t k=std::min<size_t>(n,512); b.insert(b.end(),p+(n-k),p+n); if(b.size()>8192)b.erase(b.begin(),b.end()-512); } };
template<class U> struct Model{ static constexpr size_t BS=16*sizeof(U),LS=2*sizeof(U); U iv[8]; 
  // digest of a message of n bytes that ends with t
  B digest(u128 n,const B&t,size_t ds)const{ u128 blocks=(n+1+LS+BS-1)/BS; size_t r=size_t(n%BS); B m(t.end()-r,t.end()); m.push_back(128); while((m.size()+LS)%BS)m.push_back(0); u128 bits=n<<3; uint64_t hi=uint64_t(n>>61); uint64_t lo=uint64_t(bits); if(LS==16)for(int i=0;i<8;i++)m.push_back(uint8_t(hi>>(56-8*i))); for(int i=0;i<8;i++)m.push_back(uint8_t(lo>>(56-8*i)));
    U s[8]; memcpy(s,iv,sizeof s); step<U>(size_t(blocks),s,m.data()+m.size()-BS); B d; for(int i=0;i<8;i++)for(size_t k=0;k<sizeof(U);k++)d.push_back(uint8_t(s[i]>>(8*(sizeof(U)-1-k)))); d.resize(ds); return d; } };
inline std::string dec(u128 v){ std::string s; do s.insert(s.begin(),char('0'+int(v%10))); while(v/=10); return s; }
inline std::vector<u128> targets(int lo,int hi,int B0){ std::vector<u128> r; for(int k=lo;k<=hi;k++)for(int d:{-B0-1,-1,0,1,B0*7/8,B0+1}){ u128 v=(u128(1)<<k)+d; if(k==hi&&d>=0)continue; r.push_back(v); if(k<hi){u128 w=(u128(3)<<(k-1))+d; r.push_back(w);} } std::sort(r.begin(),r.end()); return r; }
// one walk of an object through all the targets; variant: sizes of the single calls
template<class F> static void walk(const std::vector<u128>&t,int variant,F&&give,u128&pos,auto&&at){ const size_t R=room().n; for(u128 x:t){ while(pos<x){ u128 left=x-pos; size_t k=variant==0?R:variant==1?R-37:variant==2?R/2+91:R-R/4-1; if(k>left)k=size_t(left); give(room().p,k); pos+=k; } at(x); } }
}
