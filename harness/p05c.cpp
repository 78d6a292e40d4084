// P05: iterations of up to 2^32 - 1 and more than 2^24 blocks, with a small pseudo random function of the user
#include "all.h"
#include <csetjmp>
#include <deque>
using mc::Ctx;
static uint64_t g_digests=0,g_limit=0; static jmp_buf g_jmp;
struct Toy:P::mac_hmac_sha_2_256{ static constexpr size_t digest_size=8; uint64_t h=0;
  static constexpr uint64_t add(uint64_t h,uint8_t b){ return ((h<<9|h>>55)^b)*0x9e3779b97f4a7c15ull+b; }
  template<milo::meta::byte K> constexpr auto initialize(const K*p,size_t n)noexcept(true)->void{ h=n; for(size_t i=0;i<n;i++)h=add(h,uint8_t(p[i])); }
  template<milo::meta::byte X> constexpr auto update(const X*p,size_t n)noexcept(true)->void{ for(size_t i=0;i<n;i++)h=add(h,uint8_t(p[i])); }
  constexpr auto finalize()noexcept(true)->void{ h^=h>>31; }
  template<milo::meta::byte X> constexpr auto digest(X*d,size_t n=digest_size)const noexcept(true)->size_t{ if(!std::is_constant_evaluated()){ if(++g_digests==g_limit)longjmp(g_jmp,1); } if(n>8)n=8; for(size_t i=0;i<n;i++)d[i]=X(uint8_t(h>>(8*i))); return n; } };
using T=P::kdf::pbkdf_2<Toy>;
static uint64_t prf(const B&k,const uint8_t*p,size_t n){ uint64_t h=k.size(); for(uint8_t b:k)h=Toy::add(h,b); for(size_t i=0;i<n;i++)h=Toy::add(h,p[i]); return h^h>>31; }
static uint64_t block(const B&k,const B&s,uint32_t c,uint32_t it){ B m=s; for(int i=0;i<4;i++)m.push_back(uint8_t(c>>(24-8*i))); uint64_t u=prf(k,m.data(),m.size()),x=u; uint64_t h0=k.size(); for(uint8_t b:k)h0=Toy::add(h0,b); for(uint32_t i=1;i<it;i++){ uint64_t h=h0; for(int j=0;j<8;j++)h=Toy::add(h,uint8_t(u>>(8*j))); u=h^h>>31; x^=u; } return x; }
static B k0=ref::pattern(2,1),s0=ref::pattern(3,2);
MC_SUITE(iterations){ const int K=mc::thorough()?30:25; int c=C.choose((K-9)*3+(mc::thorough()?2:0)); uint32_t it=c>=(K-9)*3?(c%2?0xffffffffu:0x80000001u):(1u<<(10+c/3))+(c%3)-1; if(!c)it=1; C.at(int(it)); g_limit=0; T o; o.initialize(k0.data(),k0.size(),s0.data(),s0.size(),it); uint8_t d[20]; size_t n=it>0x10000000u?5:13; size_t r=o.derive(d,n); uint8_t e[16]; for(int b=0;b<(n>8?2:1);b++){ uint64_t x=block(k0,s0,b+1,it); memcpy(e+8*b,&x,8); if(C.slot)C.slot->beat++; } if(r!=n||memcmp(d,e,n))C.fail("pbkdf 2 over a pseudo random function of the user, %u iterations: %s, expected %s",it,ref::tohex(d,n).c_str(),ref::tohex(e,n).c_str()); C.eval(); C.out(d,n); C.sample("%u iterations",it); }
// counts too large to wait for: a call must not come back before it has done many
MC_SUITE(many_iterations){ int c=C.choose(32*3); volatile uint32_t it=uint32_t((uint64_t(1)<<(c/3+1))+(c%3)-1); if(it<70000)it=it==0?0xffffffffu:uint32_t(0u-it); C.at(int(it)); const uint64_t limit=std::min<uint64_t>(it,300000); volatile bool over=true; g_digests=0; g_limit=limit; static std::deque<T> keep; keep.resize(1); if(!setjmp(g_jmp)){ keep[0].initialize(k0.data(),k0.size(),s0.data(),s0.size(),it); uint8_t d[8]; keep[0].derive(d,8); over=false; } g_limit=0; if(!over)C.fail("pbkdf 2 over a pseudo random function of the user, %u iterations: the function was used %llu times only",uint32_t(it),(unsigned long long)g_digests); C.eval(); C.tr(long(limit)); C.sample("%u iterations: at least %llu uses",uint32_t(it),(unsigned long long)limit); }
MC_SUITE(blocks){ int c=C.choose(3); const size_t chunk=c==0?8*1000:c==1?8*1000-3:1<<20; const uint64_t N=mc::thorough()?(uint64_t(1)<<32)-1:(uint64_t(1)<<24)+3000; if(c==1&&mc::thorough()){C.eval();return;} B k=ref::pattern(1,1),s=ref::pattern(1,2); T o; g_limit=0; o.initialize(k.data(),1,s.data(),1,1); std::vector<uint8_t> d(chunk); uint64_t pos=0; uint64_t cur=0,bn=0; while(pos<N*8){ size_t n=size_t(std::min<uint64_t>(chunk,N*8-pos)); size_t r=o.derive(d.data(),n); if(r!=n)C.fail("derive returned %zu for %zu",r,n); for(size_t i=0;i<n;i++,pos++){ if(pos%8==0){ uint32_t x=uint32_t(++bn); uint8_t m[5]={s[0],uint8_t(x>>24),uint8_t(x>>16),uint8_t(x>>8),uint8_t(x)}; cur=prf(k,m,5); } if(d[i]!=uint8_t(cur>>(8*(pos%8))))C.fail("pbkdf 2 over a pseudo random function of the user, chunks of %zu bytes: block %llu is wrong",chunk,(unsigned long long)bn); } if(C.slot)C.slot->beat++; C.tr(); } C.eval(long(bn>>10)); C.sample("%llu blocks in chunks of %zu bytes",(unsigned long long)bn,chunk); }
int main(int c,char**v){return mc::main(c,v);}
