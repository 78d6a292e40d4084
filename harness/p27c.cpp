// P27: cipher implementations of the user that work on 1..8 blocks at once, and sequences of options
#include "all.h"
#include <utility>
namespace O=milo::option; namespace D=P::detail; namespace meta=milo::meta;
using mc::Ctx;
static long cnt[2]; 
template<int I,size_t R> struct Ci{ static constexpr size_t block_size=64,block_ratio=R; using S=D::cipher_chacha_impl_sw_ietf;
  template<meta::byte X,meta::byte Y> static constexpr auto transform(size_t n,const uint32_t*s,X*d,const Y*p)noexcept(true)->size_t{ if(std::is_constant_evaluated()){ if(I==0)return n*R; } else { cnt[I]++; } return S::transform(n*R,s,d,p); }
  template<meta::byte X> static constexpr auto generate(size_t n,const uint32_t*s,X*d)noexcept(true)->size_t{ if(std::is_constant_evaluated()){ if(I==0){ for(size_t i=0;i<64*R*n;i++)d[i]=0; return n*R; } } else { cnt[I]++; } return S::generate(n*R,s,d); } };
static const B&key(){static B k=ref::pattern(32,4);return k;} static B iv(uint32_t c){ B v=ref::pattern(16,9); for(int i=0;i<4;i++)v[i]=uint8_t(c>>(8*i)); return v; }
static B stream(uint32_t c,size_t n){ B v=iv(c); return ref::keystream(key(),c,B(v.begin()+4,v.end()),n); }
// every sequence of calls with the stated sizes
template<size_t R,template<class> class Opt> static void calls(Ctx&C){ using T=P::cipher::chacha_20<typename Opt<Ci<1,R>>::t>; static const size_t U=64*R; const size_t sz[]={1,0,63,64,65,U-1,U,U+1,2*U+5,3*U}; const int depth=mc::thorough()?5:4; uint32_t c0=C.flip()?7:0xfffffff8u; static B ks[2]; B&k=ks[c0==7]; if(k.empty())k=stream(c0,U*3*5+64); B m=ref::pattern(k.size(),2); B v=iv(c0);
  Box<T> o; o->initialize(key().data(),32,v.data(),16); size_t pos=0; for(int i=0;i<depth;i++){ int a=C.choose(10); size_t n=sz[a]; B d(n+1,0x5a); cnt[1]=0; size_t r=i%2?o->encrypt(m.data()+pos,n,d.data()):o->decrypt(m.data()+pos,n,d.data()); bool ok=r==n&&d[n]==0x5a; for(size_t j=0;j<n&&ok;j++)ok=d[j]==(m[pos+j]^k[pos+j]); if(!ok)C.fail("an implementation of the user that makes %zu blocks at once: call %d with %zu bytes, %zu bytes in, counter %u, gives other bytes",R,i+1,n,pos,c0); if(pos%U==0&&n&&!cnt[1])C.fail("the implementation named is not used"); pos+=n; C.tr(); }
  C.eval(); C.state(o.key()); C.sample("%zu blocks at once",R); }
template<class I> struct Run{using t=O::impl_runtime<I>;}; template<class I> struct Enf{using t=O::impl_enforce<I>;};
#define R_(r) MC_SUITE(runtime_##r){ calls<r,Run>(C); } MC_SUITE(enforce_##r){ calls<r,Enf>(C); }
R_(1) R_(2) R_(3) R_(4) R_(5) R_(6) R_(7) R_(8)
enum{RUN_A,RUN_B,ENF_A,ENF_B,CT_A,CT_B,SIZE,NOPT}; static const char*nm[NOPT]={"runtime A","runtime B","enforce A","enforce B","cpltime A","cpltime B","digest_size<7>"};
template<int k> struct Opt; template<> struct Opt<RUN_A>{using t=O::impl_runtime<Ci<0,3>>;}; template<> struct Opt<RUN_B>{using t=O::impl_runtime<Ci<1,2>>;}; template<> struct Opt<ENF_A>{using t=O::impl_enforce<Ci<0,3>>;}; template<> struct Opt<ENF_B>{using t=O::impl_enforce<Ci<1,2>>;}; template<> struct Opt<CT_A>{using t=O::impl_cpltime<Ci<0,3>>;}; template<> struct Opt<CT_B>{using t=O::impl_cpltime<Ci<1,2>>;}; template<> struct Opt<SIZE>{using t=O::digest_size<7>;};
template<class T> constexpr auto ct(){ std::array<uint8_t,300> d{}; uint8_t k[32]{},v[16]{},m[300]{}; for(int i=0;i<32;i++)k[i]=uint8_t(i+1); for(int i=0;i<300;i++)m[i]=uint8_t(i*3+1); T o; o.initialize(k,32,v,16); o.encrypt(m,77,d.data()); o.encrypt(m+77,223,d.data()+77); return d; }
template<int...k> static void one(Ctx&C){ using T=P::cipher::chacha_20<typename Opt<k>::t...>; static const int ks[]={k...,-1}; auto first=[&](int a,int b){ for(int x:ks)if(x==a||x==b)return x==b?2:1; return 0; }; std::string d; for(int x:ks)if(x>=0)d+=std::string(d.empty()?"":", ")+nm[x]; int r=first(ENF_A,ENF_B); if(!r)r=first(RUN_A,RUN_B); int c=first(CT_A,CT_B);
  cnt[0]=cnt[1]=0; B v=iv(3),e=stream(3,1000); B m(1000,0),o(1000); T t; t.initialize(key().data(),32,v.data(),16); t.encrypt(m.data(),333,o.data()); t.encrypt(m.data(),667,o.data()+333); if(o!=e)C.fail("options <%s>: the cipher gives other bytes",d.c_str()); if((cnt[0]>0)!=(r==1)||(cnt[1]>0)!=(r==2))C.fail("options <%s>: at run time A was used %ld times and B %ld times, expected %s",d.c_str(),cnt[0],cnt[1],r==1?"A alone":r==2?"B alone":"neither");
  constexpr auto x=ct<T>(); B kk(32),mm(300); for(int i=0;i<32;i++)kk[i]=uint8_t(i+1); for(int i=0;i<300;i++)mm[i]=uint8_t(i*3+1); B ee=ref::chacha(kk,0,B(12,0),mm); bool right=!memcmp(x.data(),ee.data(),300); if(right!=(c!=1))C.fail("options <%s>: at compile time %s",d.c_str(),right?"the implementation named for compile time was not used":"the result is wrong, or an implementation not named for compile time was used"); C.eval(2); C.out(o.data(),o.size()); C.state(mc::h64(d.data(),d.size())); C.sample("options <%s>",d.c_str()); }
template<size_t...i> static void seqs1(Ctx&C,std::index_sequence<i...>){ (one<int(i)>(C),...); }
template<size_t...i> static void seqs2(Ctx&C,std::index_sequence<i...>){ (one<int(i%NOPT),int(i/NOPT)>(C),...); }
MC_SUITE(options){ C.choose(1); one<>(C); seqs1(C,std::make_index_sequence<NOPT>{}); seqs2(C,std::make_index_sequence<NOPT*NOPT>{}); }
template<size_t R> static void aead(Ctx&C){ using T=D::aead_chacha_20_poly_1305<P::cipher::chacha_20<O::impl_runtime<Ci<1,R>>>,P::mac::poly_1305<>>; const size_t U=64*R,sz[]={0,1,64,U-64,U-63,U+1}; B n=ref::pattern(12,5); T o; o.initialize(key().data(),32,n.data(),12); B ad=ref::pattern(C.flip()?21:0,6); o.aad(ad.data(),ad.size()); B m=ref::pattern(4*(U+1)+64,2),ct; size_t pos=0; for(int i=0;i<4;i++){ size_t k=sz[C.choose(6)]; B d(k+1); o.encrypt(m.data()+pos,k,d.data()); ct.insert(ct.end(),d.begin(),d.end()-1); pos+=k; C.tr(); } o.finalize(); uint8_t t[16]; o.digest(t,16); B e=ref::chacha(key(),1,n,B(m.begin(),m.begin()+pos)); B et=ref::aead_tag(key(),n,ad,e); if(ct!=e||memcmp(t,et.data(),16))C.fail("aead over an implementation of the user that makes %zu blocks at once: %s is wrong",R,ct!=e?"the ciphertext":"the tag"); C.eval(); }
#define A_(r) MC_SUITE(aead_##r){ aead<r>(C); }
A_(1) A_(2) A_(3) A_(5) A_(7) A_(8)
int main(int c,char**v){return mc::main(c,v);}
