// P27: sequences of options; implementations supplied by the user
#include "all.h"
#include <utility>
namespace O=milo::option; namespace D=P::detail; namespace meta=milo::meta;
using mc::Ctx;
// implementations that count their uses; at compile time A does nothing, so that it is told apart by the result
static long cnt[2];
#define CNT(I) if(!std::is_constant_evaluated())cnt[I]++; 
template<int I> struct Ha1{ static constexpr size_t block_size=64; template<meta::byte S> static constexpr auto blocks(size_t n,uint32_t*s,const S*p)noexcept(true)->void{ CNT(I) if(I==0&&std::is_constant_evaluated())return; D::hash_sha_1_160_impl_sw::blocks(n,s,p); } };
template<int I> struct Ha2{ static constexpr size_t block_size=64; template<meta::byte S> static constexpr auto blocks(size_t n,uint32_t*s,const S*p)noexcept(true)->void{ CNT(I) if(I==0&&std::is_constant_evaluated())return; D::hash_sha_2_256_impl_sw::blocks(n,s,p); } };
template<int I> struct Ha5{ static constexpr size_t block_size=128; template<meta::byte S> static constexpr auto blocks(size_t n,uint64_t*s,const S*p)noexcept(true)->void{ CNT(I) if(I==0&&std::is_constant_evaluated())return; D::hash_sha_2_512_impl_sw::blocks(n,s,p); } };
template<int I> struct Po{ static constexpr size_t block_size=16; template<meta::byte S> static constexpr auto process(size_t n,const uint32_t k[8],uint32_t*a,uint32_t add,const S*p)noexcept(true)->void{ CNT(I) if(I==0&&std::is_constant_evaluated())return; D::mac_poly_1305_impl_sw::process(n,k,a,add,p); } };
struct Other{ using type=int; static constexpr int value=3; };
// the options: kind, and which implementation or size
enum{SIZE_A,SIZE_B,RUN_A,RUN_B,ENF_A,ENF_B,CT_A,CT_B,NOPT};
template<template<int>class I,int k> struct Opt; 
template<template<int>class I> struct Opt<I,SIZE_A>{using t=O::digest_size<7>;}; template<template<int>class I> struct Opt<I,SIZE_B>{using t=O::digest_size<12>;};
template<template<int>class I> struct Opt<I,RUN_A>{using t=O::impl_runtime<I<0>>;}; template<template<int>class I> struct Opt<I,RUN_B>{using t=O::impl_runtime<I<1>>;};
template<template<int>class I> struct Opt<I,ENF_A>{using t=O::impl_enforce<I<0>>;}; template<template<int>class I> struct Opt<I,ENF_B>{using t=O::impl_enforce<I<1>>;};
template<template<int>class I> struct Opt<I,CT_A>{using t=O::impl_cpltime<I<0>>;}; template<template<int>class I> struct Opt<I,CT_B>{using t=O::impl_cpltime<I<1>>;};
static const char*nm[NOPT]={"digest_size<7>","digest_size<12>","runtime A","runtime B","enforce A","enforce B","cpltime A","cpltime B"};
struct Sha1{ static constexpr size_t full=20; template<int I> using impl=Ha1<I>; template<class...A> using t=P::hash::sha_1_160<A...>; static B ref(const B&m){return ref::hash(ref::SHA1,m);} };
struct Sha2{ static constexpr size_t full=32; template<int I> using impl=Ha2<I>; template<class...A> using t=P::hash::sha_2_256<A...>; static B ref(const B&m){return ref::hash(ref::SHA256,m);} };
struct Sha224{ static constexpr size_t full=28; template<int I> using impl=Ha2<I>; template<class...A> using t=P::hash::sha_2_224<A...>; static B ref(const B&m){return ref::hash(ref::SHA224,m);} };
struct Sha5{ static constexpr size_t full=64; template<int I> using impl=Ha5<I>; template<class...A> using t=P::hash::sha_2_512<A...>; static B ref(const B&m){return ref::hash(ref::SHA512,m);} };
struct Sha384{ static constexpr size_t full=48; template<int I> using impl=Ha5<I>; template<class...A> using t=P::hash::sha_2_384<A...>; static B ref(const B&m){return ref::hash(ref::SHA384,m);} };
struct Poly{ static constexpr size_t full=16; template<int I> using impl=Po<I>; template<class...A> using t=P::mac::poly_1305<A...>; static B ref(const B&m){return ref::poly1305(ref::pattern(32,4),m);} };
template<class T> constexpr void prepare(T&o,const uint8_t*k){ if constexpr(requires{o.initialize();})o.initialize(); else o.initialize(k,32); }
template<class T> constexpr auto at_compile_time(){ std::array<uint8_t,80> d{}; uint8_t m[150]{},k[32]{}; for(int i=0;i<150;i++)m[i]=uint8_t(i*7+1); for(int i=0;i<32;i++)k[i]=uint8_t(i*13+5); T o;prepare(o,k);o.update(m,150);o.finalize();o.digest(d.data()); return d; }
template<class F,int...k> static void one(Ctx&C){ using T=typename F::template t<typename Opt<F::template impl,k>::t...>;
  static const int ks[]={k...,-1}; auto first=[&](int a,int b){ for(int x:ks)if(x==a||x==b)return x==b?2:1; return 0; }; std::string d; for(int x:ks)if(x>=0)d+=std::string(d.empty()?"":", ")+nm[x];
  size_t sz=first(SIZE_A,SIZE_B)==1?7:first(SIZE_A,SIZE_B)==2?12:F::full; int r=first(ENF_A,ENF_B); if(!r)r=first(RUN_A,RUN_B); int ct=first(CT_A,CT_B);
  if(T::digest_size!=sz)C.fail("options <%s>: digest size %zu, expected %zu",d.c_str(),size_t(T::digest_size),sz);
  B key=ref::pattern(32,4),m=ref::pattern(300,9),e=F::ref(m); cnt[0]=cnt[1]=0; T o;prepare(o,key.data());o.update(m.data(),111);o.update(m.data()+111,189);o.finalize(); uint8_t b[80];memset(b,0xa5,80); size_t n=o.digest(b); long a0=cnt[0],a1=cnt[1];
  if(n!=sz||memcmp(b,e.data(),sz)||b[sz]!=0xa5)C.fail("options <%s>: digest of %zu bytes %s, expected %zu bytes of %s",d.c_str(),n,ref::tohex(b,sz).c_str(),sz,ref::tohex(e).c_str());
  if((a0>0)!=(r==1)||(a1>0)!=(r==2))C.fail("options <%s>: at run time A was used %ld times and B %ld times, expected %s",d.c_str(),a0,a1,r==1?"A alone":r==2?"B alone":"neither");
  constexpr auto c=at_compile_time<T>(); B mm(150),kk(32); for(int i=0;i<150;i++)mm[i]=uint8_t(i*7+1); for(int i=0;i<32;i++)kk[i]=uint8_t(i*13+5); B ee; if constexpr(requires(T&o){o.initialize();})ee=F::ref(mm); else ee=ref::poly1305(kk,mm);
  bool right=!memcmp(c.data(),ee.data(),sz); if(right!=(ct!=1))C.fail("options <%s>: at compile time %s",d.c_str(),right?"the implementation named for compile time was not used":"the result is wrong, or an implementation not named for compile time was used");
  C.eval(3); C.out(b,n); C.state(mc::h64(d.data(),d.size())); if(sizeof...(k)==LEN)C.sample("options <%s>: %zu bytes, %s",d.c_str(),sz,r==1?"A":r==2?"B":"default"); }
template<class F,size_t...i> static void seqs1(Ctx&C,std::index_sequence<i...>){ (one<F,int(i)>(C),...); }
template<class F,size_t...i> static void seqs2(Ctx&C,std::index_sequence<i...>){ (one<F,int(i%NOPT),int(i/NOPT)>(C),...); }
template<class F,size_t...i> static void seqs3(Ctx&C,std::index_sequence<i...>){ (one<F,int(i%NOPT),int(i/NOPT%NOPT),int(i/NOPT/NOPT)>(C),...); }
#define S2_(a) MC_SUITE(options_##a){ C.choose(1); one<a>(C); seqs1<a>(C,std::make_index_sequence<NOPT>{}); if constexpr(LEN>=2)seqs2<a>(C,std::make_index_sequence<NOPT*NOPT>{}); if constexpr(LEN>=3)seqs3<a>(C,std::make_index_sequence<NOPT*NOPT*NOPT>{}); }
#define S_(a) S2_(a)
S_(ALG)
int main(int c,char**v){return mc::main(c,v);}
