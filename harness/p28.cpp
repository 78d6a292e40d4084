// P28: the testing interface answers exactly whether a vector holds
#include "all.h"
#include <milo/primitive/hash/test.h>
#include <milo/primitive/mac/test.h>
#include <milo/primitive/kdf/test.h>
#include <milo/primitive/cipher/test.h>
#include <milo/primitive/aead/test.h>
#include <milo/primitive/codec/test.h>
#include <span>
using mc::Ctx; namespace K=milo::container;
#ifndef FAULTY
static const B&mat(int w){static B m[6]={ref::pattern(900,41),ref::pattern(900,42),ref::pattern(900,43),ref::pattern(900,44),ref::pattern(900,45),ref::pattern(900,46)};return m[w];}
static B head(int w,size_t n){return B(mat(w).begin(),mat(w).begin()+n);}
using V=std::vector<B>;
// all vectors that differ from one that holds: every bit of every part, each part one byte longer and shorter, empty
static void variants(Ctx&C,const char*nm,V v,const std::vector<int>&fixed,const std::function<bool(const V&)>&holds,const std::function<bool(const V&)>&ask){
  auto one=[&](const V&x,const char*what,size_t part,size_t i,int bit){ C.at(part,i,bit); bool e=holds(x),r=ask(x); C.eval(); if(e!=r){ std::string s; for(auto&p:x)s+=" "+ref::tohex(p.size()>40?B(p.begin(),p.begin()+40):p); C.fail("%s: %s (part %zu, place %zu, bit %d): the vector %s but the answer is %s:%s",nm,what,part,i,bit,e?"holds":"does not hold",r?"yes":"no",s.c_str()); } };
  one(v,"the right vector",0,0,0);
  for(size_t p=0;p<v.size();p++){ for(size_t i=0;i<v[p].size();i++)for(int b=0;b<8;b++){ if(!mc::thorough()&&v[p].size()>64&&(i+b)%4)continue; V x=v; x[p][i]^=1<<b; one(x,"one bit changed",p,i,b); }
    if(std::find(fixed.begin(),fixed.end(),int(p))!=fixed.end())continue;
    {V x=v;x[p].push_back(0);one(x,"one zero byte more",p,0,0);} {V x=v;x[p].push_back(0x61);one(x,"one byte more",p,0,0);} if(v[p].size()){V x=v;x[p].pop_back();one(x,"one byte less",p,0,0);x[p].clear();one(x,"nothing",p,0,0);x=v;x[p].erase(x[p].begin());one(x,"first byte missing",p,0,0);} } }
template<class Co> static Co as(const B&b){ return Co((const typename Co::value_type*)b.data(),b.size()); }
using CV=K::chars_const_view_dynamic; using BV=K::bytes_const_view_dynamic; using SV=std::string_view; using SP=std::span<const unsigned char>;
template<class F> static bool kinds(int k,F f){ switch(k%4){case 0:return f([](const B&b){return as<CV>(b);}); case 1:return f([](const B&b){return as<BV>(b);}); case 2:return f([](const B&b){return K::bytes_dynamic(b.begin(),b.end());}); default:return f([](const B&b){return std::vector<char>(b.begin(),b.end());});} }
template<class T> static void t_hash(Ctx&C,const char*nm,int h,int need){ if(!have(need))return; int k=0; for(size_t m:{0,1,55,64,119,200}){ k++; variants(C,nm,{head(0,m),ref::hash(h,head(0,m))},{},[&](const V&v){return ref::hash(h,v[0])==v[1];},[&](const V&v){return kinds(k,[&](auto c){auto a=c(v[0]),b=c(v[1]);return P::hash::test::digest<T>(a,b);});}); } C.sample("%s",nm); }
MC_SUITE(hash){ int i=C.choose(17),n=0;
#define X(s,r,need) if(i==n++)t_hash<P::hash_##s>(C,#s,r,need);
 HASHES(X)
#undef X
}
template<class T> static void t_hmac(Ctx&C,const char*nm,int h,int need){ if(!have(need))return; int k=0; for(size_t ks:{0,1,63,64,65,129})for(size_t m:{0,1,64}){ k++; variants(C,nm,{head(0,ks),head(1,m),ref::hmac(h,head(0,ks),head(1,m))},{},[&](const V&v){return ref::hmac(h,v[0],v[1])==v[2];},[&](const V&v){return kinds(k,[&](auto c){auto a=c(v[0]),b=c(v[1]),d=c(v[2]);return P::mac::test::digest<T>(a,b,d);});}); } C.sample("hmac %s",nm); }
MC_SUITE(hmac){ int i=C.choose(17),n=0;
#define X(s,r,need) if(i==n++)t_hmac<P::mac::hmac<P::hash_##s>>(C,#s,r,need);
 HASHES(X)
#undef X
}
MC_SUITE(poly_1305){ int i=C.choose(6); static const size_t ms[]={0,1,15,16,17,40}; size_t m=ms[i]; using T=P::mac_poly_1305; variants(C,"poly_1305",{head(0,32),head(1,m),ref::poly1305(head(0,32),head(1,m))},{},[&](const V&v){return v[0].size()<=32&&ref::poly1305(v[0],v[1])==v[2];},[&](const V&v){return kinds(i,[&](auto c){auto a=c(v[0]),b=c(v[1]),d=c(v[2]);return P::mac::test::digest<T>(a,b,d);});}); 
  for(size_t ks:{33,40,64}){ B k=head(0,ks),t=ref::poly1305(head(0,32),head(1,m)); if(P::mac::test::digest<T>(as<CV>(k),as<CV>(head(1,m)),as<CV>(t)))C.fail("poly_1305: a key of %zu bytes is taken",ks); C.eval(); } }
template<class T> static void t_kdf(Ctx&C,const char*nm,int h,int need){ if(!have(need))return; size_t L=ref::hsize(h); int k=0;
  for(auto[a,b,c,n]:{std::array<size_t,4>{22,13,10,42},{0,0,0,L},{80,70,65,2*L+1},{1,3,0,0},{5,0,9,1},{64,64,1,L-1}}){ k++; 
   variants(C,nm,{head(0,a),head(1,b),head(2,c),ref::hkdf(h,head(0,a),head(1,b),head(2,c),n)},{},[&](const V&v){return ref::hkdf(h,v[0],v[1],v[2],v[3].size())==v[3];},[&](const V&v){return kinds(k,[&](auto f){auto w=f(v[0]),x=f(v[1]),y=f(v[2]),z=f(v[3]);return P::kdf::test::derive<P::kdf::hkdf<T>>(w,x,y,z);});});
   for(uint32_t it:{1u,3u})variants(C,nm,{head(0,a),head(1,b),ref::pbkdf2(h,head(0,a),head(1,b),it,n)},{},[&](const V&v){return ref::pbkdf2(h,v[0],v[1],it,v[2].size())==v[2];},[&](const V&v){return kinds(k,[&](auto f){auto w=f(v[0]),x=f(v[1]),z=f(v[2]);return P::kdf::test::derive<P::kdf::pbkdf_2<T>>(w,x,it,z);});});
   if(n){ B key=ref::pbkdf2(h,head(0,a),head(1,b),3,n); for(uint32_t it:{1u,2u,4u,3u+65536u}){ if(it>100&&k>1)continue; B w=head(0,a),x=head(1,b); if(P::kdf::test::derive<P::kdf::pbkdf_2<T>>(as<CV>(w),as<CV>(x),it,as<CV>(key)))C.fail("pbkdf2 %s: a key of 3 iterations is taken for one of %u",nm,it); C.eval(); } } }
  C.sample("%s",nm); }
MC_SUITE(kdf){ int i=C.choose(7),n=0;
#define X(s,r,need) if(i==n++)t_kdf<P::mac::hmac<P::hash_##s>>(C,#s,r,need);
 HASHES_AUTO(X)
#undef X
}
template<class T> static void t_cipher(Ctx&C,const char*nm,int need,int part){ if(!have(need))return; static const size_t ms[]={0,1,63,64,65,300}; size_t m=ms[part]; auto run=[](const V&v){ uint32_t ctr; memcpy(&ctr,v[1].data(),4); return ref::chacha(v[0],ctr,B(v[1].begin()+4,v[1].end()),v[2]); };
  V v{head(0,32),head(1,16),head(2,m),{}}; v[3]=run(v); auto holds=[&](const V&v){return run(v)==v[3];};
  variants(C,nm,v,{0,1},holds,[&](const V&v){return kinds(part,[&](auto f){auto a=f(v[0]),b=f(v[1]),c=f(v[2]),d=f(v[3]);return P::cipher::test::encrypt<T>(a,b,c,d);});});
  variants(C,nm,v,{0,1},holds,[&](const V&v){return kinds(part,[&](auto f){auto a=f(v[0]),b=f(v[1]),c=f(v[2]),d=f(v[3]);return P::cipher::test::decrypt<T>(a,b,c,d);});}); C.sample("%s: %zu bytes",nm,m); }
MC_SUITE(cipher){ int i=C.choose(24),n=0;
#define X(s,r,need) if(i/6==n++)t_cipher<P::cipher_##s>(C,#s,need,i%6);
 CIPHERS(X)
#undef X
}
template<class T> static void t_aead(Ctx&C,const char*nm,int part){ static const size_t ms[][2]={{0,0},{12,0},{0,20},{16,64},{13,130},{5,1}}; size_t a=ms[part][0],m=ms[part][1]; V v{head(0,32),head(1,12),head(2,a),head(3,m),{},{}}; v[4]=ref::aead_seal(v[0],v[1],v[3]); v[5]=ref::aead_tag(v[0],v[1],v[2],v[4]);
  auto holds=[&](const V&v){return ref::aead_seal(v[0],v[1],v[3])==v[4]&&ref::aead_tag(v[0],v[1],v[2],v[4])==v[5];};
  variants(C,nm,v,{0,1},holds,[&](const V&v){return kinds(part,[&](auto f){auto a=f(v[0]),b=f(v[1]),c=f(v[2]),d=f(v[3]),e=f(v[4]),t=f(v[5]);return P::aead::test<T>::encrypt(a,b,c,d,e,t);});});
  variants(C,nm,v,{0,1},holds,[&](const V&v){return kinds(part,[&](auto f){auto a=f(v[0]),b=f(v[1]),c=f(v[2]),d=f(v[3]),e=f(v[4]),t=f(v[5]);return P::aead::test<T>::decrypt(a,b,c,e,t,d);});}); C.sample("%s: %zu and %zu bytes",nm,a,m); }
MC_SUITE(aead){ int i=C.choose(12); if(i<6)t_aead<P::aead_chacha_20_poly_1305>(C,"aead",i); else t_aead<P::aead_chacha_20_sw_poly_1305_sw>(C,"aead sw",i-6); }
template<class T,bool b64> static void t_codec(Ctx&C,const char*nm,size_t n){ B raw=head(0,n),txt=b64?ref::b64(raw):ref::hex(raw); auto dec=[](const B&t,B&o){return b64?ref::unb64(t,o):ref::unhex(t,o);};
  variants(C,nm,{raw,txt},{},[&](const V&v){return (b64?ref::b64(v[0]):ref::hex(v[0]))==v[1];},[&](const V&v){return kinds(int(n),[&](auto f){auto a=f(v[0]),b=f(v[1]);return P::codec::test<T>::encode(a,b);});});
  variants(C,nm,{txt,raw},{},[&](const V&v){B o;return dec(v[0],o)&&o==v[1];},[&](const V&v){return kinds(int(n)+1,[&](auto f){auto a=f(v[0]),b=f(v[1]);return P::codec::test<T>::decode(a,b);});}); C.sample("%s: %zu bytes",nm,n); }
MC_SUITE(codec){ int i=C.choose(40); size_t n=i/2; if(i&1)t_codec<P::codec_base_64,true>(C,"base 64",n); else t_codec<P::codec_base_16,false>(C,"base 16",n); }
#else
// differential tests: equal implementations, and ones with one fault; the answer is no exactly when the fault showed
namespace D=P::detail; namespace O=milo::option; namespace meta=milo::meta;
static int fk; static long fp,calls,fired;
static bool hit(size_t n,const void*p,size_t bytes){ calls++; bool h=fk==1?long(n)==fp:fk==2?p&&memchr(p,int(fp),bytes):fk==3?calls==fp:false; fired+=h; return h; }
template<class I,class W,size_t bs> struct BadHash{ static constexpr size_t block_size=bs; template<meta::byte S> static constexpr auto blocks(size_t n,W*s,const S*p)noexcept(true)->void{ I::blocks(n,s,p); if(hit(n,p,n*bs))s[0]^=1; } };
using Bad1=BadHash<D::hash_sha_1_160_impl_sw,uint32_t,64>; using Bad2=BadHash<D::hash_sha_2_256_impl_sw,uint32_t,64>; using Bad5=BadHash<D::hash_sha_2_512_impl_sw,uint64_t,128>;
struct BadPoly{ static constexpr size_t block_size=16; template<meta::byte S> static constexpr auto process(size_t n,const uint32_t k[8],uint32_t*a,uint32_t add,const S*p)noexcept(true)->void{ D::mac_poly_1305_impl_sw::process(n,k,a,add,p); if(hit(n,p,n*16))a[0]^=1; } };
struct BadCipher{ using I=D::cipher_chacha_impl_sw_ietf; static constexpr auto block_size=I::block_size; static constexpr auto block_ratio=I::block_ratio;
 template<meta::byte A,meta::byte S> static constexpr auto transform(size_t n,const uint32_t*s,A*d,const S*p)noexcept(true)->size_t{ auto r=I::transform(n,s,d,p); if(hit(n,s,64))d[0]^=1; return r; }
 template<meta::byte A> static constexpr auto generate(size_t n,const uint32_t*s,A*d)noexcept(true)->size_t{ auto r=I::generate(n,s,d); if(hit(n,s,64))d[0]^=1; return r; } };
template<class F> static void ask(Ctx&C,const char*nm,int kind,long p,F f){ fk=kind;fp=p;calls=fired=0; bool r=f(); C.eval(); static const char*kn[]={"no fault","a fault for this number of blocks","a fault where this byte occurs","a fault in this call"}; C.at(kind,p); if(r!=!fired)C.fail("differential test of %s with %s (%ld): it occurred %ld times in %ld calls, and the answer is %s",nm,kn[kind],p,fired,calls,r?"equal":"different"); C.out(mc::mix(calls,r)); }
template<class F> static void faults(Ctx&C,const char*nm,int part,int parts,int nmax,long callmax,F f){
  if(part==0)ask(C,nm,0,0,f); for(int n=part;n<=nmax;n+=parts)if(n)ask(C,nm,1,n,f); for(int b=1+part;b<256;b+=parts)if(mc::thorough()||b<40||b%16==0||b>250)ask(C,nm,2,b,f); for(long c=1+part;c<=callmax;c+=parts)ask(C,nm,3,c,f); C.sample("%s",nm); }
template<class G,class X> static void hd(Ctx&C,const char*nm,int part,bool first){ long cm=mc::thorough()?20000:2500; if(first)faults(C,nm,part,4,5,cm,[]{return P::hash::test::differential<X,G>();}); else faults(C,nm,part,4,5,cm,[]{return P::hash::test::differential<G,X>();}); }
MC_SUITE(hash_differential){ int i=C.choose(24),p=i%4; bool f=i/4%2; switch(i/8){case 0:hd<P::hash_sha_1_160_sw,P::hash::sha_1_160<O::impl_enforce<Bad1>>>(C,"sha_1_160",p,f);break; case 1:hd<P::hash_sha_2_256_sw,P::hash::sha_2_256<O::impl_enforce<Bad2>>>(C,"sha_2_256",p,f);break; default:hd<P::hash_sha_2_384_sw,P::hash::sha_2_384<O::impl_enforce<Bad5>>>(C,"sha_2_384",p,f);} }
template<class G,class X> static void md(Ctx&C,const char*nm,int part,bool first,long cm){ if(first)faults(C,nm,part,4,5,cm,[]{return P::mac::test::differential<X,G>();}); else faults(C,nm,part,4,5,cm,[]{return P::mac::test::differential<G,X>();}); }
MC_SUITE(mac_differential){ int i=C.choose(16),p=i%4; bool f=i/4%2; long cm=mc::thorough()?20000:2500; if(i/8)md<P::mac_poly_1305,P::mac::poly_1305<O::impl_enforce<BadPoly>>>(C,"poly_1305",p,f,0); else md<P::mac::hmac<P::hash_sha_2_256_sw>,P::mac::hmac<P::hash::sha_2_256<O::impl_enforce<Bad2>>>>(C,"hmac sha_2_256",p,f,cm); }
MC_SUITE(cipher_differential){ int i=C.choose(8),p=i%4; bool f=i/4; using G=P::cipher_chacha_20_sw; using X=P::cipher::chacha_20<O::impl_enforce<BadCipher>>; long cm=mc::thorough()?20000:2500; if(f)faults(C,"chacha_20",p,4,10,cm,[]{return P::cipher::test::differential<X,G>();}); else faults(C,"chacha_20",p,4,10,cm,[]{return P::cipher::test::differential<G,X>();}); }
// derivations: faults that persist (the first derivations draw no bytes)
template<template<class>class Kd> static void kd(Ctx&C,const char*nm,bool first,int n){ using G=Kd<P::mac::hmac<P::hash_sha_2_256_sw>>; using X=Kd<P::mac::hmac<P::hash::sha_2_256<O::impl_enforce<Bad2>>>>; auto f=[&]{return first?P::kdf::test::differential<X,G>():P::kdf::test::differential<G,X>();}; ask(C,nm,1,n,f); for(int b:{1,2,3,7,20})ask(C,nm,2,b,f); C.sample("%s",nm); }
template<class T> using HK=P::kdf::hkdf<T>; template<class T> using PB=P::kdf::pbkdf_2<T>;
MC_SUITE(kdf_differential){ int i=C.choose(8); if(i&1)kd<HK>(C,"hkdf",i&2,1+i/4); else kd<PB>(C,"pbkdf2",i&2,1+i/4); }
#endif
int main(int c,char**v){return mc::main(c,v);}
