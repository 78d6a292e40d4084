// P22: one translation unit of a user of the library; TU is its number, ORDER the order of includes
#if ORDER==1
#include <milo/literal.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/codec/base.h>
#else
#include <milo/primitive/codec/base.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/literal.h>
#endif
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/error.h>
#include <milo/container.h>
#include <milo/option.h>
#include <array>
#include <span>
#include <string>
#include <vector>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <new>
#include "p22.h"
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define FN(n) CAT(n,TU)
namespace{
namespace Q=milo::primitive; using V=std::vector<uint8_t>;
inline V pat(size_t n,unsigned s){V v(n);for(size_t i=0;i<n;i++)v[i]=uint8_t((i*7+s*31+(i>>3)*13)^(s>>2));return v;}
struct Out{ p22_emit f;void*u; void operator()(const char*name,size_t len,const void*p,size_t n){f(u,name,len,p,n);} void operator()(const char*name,size_t len,const V&v){f(u,name,len,v.data(),v.size());} };
template<class H> void hash(Out&o,const char*nm){ for(size_t n=0;n<=140;n++){ V m=pat(n,1); V d; Q::hash::digest<H>(m,d); o(nm,n,d); H h; h.initialize(); h.update(m.data(),n/3); h.update(m.data()+n/3,n-n/3); h.finalize(); uint8_t x[64]; size_t z=h.digest(x); o(nm,n,x,z); } }
template<class M> void mac(Out&o,const char*nm,bool poly){ for(size_t n=0;n<=140;n+=3)for(size_t k:{0,20,64,131}){ if(poly)k=32; V m=pat(n,2),key=pat(k,3); V d; Q::mac::digest<M>(key,m,d); o(nm,n*1000+k,d); M h; h.initialize(key.data(),key.size()); h.update(m.data(),m.size()); h.finalize(); uint8_t x[64]; size_t z=h.digest(x); o(nm,n*1000+k,x,z); if(poly)break; } }
}
extern "C" void FN(p22_battery_)(p22_emit f,void*u){ Out o{f,u};
  hash<Q::hash::sha_1_160<>>(o,"sha1"); hash<Q::hash::sha_2_224<>>(o,"sha224"); hash<Q::hash::sha_2_256<>>(o,"sha256"); hash<Q::hash::sha_2_384<>>(o,"sha384"); hash<Q::hash::sha_2_512<>>(o,"sha512"); hash<Q::hash::sha_2_512_224<>>(o,"sha512_224"); hash<Q::hash::sha_2_512_256<>>(o,"sha512_256");
  mac<Q::mac::hmac<Q::hash::sha_1_160<>>>(o,"hmac1",false); mac<Q::mac::hmac<Q::hash::sha_2_256<>>>(o,"hmac256",false); mac<Q::mac::hmac<Q::hash::sha_2_512<>>>(o,"hmac512",false); mac<Q::mac::poly_1305<>>(o,"poly1305",true);
  for(size_t n=0;n<=100;n+=5){ using K=Q::kdf::hkdf<Q::mac::hmac<Q::hash::sha_2_256<>>>; using L=Q::kdf::pbkdf_2<Q::mac::hmac<Q::hash::sha_1_160<>>>; V k=pat(n,4),s=pat(n/2,5),i=pat(n/3,6); o("hkdf",n,Q::kdf::derive<K,V>(k,s,i,70+n)); o("pbkdf2",n,Q::kdf::derive<L,V>(k,s,3,30+n/2)); }
  V key=pat(32,7),iv=pat(16,8),nonce=pat(12,9);
  for(size_t n=0;n<=300;n++){ using X=Q::cipher::chacha_20<>; V m=pat(n,10),c; Q::cipher::encrypt<X>(key,iv,m,c); o("chacha",n,c); V p; Q::cipher::decrypt<X>(key,iv,c,p); if(p!=m)o("chacha decrypt",n,p); X x; x.initialize(key.data(),32,iv.data(),16); V y(n); x.encrypt(m.data(),n/2,y.data()); x.encrypt(m.data()+n/2,n-n/2,y.data()+n/2); o("chacha",n,y); }
  for(size_t n=0;n<=300;n++){ using X=Q::aead::chacha_20_poly_1305<>; V m=pat(n,11),a=pat(n%37,12),c,t; Q::aead::encrypt<X>(key,nonce,a,m,c,t); o("aead",n,c); o("aead tag",n,t); milo::error e; V p; Q::aead::decrypt<X>(key,nonce,a,c,t,p,e); if(e||p!=m)o("aead decrypt",n,p); t[n%16]^=uint8_t(1+n/16); Q::aead::decrypt<X>(key,nonce,a,c,t,p,e); if(!e)o("aead forgery",n,p); bool th=false; try{ Q::aead::decrypt<X>(key,nonce,a,c,t,p); }catch(const milo::error&x){ th=x==milo::error::aead_verify; } if(!th)o("aead forgery, throwing",n,p); }
  for(size_t n=0;n<=300;n++){ using X=Q::codec::base_16<>; using Y=Q::codec::base_64<>; V m=pat(n,13); V e=Q::codec::encode<X,V>(m),g=Q::codec::encode<Y,V>(m); o("base16",n,e); o("base64",n,g); milo::error er; V p; Q::codec::decode<X>(e,p,er); if(er||p!=m)o("base16 decode",n,p); Q::codec::decode<Y>(g,p,er); if(er||p!=m)o("base64 decode",n,p); if(n){ for(int v=0;v<256;v++){ V w=g; w[w.size()*3/7]=uint8_t(v); Q::codec::decode<Y>(w,p,er); uint8_t b=er?1:0; o("base64 changed",n*256+v,&b,1); w=e; w[w.size()*3/7]=uint8_t(v); Q::codec::decode<X>(w,p,er); b=er?1:0; o("base16 changed",n*256+v,&b,1); } } }
  { using namespace milo::literal; V x="00ff7f80"_base_16; o("literal 16",0,x); V y="AP9/gA=="_base_64; o("literal 64",0,y); std::string s(reinterpret_cast<const char*>("text"_b.data()),4); o("literal b",0,s.data(),4); o("literal cv",0,"text"_cv.data(),4); o("literal bv",0,"text"_bv.data(),4); o("literal c",0,"text"_c.data(),4); }
}
// objects that cross from one unit to another
using Hs=milo::primitive::hash::apie<milo::primitive::hash::sha_2_256<>>; using Hx=milo::primitive::hash::sha_2_512<>; using Mx=milo::primitive::mac::apie<milo::primitive::mac::poly_1305<>>; using Mh=milo::primitive::mac::hmac<milo::primitive::hash::sha_1_160<>>; using Kx=milo::primitive::kdf::apie<milo::primitive::kdf::hkdf<Mh>>; using Kp=milo::primitive::kdf::pbkdf_2<Mh>; using Cx=milo::primitive::cipher::apie<milo::primitive::cipher::chacha_20<>>; using Ax=milo::primitive::aead::apie<milo::primitive::aead::chacha_20_poly_1305<>>;
template<class T> static void sz(Out&o,const char*n){ size_t x[2]={sizeof(T),alignof(T)}; o(n,0,x,sizeof x); }
extern "C" void FN(p22_sizes_)(p22_emit f,void*u){ Out o{f,u}; sz<Hs>(o,"hash apie");sz<Hx>(o,"hash");sz<milo::primitive::hash::sha_1_160<>>(o,"sha1");sz<Mx>(o,"mac apie");sz<Mh>(o,"hmac");sz<Kx>(o,"kdf apie");sz<Kp>(o,"pbkdf2");sz<Cx>(o,"cipher apie");sz<milo::primitive::cipher::chacha_20<>>(o,"cipher");sz<Ax>(o,"aead apie");sz<milo::primitive::aead::chacha_20_poly_1305<>>(o,"aead");sz<milo::error>(o,"error");}
extern "C" void FN(p22_make_)(void*p,int k,size_t n){ static const V key=pat(32,20),iv=pat(16,21); V m=pat(n,22); switch(k){ case 0:{auto*x=new(p)Hs;x->initialize();x->update(m);break;} case 1:{auto*x=new(p)Hx;x->initialize();x->update(m.data(),n);break;} case 2:{auto*x=new(p)Mx;x->initialize(key);x->update(m);break;} case 3:{auto*x=new(p)Mh;x->initialize(m.data(),n);x->update(m.data(),n);break;} case 4:{auto*x=new(p)Kx;x->initialize(m,key,iv);uint8_t t[7];x->derive(t,7);break;} case 5:{auto*x=new(p)Cx;x->initialize(key,iv);V t(n);x->encrypt(m.data(),n,t.data());break;} default:{auto*x=new(p)Ax;x->initialize(key.data(),key.size(),iv.data(),12);x->aad(m.data(),n);V t(n);x->encrypt(m.data(),n,t.data());break;} } }
extern "C" void FN(p22_use_)(void*p,int k,size_t n,p22_emit f,void*u){ Out o{f,u}; V m=pat(n,23); uint8_t d[600]; size_t z; switch(k){ case 0:{Hs y(*(Hs*)p);auto*x=(Hs*)p;x->update(m);z=x->digest(d,32);o("x0",n,d,z);y.update(m);z=y.digest(d,32);o("x0",n,d,z);x->~Hs();break;} case 1:{auto*x=(Hx*)p;x->update(m.data(),n);x->finalize();z=x->digest(d,64);o("x1",n,d,z);x->~Hx();break;} case 2:{auto*x=(Mx*)p;x->update(m);z=x->digest(d,16);o("x2",n,d,z);x->~Mx();break;} case 3:{auto*x=(Mh*)p;x->update(m.data(),n);x->finalize();z=x->digest(d,20);o("x3",n,d,z);x->~Mh();break;} case 4:{auto*x=(Kx*)p;z=x->derive(d,100);o("x4",n,d,z);x->~Kx();break;} case 5:{auto*x=(Cx*)p;z=x->encrypt(m.data(),n,d);o("x5",n,d,z);x->~Cx();break;} default:{auto*x=(Ax*)p;z=x->encrypt(m.data(),n,d);o("x6",n,d,z);z=x->digest(d,16);o("x6",n,d,z);milo::error e;x->verify(d,16,e);uint8_t b=bool(e);o("x6",n,&b,1);x->~Ax();break;} } }
