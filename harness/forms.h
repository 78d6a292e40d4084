// every form of a call that gives a resizable container, and every form that must not need memory
#pragma once
#include "all.h"
#include "aeads.h"
#include <string>
#include <array>
#include <span>
#include <milo/literal.h>
using milo::error;
// f(name, expected bytes, call(V&out)->size_t): call may be made any number of times, it initializes its object first
#define FORM(n,e,...) f(n,e,[&](V&o)->size_t{__VA_ARGS__})
#define GIVEN(n,e,...) f(n,e,[&](V&o)->size_t{o=__VA_ARGS__;return o.size();})
template<class V,class H,class F> void hash_forms(int id,size_t len,F f){ using A=P::hash::apie<H>; static A a; B m=ref::pattern(len,31),e=ref::hash(id,m); auto pre1=[&](size_t n){return B(e.begin(),e.begin()+std::min(n,e.size()));}; auto go=[&]()->A&{a.initialize();a.update(m);return a;};
  FORM("hash wrapper digest(container)",e,return go().digest(o);); GIVEN("hash wrapper digest<T>(n)",pre1(17),go().template digest<V>(17)); GIVEN("hash wrapper digest<T>(n), large n",e,go().template digest<V>(500)); FORM("hash wrapper digest(container,n)",pre1(19),return go().digest(o,19););
  FORM("hash::digest(c,container)",e,return P::hash::digest<H>(m,o);); FORM("hash::digest(c,container,n)",pre1(9),return P::hash::digest<H>(m,o,9);); GIVEN("hash::digest<H,T>(c,n)",pre1(20),P::hash::digest<H,V>(m,20)); }
template<class V,class M,class RF,class F> void mac_forms(RF rf,size_t len,F f){ using A=P::mac::apie<M>; static A a; B m=ref::pattern(len,32),k=ref::pattern(32,33),e=rf(k,m); auto pre1=[&](size_t n){return B(e.begin(),e.begin()+std::min(n,e.size()));}; auto go=[&]()->A&{a.initialize(k);a.update(m);return a;};
  FORM("mac wrapper digest(container)",e,return go().digest(o);); GIVEN("mac wrapper digest<T>(n)",pre1(15),go().template digest<V>(15)); FORM("mac wrapper digest(container,n)",pre1(11),return go().digest(o,11);); FORM("mac::digest(k,c,container)",e,return P::mac::digest<M>(k,m,o);); FORM("mac::digest(k,c,container,n)",pre1(9),return P::mac::digest<M>(k,m,o,9);); GIVEN("mac::digest<M,T>(k,c,n)",pre1(16),P::mac::digest<M,V>(k,m,16)); }
template<class V,class D,bool HK,class F> void kdf_forms(int id,size_t len,F f){ using A=P::kdf::apie<D>; static A a; B x=ref::pattern(len,34),s=ref::pattern(20,35),i=ref::pattern(9,36); B all=HK?ref::hkdf(id,x,s,i,400):ref::pbkdf2(id,x,s,2,400); auto pre1=[&](size_t n){return B(all.begin(),all.begin()+n);}; auto go=[&]()->A&{ if constexpr(HK)a.initialize(x,s,i); else a.initialize(x,s,2); return a; };
  FORM("kdf wrapper derive(container,n)",pre1(100),return go().derive(o,100);); GIVEN("kdf wrapper derive<T>(n)",pre1(70),go().template derive<V>(70)); if constexpr(HK){ FORM("kdf::derive(...,container,n)",pre1(33),return P::kdf::derive<D>(x,s,i,o,33);); GIVEN("kdf::derive<D,T>(...,n)",pre1(321),P::kdf::derive<D,V>(x,s,i,321)); } else { FORM("kdf::derive(...,container,n)",pre1(33),return P::kdf::derive<D>(x,s,2,o,33);); GIVEN("kdf::derive<D,T>(...,n)",pre1(321),P::kdf::derive<D,V>(x,s,2,321)); } }
template<class V,class X,class F> void cipher_forms(size_t len,F f){ using A=P::cipher::apie<X>; static A a; B k=ref::pattern(32,37),iv=ref::pattern(16,38),m=ref::pattern(len,39); uint32_t ctr=iv[0]|iv[1]<<8|iv[2]<<16|uint32_t(iv[3])<<24; B e=ref::chacha(k,ctr,B(iv.begin()+4,iv.end()),m); auto go=[&]()->A&{a.initialize(k,iv);return a;};
  FORM("cipher wrapper encrypt(c,container)",e,return go().encrypt(m,o);); FORM("cipher wrapper decrypt(c,container)",e,return go().decrypt(m,o);); GIVEN("cipher wrapper encrypt<T>(c)",e,go().template encrypt<V>(m)); GIVEN("cipher wrapper decrypt<T>(c)",e,go().template decrypt<V>(m)); FORM("cipher::encrypt(...,container)",e,return P::cipher::encrypt<X>(k,iv,m,o);); FORM("cipher::decrypt(...,container)",e,return P::cipher::decrypt<X>(k,iv,m,o);); GIVEN("cipher::encrypt<X,T>",e,P::cipher::encrypt<X,V>(k,iv,m)); GIVEN("cipher::decrypt<X,T>",e,P::cipher::decrypt<X,V>(k,iv,m)); }
template<class V,class X,class F> void aead_forms(size_t len,F f){ using A=P::aead::apie<X>; static A a; B k=ref::pattern(32,51),n=ref::pattern(12,52),ad=ref::pattern(21,53),m=ref::pattern(len,54),e=ref::aead_seal(k,n,m),t=ref::aead_tag(k,n,ad,e); alignas(16) static uint8_t sink[1200000]; static error er; auto go=[&]()->A&{a.initialize(k,n);a.aad(ad);return a;}; auto done=[&]()->A&{go().encrypt(m.data(),m.size(),sink);return a;}; B t7(t.begin(),t.begin()+7);
  FORM("aead wrapper encrypt(c,container)",e,return go().encrypt(m,o);); FORM("aead wrapper decrypt(c,container)",m,return go().decrypt(e,o);); GIVEN("aead wrapper encrypt<T>(c)",e,go().template encrypt<V>(m)); GIVEN("aead wrapper decrypt<T>(c)",m,go().template decrypt<V>(e)); FORM("aead wrapper digest(container)",t,return done().digest(o);); FORM("aead wrapper digest(container,n)",t7,return done().digest(o,7);); GIVEN("aead wrapper digest<T>(n)",t7,done().template digest<V>(7));
  FORM("aead::encrypt(...,container,array tag)",e,std::array<uint8_t,16> d;return P::aead::encrypt<X>(k,n,ad,m,o,d).item_0;); FORM("aead::encrypt(...,span text,container tag)",t,return P::aead::encrypt<X>(k,n,ad,m,*new(sink+1199984)std::span<uint8_t>(sink,m.size()),o).item_1;); FORM("aead::encrypt(...,container,container)",e,V d;size_t r=P::aead::encrypt<X>(k,n,ad,m,o,d).item_0;if(B((const uint8_t*)d.data(),(const uint8_t*)d.data()+d.size())!=t)return size_t(-1);return r;); GIVEN("aead::encrypt<X,T>",e,P::aead::encrypt<X,V>(k,n,ad,m).item_0);
  FORM("aead::decrypt(...,container,error)",m,return P::aead::decrypt<X>(k,n,ad,e,t,o,er);); FORM("aead::decrypt(...,container)",m,return P::aead::decrypt<X>(k,n,ad,e,t,o);); GIVEN("aead::decrypt<X,T>(...)",m,P::aead::decrypt<X,V>(k,n,ad,e,t)); GIVEN("aead::decrypt<X,T>(...,error)",m,P::aead::decrypt<X,V>(k,n,ad,e,t,er)); }
template<class V,class X,class F> void codec_forms(bool hex,size_t len,F f){ using A=P::codec::apie<X>; B m=ref::pattern(len,55),e=hex?ref::hex(m):ref::b64(m); error er;
  FORM("codec wrapper encode(c,container)",e,return A::encode(m,o);); GIVEN("codec wrapper encode<T>(c)",e,A::template encode<V>(m)); FORM("codec::encode(c,container)",e,return P::codec::encode<X>(m,o);); GIVEN("codec::encode<X,T>(c)",e,P::codec::encode<X,V>(m)); FORM("codec wrapper decode(c,container,error)",m,return A::decode(e,o,er);); FORM("codec wrapper decode(c,container)",m,return A::decode(e,o);); GIVEN("codec wrapper decode<T>(c)",m,A::template decode<V>(e)); FORM("codec::decode(c,container,error)",m,return P::codec::decode<X>(e,o,er);); FORM("codec::decode(c,container)",m,return P::codec::decode<X>(e,o);); GIVEN("codec::decode<X,T>(c)",m,P::codec::decode<X,V>(e)); }
// all of them for a container type; f is called in a fixed order
template<class V,class F> void all_forms(size_t len,F f){
  hash_forms<V,P::hash_sha_1_160>(ref::SHA1,len,f); hash_forms<V,P::hash_sha_2_256>(ref::SHA256,len,f); hash_forms<V,P::hash_sha_2_512_224>(ref::SHA512_224,len,f);
  mac_forms<V,P::mac_hmac_sha_2_256>([](const B&k,const B&m){return ref::hmac(ref::SHA256,k,m);},len,f); mac_forms<V,P::mac_poly_1305>([](const B&k,const B&m){return ref::poly1305(k,m);},len,f);
  kdf_forms<V,P::kdf_hkdf_hmac_sha_2_256,true>(ref::SHA256,len,f); kdf_forms<V,P::kdf_pbkdf_2_hmac_sha_1_160,false>(ref::SHA1,len,f);
  cipher_forms<V,P::cipher_chacha_20>(len,f); cipher_forms<V,P::cipher_chacha_20_sw>(len,f); aead_forms<V,P::aead_chacha_20_poly_1305>(len,f);
  codec_forms<V,P::codec::base_16<>>(true,len,f); codec_forms<V,P::codec::base_64<>>(false,len,f); }
#undef FORM
#undef GIVEN
