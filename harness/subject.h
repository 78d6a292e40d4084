// every kind of object with its operations and their legal order, for harnesses that drive all of them
#pragma once
#include "all.h"
#include "aeads.h"
#include <string>
using mc::Ctx;
enum{RAW=0,READY=1,ENC=2,DEC=3,DONE=4};
// E: in(slot,n,seed) gives n bytes of input, out(n) room for n bytes, wrote(p,reported,asked) takes the result
template<class H,bool W=false> struct SHash{ using T=std::conditional_t<W,P::hash::apie<H>,H>; static constexpr int OPS=4,INIT=0; static const char*op(int i){static const char*n[]={"initialize","update","finalize","digest"};return n[i];}
  static constexpr bool legal(int ph,int o){ return o==0||(o==1&&ph==READY)||(o==2&&!W&&ph==READY)||(o==3&&(ph==DONE||(W&&ph==READY))); } static constexpr bool sized(int o){return o==1||o==3;} static constexpr size_t block(){return H::block_size;}
  template<class E> static constexpr int run(T&t,int o,size_t n,E&e,int ph,int seed=0){ switch(o){ case 0:t.initialize();return READY; case 1:t.update(e.in(0,n,seed),n);return READY; case 2: if constexpr(!W)t.finalize();return DONE; default:{uint8_t*p=e.out(n);size_t r=t.digest(p,n);e.wrote(p,r,n,std::min(n,size_t(H::digest_size)));return DONE;} } } };
template<class M,bool W=false> struct SMac{ using T=std::conditional_t<W,P::mac::apie<M>,M>; static constexpr int OPS=4,INIT=0; static const char*op(int i){static const char*n[]={"initialize","update","finalize","digest"};return n[i];}
  static constexpr bool legal(int ph,int o){ return o==0||(o==1&&ph==READY)||(o==2&&!W&&ph==READY)||(o==3&&(ph==DONE||(W&&ph==READY))); } static constexpr bool sized(int o){return o!=2;} static constexpr size_t block(){return 128;}
  template<class E> static constexpr int run(T&t,int o,size_t n,E&e,int ph,int seed=0){ switch(o){ case 0:t.initialize(e.in(1,n,seed),n);return READY; case 1:t.update(e.in(0,n,seed),n);return READY; case 2: if constexpr(!W)t.finalize();return DONE; default:{uint8_t*p=e.out(n);size_t r=t.digest(p,n);e.wrote(p,r,n,std::min(n,size_t(M::digest_size)));return DONE;} } } };
template<class K,bool HK,bool W=false> struct SKdf{ using T=std::conditional_t<W,P::kdf::apie<K>,K>; static constexpr int OPS=2,INIT=0; static const char*op(int i){static const char*n[]={"initialize","derive"};return n[i];}
  static constexpr bool legal(int ph,int o){ return o==0||ph==READY; } static constexpr bool sized(int){return true;} static constexpr size_t block(){return 64;}
  template<class E> static constexpr int run(T&t,int o,size_t n,E&e,int ph,int seed=0){ if(o==0){ size_t a=n,b=n/2,c=n/3; if constexpr(HK)t.initialize(e.in(1,a,seed),a,e.in(2,b,seed),b,e.in(3,c,seed),c); else t.initialize(e.in(1,a,seed),a,e.in(2,b,seed),b,2); return READY; } uint8_t*p=e.out(n);size_t r=t.derive(p,n);e.wrote(p,r,n,n);return READY; } };
template<class X,bool W=false> struct SCipher{ using T=std::conditional_t<W,P::cipher::apie<X>,X>; static constexpr int OPS=4,INIT=0; static const char*op(int i){static const char*n[]={"initialize","encrypt","decrypt","encrypt in place"};return n[i];}
  static constexpr bool legal(int ph,int o){ return o==0||ph==READY; } static constexpr bool sized(int o){return o!=0;} static constexpr size_t block(){return 512;}
  template<class E> static constexpr int run(T&t,int o,size_t n,E&e,int ph,int seed=0){ switch(o){ case 0:t.initialize(e.in(1,32,seed),32,e.in(2,16,seed),16);return READY; case 1:{uint8_t*p=e.out(n);size_t r=t.encrypt(e.in(0,n,seed),n,p);e.wrote(p,r,n,n);return READY;} case 2:{uint8_t*p=e.out(n);size_t r=t.decrypt(e.in(0,n,seed),n,p);e.wrote(p,r,n,n);return READY;} default:{uint8_t*p=e.out(n);for(size_t i=0;i<n;i++)p[i]=0x5c;size_t r=t.encrypt(p,n,p);e.wrote(p,r,n,n);return READY;} } } };
template<class A,bool W=false> struct SAead{ using T=std::conditional_t<W,P::aead::apie<A>,A>; static constexpr int OPS=6,INIT=0; static const char*op(int i){static const char*n[]={"initialize","aad","encrypt","decrypt","finalize","digest"};return n[i];}
  static constexpr bool legal(int ph,int o){ switch(o){ case 0:return true; case 1:return ph==READY; case 2:return ph==READY||ph==ENC; case 3:return ph==READY||ph==DEC; case 4:return !W&&ph!=RAW&&ph!=DONE; default:return ph==DONE||(W&&ph!=RAW); } } static constexpr bool sized(int o){return o!=0&&o!=4;} static constexpr size_t block(){return 512;}
  template<class E> static constexpr int run(T&t,int o,size_t n,E&e,int ph,int seed=0){ switch(o){ case 0:t.initialize(e.in(1,32,seed),32,e.in(2,12,seed),12);return READY; case 1:t.aad(e.in(3,n,seed),n);return READY; case 2:{uint8_t*p=e.out(n);size_t r=t.encrypt(e.in(0,n,seed),n,p);e.wrote(p,r,n,n);return ENC;} case 3:{uint8_t*p=e.out(n);size_t r=t.decrypt(e.in(0,n,seed),n,p);e.wrote(p,r,n,n);return DEC;}
    case 4: if constexpr(!W){ if constexpr(requires{t.aadover();}){ if(ph==READY)t.aadover(); } t.finalize(); } return DONE; default:{uint8_t*p=e.out(n);size_t r=t.digest(p,n);e.wrote(p,r,n,std::min<size_t>(n,16));return DONE;} } } };
// Y(name, subject type, need)
#define SUBJ_HASH1(Y,n,nd) Y(hash_##n,SHash<P::hash_##n>,nd) Y(hash_##n##_apie,SHash<P::hash_##n COMMA true>,nd)
#define COMMA ,
// the list every harness uses; BIG adds the remaining hashes to macs and kdfs
#define SUBJECTS_HASH(Y) Y("sha_1",SHash<P::hash_sha_1_160>,ANY) Y("sha_1_sw",SHash<P::hash_sha_1_160_sw>,ANY) Y("sha_1_ni",SHash<P::hash_sha_1_160_hw_x86_64_ni>,NEED_SHA1) Y("sha_224",SHash<P::hash_sha_2_224>,ANY) Y("sha_256",SHash<P::hash_sha_2_256>,ANY) Y("sha_256_sw",SHash<P::hash_sha_2_256_sw>,ANY) Y("sha_256_ni",SHash<P::hash_sha_2_256_hw_x86_64_ni>,NEED_SHA2) Y("sha_384",SHash<P::hash_sha_2_384>,ANY) Y("sha_512",SHash<P::hash_sha_2_512>,ANY) Y("sha_512_224",SHash<P::hash_sha_2_512_224>,ANY) Y("sha_512_256",SHash<P::hash_sha_2_512_256>,ANY) Y("sha_1 apie",SHash<P::hash_sha_1_160 COMMA true>,ANY) Y("sha_256 apie",SHash<P::hash_sha_2_256 COMMA true>,ANY) Y("sha_512 apie",SHash<P::hash_sha_2_512 COMMA true>,ANY)
#define SUBJECTS_MAC(Y) Y("hmac_sha_1",SMac<P::mac_hmac_sha_1_160>,ANY) Y("hmac_sha_256",SMac<P::mac_hmac_sha_2_256>,ANY) Y("hmac_sha_512",SMac<P::mac_hmac_sha_2_512>,ANY) Y("hmac_sha_512_224",SMac<P::mac_hmac_sha_2_512_224>,ANY) Y("poly_1305",SMac<P::mac_poly_1305>,ANY) Y("hmac_sha_256 apie",SMac<P::mac_hmac_sha_2_256 COMMA true>,ANY) Y("poly_1305 apie",SMac<P::mac_poly_1305 COMMA true>,ANY)
#define SUBJECTS_KDF(Y) Y("hkdf_sha_1",SKdf<P::kdf_hkdf_hmac_sha_1_160 COMMA true>,ANY) Y("hkdf_sha_256",SKdf<P::kdf_hkdf_hmac_sha_2_256 COMMA true>,ANY) Y("hkdf_sha_512",SKdf<P::kdf_hkdf_hmac_sha_2_512 COMMA true>,ANY) Y("pbkdf_2_sha_1",SKdf<P::kdf_pbkdf_2_hmac_sha_1_160 COMMA false>,ANY) Y("pbkdf_2_sha_256",SKdf<P::kdf_pbkdf_2_hmac_sha_2_256 COMMA false>,ANY) Y("pbkdf_2_sha_512_224",SKdf<P::kdf_pbkdf_2_hmac_sha_2_512_224 COMMA false>,ANY) Y("hkdf_sha_256 apie",SKdf<P::kdf_hkdf_hmac_sha_2_256 COMMA true COMMA true>,ANY) Y("pbkdf_2_sha_256 apie",SKdf<P::kdf_pbkdf_2_hmac_sha_2_256 COMMA false COMMA true>,ANY)
#define SUBJECTS_CIPHER(Y) Y("chacha_20",SCipher<P::cipher_chacha_20>,ANY) Y("chacha_20_sw",SCipher<P::cipher_chacha_20_sw>,ANY) Y("chacha_20_ssse_3",SCipher<P::cipher_chacha_20_hw_x86_64_ssse_3>,NEED_SSSE3) Y("chacha_20_avx_2",SCipher<P::cipher_chacha_20_hw_x86_64_avx_2>,NEED_AVX2) Y("chacha_20 apie",SCipher<P::cipher_chacha_20 COMMA true>,ANY)
#define SUBJECTS_AEAD(Y) Y("aead",SAead<P::aead_chacha_20_poly_1305>,ANY) Y("aead_sw",SAead<P::aead_chacha_20_sw_poly_1305_sw>,ANY) Y("aead_ssse_3",SAead<AeadSsse3>,NEED_SSSE3) Y("aead_avx_2",SAead<AeadAvx2>,NEED_AVX2) Y("aead apie",SAead<P::aead_chacha_20_poly_1305 COMMA true>,ANY)
#define SUBJECTS(Y) SUBJECTS_HASH(Y) SUBJECTS_MAC(Y) SUBJECTS_KDF(Y) SUBJECTS_CIPHER(Y) SUBJECTS_AEAD(Y)
#define SUBJECTS_SW(Y) Y("sha_1_sw",SHash<P::hash_sha_1_160_sw>,ANY) Y("sha_256_sw",SHash<P::hash_sha_2_256_sw>,ANY) Y("sha_512",SHash<P::hash_sha_2_512>,ANY) Y("sha_512_256",SHash<P::hash_sha_2_512_256>,ANY) SUBJECTS_MAC(Y) SUBJECTS_KDF(Y) Y("chacha_20_sw",SCipher<P::cipher_chacha_20_sw>,ANY) Y("chacha_20",SCipher<P::cipher_chacha_20>,ANY) Y("aead",SAead<P::aead_chacha_20_poly_1305>,ANY) Y("aead apie",SAead<P::aead_chacha_20_poly_1305 COMMA true>,ANY)
