// aead types and expectations, shared by P07 and P08
#pragma once
#include "all.h"
#define AEADS(X) X(chacha_20_poly_1305,P::aead_chacha_20_poly_1305,ANY) X(chacha_20_sw_poly_1305_sw,P::aead_chacha_20_sw_poly_1305_sw,ANY) X(chacha_20_ssse_3_poly_1305_sw,AeadSsse3,NEED_SSSE3) X(chacha_20_avx_2_poly_1305_sw,AeadAvx2,NEED_AVX2)
using AeadSsse3=P::detail::aead_chacha_20_poly_1305<P::cipher_chacha_20_hw_x86_64_ssse_3,P::mac_poly_1305_sw>;
using AeadAvx2=P::detail::aead_chacha_20_poly_1305<P::cipher_chacha_20_hw_x86_64_avx_2,P::mac_poly_1305_sw>;
static B akey(int i=0){return ref::pattern(32,41+i);} static B anonce(int i=0){return ref::pattern(12,61+i);}
static const B&aad0(){static B b=ref::pattern(5000,43);return b;} static const B&pt0(){static B b=ref::pattern(9000,44);return b;}
static const B&ct0(int id=0){static B b[4];if(b[id].empty())b[id]=ref::aead_seal(akey(id),anonce(id),pt0());return b[id];}
inline B pre(const B&b,size_t n){return B(b.begin(),b.begin()+n);}
#ifndef MC_M32
// a second poly1305 with 64 bit limbs, for very long inputs (compared with the plain one on start)
struct Poly{ uint64_t h0=0,h1=0,h2=0,r0,r1,s0,s1; typedef unsigned __int128 u; B rest;
  static uint64_t ld(const uint8_t*p){uint64_t v=0;for(int i=0;i<8;i++)v|=uint64_t(p[i])<<(8*i);return v;}
  Poly(const B&k){r0=ld(&k[0])&0x0ffffffc0fffffffull;r1=ld(&k[8])&0x0ffffffc0ffffffcull;s0=ld(&k[16]);s1=ld(&k[24]);}
  void block(const uint8_t*p,uint64_t hi){ uint64_t m0,m1;memcpy(&m0,p,8);memcpy(&m1,p+8,8); u t=(u)h0+m0;h0=uint64_t(t);t=(u)h1+m1+uint64_t(t>>64);h1=uint64_t(t);h2+=uint64_t(t>>64)+hi;
    u d0=(u)h0*r0,c0=(u)h0*r1,c1=(u)h1*r0,e=(u)h1*r1; u d1=c0+c1; uint64_t car=d1<c0; u d2=e+(u)h2*r0,d3=(u)h2*r1; // d0 + d1*2^64 + (d2<<128), d3 belongs to 2^192 minus; h2 small: h2*r0 at 2^128, h2*r1 at 2^192
    uint64_t w0=uint64_t(d0); u a=(d0>>64)+uint64_t(d1); uint64_t w1=uint64_t(a); a=(a>>64)+(d1>>64)+uint64_t(d2); uint64_t w2=uint64_t(a); a=(a>>64)+(d2>>64)+((u)car)+uint64_t(d3); uint64_t w3=uint64_t(a); uint64_t w4=uint64_t((a>>64)+(d3>>64));
    // value = w0..w4; split at 2^130: low = w0,w1,w2&3 ; high = value>>130, add 5*high
    uint64_t q0=w2>>2|w3<<62,q1=w3>>2|w4<<62; u f0=(u)q0*5,f1=(u)q1*5; h0=w0;h1=w1;h2=w2&3; t=(u)h0+uint64_t(f0);h0=uint64_t(t);t=(t>>64)+h1+(f0>>64)+uint64_t(f1);h1=uint64_t(t);h2+=uint64_t((t>>64)+(f1>>64)); }
  void update(const uint8_t*p,size_t n){ while(n>=16){block(p,1);p+=16;n-=16;} if(n){uint8_t b[16]={0};memcpy(b,p,n);block(b,1);} } // n % 16 != 0: zero padded, as in the aead construction
  B fin(){ for(int i=0;i<3;i++){uint64_t q=h2>>2;h2&=3;u t=(u)h0+q*5;h0=uint64_t(t);t=(u)h1+uint64_t(t>>64);h1=uint64_t(t);h2+=uint64_t(t>>64);} u t=(u)h0+5;uint64_t g0=uint64_t(t);t=(u)h1+uint64_t(t>>64);uint64_t g1=uint64_t(t);uint64_t g2=h2+uint64_t(t>>64);if(g2>>2){h0=g0;h1=g1;} t=(u)h0+s0;h0=uint64_t(t);t=(u)h1+s1+uint64_t(t>>64);h1=uint64_t(t);B o;for(int i=0;i<16;i++)o.push_back(uint8_t((i<8?h0:h1)>>(8*(i%8))));return o; }
};
#else
// the same with limbs of 26 bits
struct Poly{ uint32_t r[5],s[4],h[5]={}; static uint32_t ld(const uint8_t*p){uint32_t v;memcpy(&v,p,4);return v;}
  static void split(const uint8_t*p,uint32_t hi,uint32_t*o){ uint64_t a=ld(p)|uint64_t(ld(p+4))<<32,b=ld(p+8)|uint64_t(ld(p+12))<<32; const uint32_t M=0x3ffffff; o[0]=uint32_t(a)&M;o[1]=uint32_t(a>>26)&M;o[2]=uint32_t(a>>52|b<<12)&M;o[3]=uint32_t(b>>14)&M;o[4]=uint32_t(b>>40)|hi<<24; }
  Poly(const B&k){ uint8_t t[16];memcpy(t,k.data(),16);for(int i:{3,7,11,15})t[i]&=15;for(int i:{4,8,12})t[i]&=252; split(t,0,r); for(int i=0;i<4;i++)s[i]=ld(&k[16+4*i]); }
  void block(const uint8_t*p,int hi=1){ uint32_t m[5]; split(p,hi,m); for(int i=0;i<5;i++)h[i]+=m[i]; uint64_t d[5]; for(int i=0;i<5;i++){ d[i]=0; for(int j=0;j<5;j++)d[i]+=uint64_t(h[j])*(j<=i?r[i-j]:5*r[5+i-j]); } uint64_t c=0; for(int i=0;i<5;i++){d[i]+=c;c=d[i]>>26;h[i]=uint32_t(d[i])&0x3ffffff;} c=c*5+h[0]; h[0]=uint32_t(c)&0x3ffffff; h[1]+=uint32_t(c>>26); }
  void update(const uint8_t*p,size_t n){ while(n>=16){block(p);p+=16;n-=16;} if(n){uint8_t b[16]={0};memcpy(b,p,n);block(b);} } // n % 16 != 0: zero padded
  void last(const uint8_t*p,size_t n){ uint8_t b[16]={0}; memcpy(b,p,n); b[n]=1; block(b,0); } // the end of a message
  B fin(){ for(int t=0;t<3;t++){ uint32_t c=0; for(int i=0;i<5;i++){h[i]+=c;c=h[i]>>26;h[i]&=0x3ffffff;} h[0]+=c*5; } uint32_t g[5],c=5; for(int i=0;i<5;i++){g[i]=h[i]+c;c=g[i]>>26;g[i]&=0x3ffffff;} if(c)memcpy(h,g,20); uint32_t w[4]={h[0]|h[1]<<26,h[1]>>6|h[2]<<20,h[2]>>12|h[3]<<14,h[3]>>18|h[4]<<8}; B o(16); uint64_t a=0; for(int i=0;i<4;i++){a+=uint64_t(w[i])+s[i];for(int j=0;j<4;j++)o[4*i+j]=uint8_t(a>>(8*j));a>>=32;} return o; }
};
#endif
