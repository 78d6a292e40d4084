// P05: PBKDF2
#include "kdfs.h"
MC_SUITE(states){ int s; auto&a=alg(C,s,3); size_t b=ref::hblock(a.h),L=ref::hsize(a.h); const In ins[]={{22,13,0,2},{b+1,0,0,1},{0,b+3,0,3}}; a.states(C,a.nm,a.h,ins[s],0,5*L+1); }
// iteration counts, all small ones and some large
template<class T> static void iters(Ctx&C,const char*nm,int h,uint32_t lo,uint32_t hi,uint32_t step){ size_t L=ref::hsize(h); B pw=cut(0,9),sa=cut(1,8); 
  // U_k and T incrementally: the reference for n+1 iterations from the one for n
  B x1=ref::cat(sa,B{0,0,0,1}),x2=ref::cat(sa,B{0,0,0,2}),u1=ref::hmac(h,pw,x1),u2=ref::hmac(h,pw,x2),t1=u1,t2=u2; 
  for(uint32_t n=1;n<hi;n++){ if(n>=lo&&(n-lo)%step==0){ C.at(n); In in{9,8,0,n}; B s=ref::cat(t1,t2); Box<T> o;init(*o,in);draw(C,nm,*o,in,s,0,L+3);draw(C,nm,*o,in,s,L+3,L-3);} u1=ref::hmac(h,pw,u1);u2=ref::hmac(h,pw,u2);for(size_t i=0;i<L;i++){t1[i]^=u1[i];t2[i]^=u2[i];} } C.sample("%s: iterations %u..%u step %u",nm,lo,hi,step); }
MC_SUITE(iterations){ int c=C.choose(14); int h=c/2; uint32_t hi=mc::thorough()?4000:1100;
#define W(n,hh,x) if(h==hh)iters<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h,c%2?65533:1,c%2?65540:hi,c%2?3:1);
  HASHES_AUTO(W) }
// the block counter over its first byte carry
template<class T> static void blocks(Ctx&C,const char*nm,int h){ size_t L=ref::hsize(h); In in{5,6,0,1}; size_t n=258*L; B s=stream(h,in,n); for(size_t k:{n,size_t(1),L-1,L,3*L+1,255*L,256*L-1,256*L+1}){ C.at(k); Box<T> o;init(*o,in);for(size_t p=0;p<n;p+=k)draw(C,nm,*o,in,s,p,std::min(k,n-p)); } 
  if(mc::thorough()||h==0){ size_t big=65538; uint8_t*buf=new uint8_t[big*L]; Box<T> o; init(*o,in); o->derive(buf,big*L); for(uint32_t i:{65534u,65535u,65536u,65537u}){ B x=cut(1,6);uint32_t j=i+1; for(int b=3;b>=0;b--)x.push_back(uint8_t(j>>(8*b))); B u=ref::hmac(h,cut(0,5),x); if(memcmp(u.data(),buf+i*L,L))C.fail("%s: block %u differs",nm,j); C.eval(); } delete[] buf; } }
MC_SUITE(blocks){ int h=C.choose(7);
#define V(n,hh,x) if(h==hh)blocks<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h);
  HASHES_AUTO(V) }
#include "many.h"
#define HM(Y) Y("pbkdf_2_sha_1_160",SKdf<P::kdf_pbkdf_2_hmac_sha_1_160 COMMA false COMMA true>,ANY) Y("pbkdf_2_sha_2_224",SKdf<P::kdf_pbkdf_2_hmac_sha_2_224 COMMA false COMMA false>,ANY) Y("pbkdf_2_sha_2_256",SKdf<P::kdf_pbkdf_2_hmac_sha_2_256 COMMA false COMMA false>,ANY) Y("pbkdf_2_sha_2_384",SKdf<P::kdf_pbkdf_2_hmac_sha_2_384 COMMA false COMMA true>,ANY) Y("pbkdf_2_sha_2_512",SKdf<P::kdf_pbkdf_2_hmac_sha_2_512 COMMA false COMMA false>,ANY) Y("pbkdf_2_sha_2_512_224",SKdf<P::kdf_pbkdf_2_hmac_sha_2_512_224 COMMA false COMMA false>,ANY) Y("pbkdf_2_sha_2_512_256",SKdf<P::kdf_pbkdf_2_hmac_sha_2_512_256 COMMA false COMMA true>,ANY)
MANY_SUITE(HM)
int main(int c,char**v){return mc::main(c,v);}
