// P04: HKDF
#define HKDF
#include "kdfs.h"
MC_SUITE(states){ int s; auto&a=alg(C,s,3); size_t b=ref::hblock(a.h),L=ref::hsize(a.h); const In ins[]={{22,13,10,0},{b+1,0,0,0},{0,b+3,2*b+7,0}}; a.states(C,a.nm,a.h,ins[s],0,5*L+1); }
// the last blocks of the 255, where the counter is about to wrap
MC_SUITE(limit){ int s; auto&a=alg(C,s,3); size_t L=ref::hsize(a.h); In in{22,13,10,0}; const size_t st[]={252*L,251*L+1,253*L-1}; a.states(C,a.nm,a.h,in,st[s],255*L); }
// 255 blocks in equal parts of every size
template<class T> static void whole(Ctx&C,const char*nm,int h,size_t lo,size_t hi){ size_t L=ref::hsize(h),N=255*L; In in{L,L,7,0}; static std::map<int,B> m; B&s=m[h]; if(s.empty())s=stream(h,in,N); for(size_t k=lo;k<hi;k++){ C.at(k); Box<T> o; init(*o,in); for(size_t p=0;p<N;p+=k)draw(C,nm,*o,in,s,p,std::min(k,N-p)); } }
MC_SUITE(whole){ int c=C.choose(7*4); int h=c/4; size_t L=ref::hsize(h),n=mc::thorough()?L*6:L*2+2,lo=1+n*(c%4)/4,hi=1+n*(c%4+1)/4;
#define W(n,hh,x) if(h==hh)whole<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h,lo,hi);
  HASHES_AUTO(W)
  if(c%4==0){
#define V(n,hh,x) if(h==hh)for(size_t k:{L*17,L*254,L*254+1,L*255-1,L*255,L*128+3})whole<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h,k,k+1);
  HASHES_AUTO(V) } }
#include "many.h"
#define HM(Y) Y("hkdf_sha_1_160",SKdf<P::kdf_hkdf_hmac_sha_1_160 COMMA true COMMA true>,ANY) Y("hkdf_sha_2_224",SKdf<P::kdf_hkdf_hmac_sha_2_224 COMMA true COMMA false>,ANY) Y("hkdf_sha_2_256",SKdf<P::kdf_hkdf_hmac_sha_2_256 COMMA true COMMA false>,ANY) Y("hkdf_sha_2_384",SKdf<P::kdf_hkdf_hmac_sha_2_384 COMMA true COMMA true>,ANY) Y("hkdf_sha_2_512",SKdf<P::kdf_hkdf_hmac_sha_2_512 COMMA true COMMA true>,ANY) Y("hkdf_sha_2_512_224",SKdf<P::kdf_hkdf_hmac_sha_2_512_224 COMMA true COMMA false>,ANY) Y("hkdf_sha_2_512_256",SKdf<P::kdf_hkdf_hmac_sha_2_512_256 COMMA true COMMA false>,ANY)
MANY_SUITE(HM)
int main(int c,char**v){return mc::main(c,v);}
