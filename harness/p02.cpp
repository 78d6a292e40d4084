// P02: HMAC
#include "macs.h"
static B rf(int h,const B&k,const B&m){return ref::hmac(h,k,m);}
struct Alg{const char*nm;int h;int need;void(*len)(Ctx&,const char*,int,Ref,size_t,int,int),(*states)(Ctx&,const char*,int,Ref,size_t,const B&,const B&,size_t),(*bytes)(Ctx&,const char*,int,Ref,size_t,size_t,int,int);void(*hist)(Ctx&,const char*,int,int,bool),(*wide)(Ctx&,const char*,int,Ref,int,int);};
template<class T> static void hist(Ctx&C,const char*nm,int h,int first,bool wrap){ size_t b=ref::hblock(h); if(wrap){ Box<P::mac::apie<T>> o; m_history<P::mac::apie<T>,true>(C,nm,h,rf,b,*o,first);} else {Box<T> o; m_history<T,false>(C,nm,h,rf,b,*o,first);} }
#define X(n,h,need) {#n,h,need,m_lengths<P::mac::hmac<P::hash_##n>>,m_states<P::mac::hmac<P::hash_##n>>,m_bytes<P::mac::hmac<P::hash_##n>>,hist<P::mac::hmac<P::hash_##n>>,m_wide<P::mac::hmac<P::hash_##n>>},
static const Alg A[]={HASHES(X)}; static const int NA=sizeof A/sizeof*A;
static const Alg&alg(Ctx&C,int&sub,int subs){ static std::vector<int> ok=[]{std::vector<int>r;for(int i=0;i<NA;i++)if(have(A[i].need))r.push_back(i);return r;}(); int c=C.choose(int(ok.size())*subs); sub=c%subs; return A[ok[c/subs]]; }
MC_SUITE(lengths){ int s; auto&a=alg(C,s,4); a.len(C,a.nm,a.h,rf,ref::hblock(a.h),s,4); }
MC_SUITE(states){ int s; auto&a=alg(C,s,3); size_t b=ref::hblock(a.h); const size_t kl[]={20,b+5,0}; a.states(C,a.nm,a.h,rf,b,keyof(kl[s]),msg(),s?2:3); }
MC_SUITE(bytes){ int s; auto&a=alg(C,s,4); size_t b=ref::hblock(a.h); static const int ex[]={-1,0,5,0}; a.bytes(C,a.nm,a.h,rf,s==3?3:b+ex[s],s==3?b+3:5,0,1); }
MC_SUITE(sizes){ int s; auto&a=alg(C,s,3); a.wide(C,a.nm,a.h,rf,s,3); }
MC_SUITE(history){ int s; auto&a=alg(C,s,10); a.hist(C,a.nm,a.h,s%5,s>=5); }
struct KAlg{const char*nm;int h;void(*f[2])(Ctx&,const char*,int,Ref,int,int);};
#define Y(n,h,need) {#n,h,{m_keys<P::mac::hmac<P::hash_##n>>,m_keys<P::mac::apie<P::mac::hmac<P::hash_##n>>>}},
static const KAlg KA[]={HASHES_AUTO(Y)};
#undef Y
MC_SUITE(keys){ int c=C.choose(7*8); auto&a=KA[c/8]; a.f[c%2](C,a.nm,a.h,rf,c%8,8); }
#undef X
#define X(n,h,need) {#n,h,need,{m_fills<P::mac::hmac<P::hash_##n>>,m_fills<P::mac::apie<P::mac::hmac<P::hash_##n>>>}},
struct FAlg{const char*nm;int h,need;void(*f[2])(Ctx&,const char*,int,Ref,size_t,size_t,int,int);}; static const FAlg FA[]={HASHES(X)};
MC_SUITE(fills){ int c=C.choose(int(sizeof FA/sizeof*FA)*4); auto&a=FA[c/4]; if(!have(a.need)){C.eval();return;} a.f[c&1](C,a.nm,a.h,rf,20,20,c%4,4); if(mc::thorough()||c%4==0)a.f[c&1](C,a.nm,a.h,rf,ref::hblock(a.h)+3,3,c%4,4); }
#include "many.h"
#define HM(Y) Y("hmac_sha_1_160",SMac<P::mac_hmac_sha_1_160 COMMA false>,ANY) Y("hmac_sha_2_224",SMac<P::mac_hmac_sha_2_224 COMMA false>,ANY) Y("hmac_sha_2_256",SMac<P::mac_hmac_sha_2_256 COMMA true>,ANY) Y("hmac_sha_2_384",SMac<P::mac_hmac_sha_2_384 COMMA true>,ANY) Y("hmac_sha_2_512",SMac<P::mac_hmac_sha_2_512 COMMA false>,ANY) Y("hmac_sha_2_512_224",SMac<P::mac_hmac_sha_2_512_224 COMMA true>,ANY) Y("hmac_sha_2_512_256",SMac<P::mac_hmac_sha_2_512_256 COMMA false>,ANY)
MANY_SUITE(HM)
int main(int c,char**v){return mc::main(c,v);}
