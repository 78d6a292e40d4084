// P27: digest size options, every size of every algorithm, and what is built from cut digests
#include "all.h"
#include <functional>
#include <utility>
namespace O=milo::option; namespace K=milo::container;
using mc::Ctx; using Fn=std::function<B(const B&)>;
static const B&mat(int w){static B m[4]={ref::pattern(9000,31),ref::pattern(9000,32),ref::pattern(9000,33),ref::pattern(9000,34)};return m[w];}
static B head(int w,size_t n){return B(mat(w).begin(),mat(w).begin()+n);}
static B lead(B b,size_t n){b.resize(n);return b;}
// reference: the standards over a hash whose result is cut to n bytes, and over an hmac cut to k
static B rhash(int h,size_t n,const B&m){return lead(ref::hash(h,m),n);}
static B rhmac(int h,size_t n,size_t k,B key,const B&m){ size_t b=ref::hblock(h); if(key.size()>b)key=rhash(h,n,key); key.resize(b); B i=key,o=key; for(auto&x:i)x^=0x36; for(auto&x:o)x^=0x5c; return lead(rhash(h,n,ref::cat(o,rhash(h,n,ref::cat(i,m)))),k); }
static B rhkdf(int h,size_t n,size_t k,const B&ikm,const B&salt,const B&info,size_t len){ B prk=rhmac(h,n,k,salt,ikm),t,o; for(int i=1;o.size()<len;i++){ B x=ref::cat(t,info);x.push_back(uint8_t(i));t=rhmac(h,n,k,prk,x);o=ref::cat(o,t);} return lead(o,len); }
static B rpbkdf(int h,size_t n,size_t k,const B&pw,const B&salt,uint32_t it,size_t len){ B o; for(uint32_t i=1;o.size()<len;i++){ B x=salt;for(int j=3;j>=0;j--)x.push_back(uint8_t(i>>(8*j))); B u=rhmac(h,n,k,pw,x),t=u; for(uint32_t c=1;c<it;c++){u=rhmac(h,n,k,pw,u);for(size_t j=0;j<t.size();j++)t[j]^=u[j];} o=ref::cat(o,t);} return lead(o,len); }
#define FAM(nm,id) struct F_##nm{ static constexpr int h=id; static constexpr const char*name=#nm; template<class...A> using t=P::hash::nm<A...>; };
FAM(sha_1_160,ref::SHA1) FAM(sha_2_224,ref::SHA224) FAM(sha_2_256,ref::SHA256) FAM(sha_2_384,ref::SHA384) FAM(sha_2_512,ref::SHA512) FAM(sha_2_512_224,ref::SHA512_224) FAM(sha_2_512_256,ref::SHA512_256)
struct Sub{ int h; size_t n,k; void(*f)(Ctx&); };
// what an object with a digest of n bytes returns, for every size asked for
template<class Ob> static void asked(Ctx&C,const char*nm,const Ob&o,size_t n,const B&e,size_t msz){
  for(size_t a=0;a<=n+3;a++){ if(a>3&&a+2<n&&a!=n/2)continue; uint8_t d[96];memset(d,0xa5,96); size_t r=o.digest(d,a),w=a<n?a:n; if(r!=w||memcmp(d,e.data(),w)||d[w]!=0xa5||d[w+1]!=0xa5)C.fail("%s with a digest of %zu bytes: %zu bytes asked of %zu bytes of message: returned %zu, %s, expected %zu, %s",nm,n,a,msz,r,ref::tohex(d,w+1).c_str(),w,ref::tohex(e).c_str()); C.eval(); }
  uint8_t d[96];memset(d,0xa5,96); size_t r=o.digest(d); if(r!=n||memcmp(d,e.data(),n)||d[n]!=0xa5)C.fail("%s with a digest of %zu bytes: default digest of %zu bytes of message returned %zu, %s, expected %s",nm,n,msz,r,ref::tohex(d,n+1).c_str(),ref::tohex(e).c_str()); C.out(d,n); C.eval(); }
template<class F,size_t N> static void cut_hash(Ctx&C){
  using T=typename F::template t<O::digest_size<N>>; static_assert(T::digest_size==N); static_assert(P::hash::apie<T>::digest_size==N); size_t b=ref::hblock(F::h); 
  for(size_t m=0;m<=2*b+1;m++){ if(!mc::thorough()&&m>2&&m%b>2&&m%b+18<b&&m%9)continue; C.at(N,m); T o;o.initialize();o.update(mat(0).data(),m);o.finalize(); B e=rhash(F::h,N,head(0,m)); asked(C,F::name,o,N,e,m); T p(o); asked(C,F::name,p,N,e,m); }
  if constexpr(N<=20||N%8==0){ B m=head(1,b+7),e=rhash(F::h,N,m); K::bytes_dynamic v(m.begin(),m.end()); auto s=P::hash::digest<T>(v); if(s.size()!=N||memcmp(s.data(),e.data(),N))C.fail("%s with a digest of %zu bytes: one-line digest has %zu bytes or differs",F::name,N,s.size());
    auto y=P::hash::digest<T,K::bytes_dynamic>(v,N+5); if(y.size()!=N||memcmp(y.data(),e.data(),N))C.fail("%s with a digest of %zu bytes: one-line dynamic digest has %zu bytes or differs",F::name,N,y.size()); C.eval(2); }
  C.sample("%s cut to %zu bytes",F::name,N); }
template<class T> static void macruns(Ctx&C,const char*nm,int h,size_t n,size_t k){ size_t b=ref::hblock(h);
  for(size_t ks:{size_t(0),size_t(1),n-1,n,n+1,b-1,b,b+1,3*b+5})for(size_t ms:{size_t(0),size_t(1),b-n,b-n-1,b-8,b,2*b+3}){ C.at(n,k,ks,ms); B e=rhmac(h,n,k,head(2,ks),head(3,ms)); T o;
    for(int again=0;again<2;again++){ o.initialize(mat(2).data(),ks);o.update(mat(3).data(),ms/2);o.update(mat(3).data()+ms/2,ms-ms/2);o.finalize(); asked(C,nm,o,k,e,ms); } } }
template<class F,size_t N> static void cut_hmac(Ctx&C){ using T=P::mac::hmac<typename F::template t<>,O::digest_size<N>>; static_assert(T::digest_size==N); static_assert(P::mac::apie<T>::digest_size==N); macruns<T>(C,"hmac",F::h,ref::hsize(F::h),N); C.sample("hmac %s cut to %zu bytes",F::name,N);
  if constexpr(N<=20||N%8==0){ K::bytes_dynamic k(mat(0).begin(),mat(0).begin()+33),m(mat(1).begin(),mat(1).begin()+70); B e=rhmac(F::h,ref::hsize(F::h),N,head(0,33),head(1,70)); auto s=P::mac::digest<T>(k,m); if(s.size()!=N||memcmp(s.data(),e.data(),N))C.fail("hmac %s with a tag of %zu bytes: one-line tag has %zu bytes or differs",F::name,N,s.size()); C.eval(); } }
// hmac over a cut hash; with a cut of its own as well
template<class F,size_t N> static void over_cut(Ctx&C){ using H=typename F::template t<O::digest_size<N>>; using T=P::mac::hmac<H>; static_assert(T::digest_size==N); macruns<T>(C,"hmac over cut hash",F::h,N,N); C.sample("hmac over %s cut to %zu bytes",F::name,N);
  constexpr size_t M=(N+1)/2; using U=P::mac::hmac<H,O::digest_size<M>>; static_assert(U::digest_size==M); macruns<U>(C,"cut hmac over cut hash",F::h,N,M); }
template<class F,size_t N> static void derive(Ctx&C){ constexpr size_t full=F::template t<>::digest_size,M=(N*3+3)/4; B ikm=head(0,40),salt=head(1,19),info=head(2,11); size_t len=mc::thorough()?N*9+5:N*4+3; if(len>255*M)len=255*M;
  auto run=[&](auto tag,size_t n,size_t k,const char*nm){ using T=typename decltype(tag)::type; B a=rhkdf(F::h,n,k,ikm,salt,info,len),b=rpbkdf(F::h,n,k,ikm,salt,3,len);
    for(size_t s=1;s<=2*k+1;s++){ if(!mc::thorough()&&s>3&&s+2<k&&s%5)continue; C.at(n,k,s); B x(len),y(len); P::kdf::hkdf<T> o; o.initialize(ikm.data(),ikm.size(),salt.data(),salt.size(),info.data(),info.size()); P::kdf::pbkdf_2<T> p; p.initialize(ikm.data(),ikm.size(),salt.data(),salt.size(),3u);
      for(size_t i=0;i<len;i+=s){ size_t w=std::min(s,len-i); if(o.derive(x.data()+i,w)!=w||p.derive(y.data()+i,w)!=w)C.fail("%s: derive of %zu bytes",nm,w);} if(x!=a)C.fail("hkdf over %s (hash %s of %zu bytes, hmac of %zu), drawn %zu at a time: %s.., expected %s..",nm,F::name,n,k,s,ref::tohex(lead(x,16)).c_str(),ref::tohex(lead(a,16)).c_str()); if(y!=b)C.fail("pbkdf2 over %s (hash %s of %zu bytes, hmac of %zu), drawn %zu at a time differs",nm,F::name,n,k,s); C.eval(2); C.out(x.data(),len);} };
  run(std::type_identity<P::mac::hmac<typename F::template t<>,O::digest_size<N>>>{},full,N,"cut hmac"); run(std::type_identity<P::mac::hmac<typename F::template t<O::digest_size<N>>>>{},N,N,"hmac over a cut hash"); run(std::type_identity<P::mac::hmac<typename F::template t<O::digest_size<N>>,O::digest_size<M>>>{},N,M,"cut hmac over a cut hash"); C.sample("key derivation over %s, %zu bytes",F::name,N); }
template<size_t N> static void cut_poly(Ctx&C){ using T=P::mac::poly_1305<O::digest_size<N>>; static_assert(T::digest_size==N); static_assert(P::mac::apie<T>::digest_size==N); for(size_t ks:{32})for(size_t off:{0,5,100})for(size_t m=0;m<=70;m++){ C.at(N,m); B key(mat(0).begin()+off,mat(0).begin()+off+ks); T o; o.initialize(key.data(),ks);o.update(mat(1).data(),m);o.finalize(); asked(C,"poly_1305",o,N,lead(ref::poly1305(key,head(1,m)),N),m);} C.sample("poly_1305 cut to %zu bytes",N);
  K::bytes_dynamic k(mat(0).begin(),mat(0).begin()+32),m(mat(1).begin(),mat(1).begin()+70); B e=lead(ref::poly1305(head(0,32),head(1,70)),N); auto s=P::mac::digest<T>(k,m); if(s.size()!=N||memcmp(s.data(),e.data(),N))C.fail("poly_1305 with a tag of %zu bytes: one-line tag has %zu bytes or differs",N,s.size()); C.eval(); }
// compile time: every size of every hash, judged here
template<class T> constexpr auto at_compile_time(){ std::array<uint8_t,T::digest_size+2> d{}; uint8_t m[150]{}; for(int i=0;i<150;i++)m[i]=uint8_t(i*7+1); T o;o.initialize();o.update(m,150);o.finalize();auto r=o.digest(d.data()); d[T::digest_size]=uint8_t(r); d[T::digest_size+1]=1; return d; }
template<class F,size_t N> static void ct_hash(Ctx&C){ constexpr auto d=at_compile_time<typename F::template t<O::digest_size<N>>>(); B m(150); for(int i=0;i<150;i++)m[i]=uint8_t(i*7+1); B e=rhash(F::h,N,m); if(d[N]!=N||memcmp(d.data(),e.data(),N))C.fail("%s with a digest of %zu bytes at compile time: %s, expected %s",F::name,N,ref::tohex(d.data(),N).c_str(),ref::tohex(e).c_str()); C.eval(); C.sample("%s",F::name); }
#ifndef STEP
#define STEP 1
#endif
template<class F,size_t...I> static void go(Ctx&C,std::index_sequence<I...>){ using G=void(*)(Ctx&); constexpr size_t full=sizeof...(I);
  static constexpr auto one=[]<size_t N>(Ctx&C){ if constexpr(STEP==1||N<=4||N==full||N%STEP==0) PARTF<F,N>(C); }; (one.template operator()<I+1>(C),...); }
#define S2_(nm) F_##nm
#define S_(nm) S2_(nm)
#define SU2_(x) MC_SUITE(x##_)
#define SU_(x) SU2_(x)
SU_(PARTF){ using F=S_(HASH); C.choose(1); go<F>(C,std::make_index_sequence<F::template t<>::digest_size>{}); }
#ifdef POLY
template<size_t...I> static void poly(Ctx&C,std::index_sequence<I...>){ (cut_poly<I+1>(C),...); }
MC_SUITE(poly_1305){ C.choose(1); poly(C,std::make_index_sequence<16>{}); }
#endif
int main(int c,char**v){return mc::main(c,v);}
