// P19: every allocation fails once
#include "forms.h"
#include "subject.h"
#include <new>
using mc::Ctx;
// the allocator under all of it
static long live=0,count=0,failat=-1; static bool watch=false; static bool failed=false;
void*operator new(size_t n){ if(watch){ if(count++==failat){failed=true;throw std::bad_alloc();} live++; } void*p=malloc(n+16); if(!p)abort(); *(long*)p=watch?0x57a7c4:0; return (char*)p+16; }
void operator delete(void*p)noexcept{ if(!p)return; char*q=(char*)p-16; if(*(long*)q==0x57a7c4)live--; free(q); }
void operator delete(void*p,size_t)noexcept{ operator delete(p); }
void*operator new[](size_t n){return operator new(n);} void operator delete[](void*p)noexcept{operator delete(p);} void operator delete[](void*p,size_t)noexcept{operator delete(p);}
struct Own{int code;}; // what a container of the user throws
static long acount=0,afail=-1;
template<class T> struct Al{ using value_type=T; Al()=default; template<class U> Al(const Al<U>&){} T*allocate(size_t n){ if(watch&&acount++==afail){failed=true;throw Own{77};} return (T*)::operator new(n*sizeof(T)); } void deallocate(T*p,size_t){::operator delete(p);} bool operator==(const Al&)const{return true;} };
using VA=std::vector<uint8_t,Al<uint8_t>>; using SA=std::basic_string<char,std::char_traits<char>,Al<char>>;
static const size_t LENS[]={0,1,40,300};
template<class V> static void run(Ctx&C,const char*cn,bool own,int part,int parts){ size_t len=LENS[C.choose(4)]; size_t prior=LENS[C.choose(3)]; int idx=0; auto one=[&](const char*nm,const B&e,auto call){ if(idx++%parts!=part)return; C.at(idx); auto good=[&](const char*when){ V o(prior,typename V::value_type(7)); size_t r=call(o); if(r!=e.size()||o.size()!=e.size()||(r&&memcmp(o.data(),e.data(),r)))C.fail("%s into %s: wrong result %s (%zu, %zu)",nm,cn,when,r,o.size()); C.eval(); };
    good("before"); long n; { V o(prior,typename V::value_type(7)); watch=true;count=acount=0;failat=afail=-1; call(o); watch=false; n=own?acount:count; }
    for(long k=0;k<=n;k++){ C.at(idx,k); long before=live; int what=0; { V o(prior,typename V::value_type(7)); watch=true;count=acount=0;failed=false;failat=own?-1:k;afail=own?k:-1; try{ call(o); }catch(const std::bad_alloc&){what=1;}catch(const Own&x){what=x.code==77?2:3;}catch(...){what=3;} watch=false;failat=afail=-1;
        if(failed!=(k<n))C.fail("%s into %s: %ld allocations the first time, another number now",nm,cn,n); if(what!=(k<n?(own?2:1):0))C.fail("%s into %s: allocation %ld of %ld fails: %s",nm,cn,k,n,what==0?"the call succeeds":what==3?"another exception":"a different exception");
        if(k<n){ for(size_t i=0;i<o.size();i++){volatile auto c=o[i];(void)c;} size_t r=call(o); if(r!=e.size()||o.size()!=r||(r&&memcmp(o.data(),e.data(),r)))C.fail("%s into %s: the same container after allocation %ld failed: wrong result",nm,cn,k); } }
      if(live!=before)C.fail("%s into %s: allocation %ld of %ld fails: %ld blocks leaked",nm,cn,k,n,live-before); if(k<n)good("after a failed allocation"); C.eval(); C.out(mc::mix(mc::h64(nm,strlen(nm)),mc::mix(k,len))); } C.state(mc::mix(mc::h64(nm,strlen(nm)),mc::mix(n,prior))); if(n>1)C.sample("%s into %s: %ld allocations",nm,cn,n); };
  all_forms<V>(len,one); if(idx<60)C.fail("only %d forms",idx); }
MC_SUITE(forms){ int c=C.choose(40),p=c%8; switch(c/8){ case 0:run<std::vector<uint8_t>>(C,"vector<uint8_t>",false,p,8);break; case 1:run<std::vector<signed char>>(C,"vector<signed char>",false,p,8);break; case 2:run<std::string>(C,"string",false,p,8);break; case 3:run<VA>(C,"vector with an allocator of the user",true,p,8);break; default:run<SA>(C,"string with an allocator of the user",true,p,8); } }
// text literals
MC_SUITE(literals){ C.choose(1); using namespace milo::literal; for(size_t n=0;n<400;n+=2){ std::string t(n,'a'); for(int f=0;f<4;f++){ if(f==3&&n%4)continue; auto go=[&]{ switch(f){case 0:return milo::literal::operator""_b(t.data(),n).size();case 1:return milo::literal::operator""_c(t.data(),n).size();case 2:return milo::literal::operator""_base_16(t.data(),n).size();default:return milo::literal::operator""_base_64(t.data(),n).size();} }; watch=true;count=0;failat=-1;size_t r=go();watch=false;long k0=count;
   for(long k=0;k<k0;k++){ long before=live;bool th=false;watch=true;count=0;failat=k;try{go();}catch(const std::bad_alloc&){th=true;}watch=false;failat=-1; if(!th)C.fail("literal form %d: allocation %ld fails, no bad_alloc",f,k); if(live!=before)C.fail("literal form %d leaks",f); if(go()!=r)C.fail("literal form %d afterwards",f); C.eval(); } } } }
// failing input and failing memory at once: bad data in every resizable form
template<class X> static void badcodec(Ctx&C,bool hex){ using A=P::codec::apie<X>; using V=std::vector<uint8_t>; for(size_t n=4;n<=200;n+=4)for(size_t p:{size_t(0),n/2,n-1}){ std::string s(n,'a'); s[p]='!'; error er; for(int f=0;f<6;f++){ auto go=[&](V&o){ switch(f){case 0:A::decode(s,o,er);break;case 1:A::decode(s,o);break;case 2:o=A::template decode<V>(s);break;case 3:P::codec::decode<X>(s,o,er);break;case 4:P::codec::decode<X>(s,o);break;default:o=P::codec::decode<X,V>(s);} }; long k=0; for(;;k++){ long before=live; int what=0; { V o(3); watch=true;count=0;failat=k;failed=false; try{go(o);}catch(const std::bad_alloc&){what=1;}catch(const error&x){what=int(bool(x))*2;}catch(...){what=3;} watch=false;failat=-1; if(failed?what!=1:what!=(f%3==0?0:2)||(f%3==0&&!er))C.fail("decode form %d of %zu characters, allocation %ld fails: outcome %d",f,n,k,what); } if(live!=before)C.fail("decode form %d: bad character at %zu of %zu, failing allocation %ld: %ld blocks leaked",f,p,n,k,live-before); C.eval(); if(!failed)break; } } } (void)hex; }
MC_SUITE(bad_data){ if(C.choose(2))badcodec<P::codec::base_16<>>(C,true); else badcodec<P::codec::base_64<>>(C,false);
  using X=P::aead_chacha_20_poly_1305; using V=std::vector<uint8_t>; B k=ref::pattern(32,1),nn=ref::pattern(12,2),ad=ref::pattern(9,3),c=ref::pattern(100,4),t(16,1); error er; for(int f=0;f<4;f++)for(long q=0;;q++){ long before=live;int what=0; {V o(3); watch=true;count=0;failat=q;failed=false; try{ switch(f){case 0:P::aead::decrypt<X>(k,nn,ad,c,t,o,er);break;case 1:P::aead::decrypt<X>(k,nn,ad,c,t,o);break;case 2:o=P::aead::decrypt<X,V>(k,nn,ad,c,t,er);break;default:o=P::aead::decrypt<X,V>(k,nn,ad,c,t);} }catch(const std::bad_alloc&){what=1;}catch(const error&x){what=2;}catch(...){what=3;} watch=false;failat=-1; if(failed?what!=1:what!=(f%2?2:0)||(f%2==0&&!er))C.fail("decrypt form %d, allocation %ld fails: outcome %d",f,q,what);} if(live!=before)C.fail("decrypt form %d leaks",f); C.eval(); if(!failed)break; } }
// pointer and fixed-size forms never allocate: all legal sequences of operations on every object, and every fixed form
struct FixEnv{ const uint8_t*in(int,size_t,int seed){ static uint8_t b[4096]; return b+seed%7; } uint8_t*out(size_t){static uint8_t b[8192];return b;} void wrote(uint8_t*,size_t,size_t,size_t){} };
template<class S> static void quiet(Ctx&C,const char*nm){ size_t b=S::block(); const size_t sz[]={b+3,2*b,1,0}; struct St{int op;size_t n;}; std::vector<St> q; int ph=RAW; FixEnv e; static typename S::T sc; int depth=mc::thorough()?5:4; for(int i=0;i<depth;i++){ std::vector<St> o; for(int p=0;p<S::OPS;p++)if(S::legal(ph,p)){ if(S::sized(p)){for(size_t n:sz)o.push_back({p,n});} else o.push_back({p,0}); } if(o.empty())break; q.push_back(o[C.choose(int(o.size()))]); C.tr(); ph=RAW; for(auto&x:q)ph=S::run(sc,x.op,x.n,e,ph); }
  watch=true;count=0;failat=0;failed=false; bool threw=false; try{ typename S::T t; int p=RAW; for(auto&x:q)p=S::run(t,x.op,x.n,e,p); typename S::T u(t); u=t; t=std::move(u); }catch(...){threw=true;} watch=false;failat=-1; if(threw||count){ std::string w;for(auto&x:q)w+=std::string(S::op(x.op))+" "; C.fail("%s: %s allocates memory",nm,w.c_str()); } C.eval(); C.out(mc::mix(mc::h64(nm,strlen(nm)),q.size())); }
struct Sub{const char*nm;int need;void(*f)(Ctx&,const char*);};
#define Y(n,s,nd) {n,nd,quiet<s>},
static const Sub SB[]={SUBJECTS(Y)};
MC_SUITE(quiet){ static std::vector<int> ok=[]{std::vector<int>r;for(size_t i=0;i<sizeof SB/sizeof*SB;i++)if(have(SB[i].need))r.push_back(int(i));return r;}(); auto&s=SB[ok[C.choose(int(ok.size()))]]; s.f(C,s.nm); }
MC_SUITE(fixed){ int n=C.choose(5); static const size_t L[]={0,1,5,64,200}; size_t len=L[n]; using S_=std::span<uint8_t>; static uint8_t m[300],o[900],k[32],iv[16],t[64]; std::span<const uint8_t> M(m,len),K(k,32),IV(iv,16),N(iv,12); S_ O(o,len),T(t,16),O2(o,2*len+8); std::array<uint8_t,16> a16; std::array<char,40> a40; static uint8_t hx[400]; memset(hx,'a',400); std::span<const uint8_t> HX(hx,len/4*4); error er; int i=0;
#define Q(...) { C.at(++i); watch=true;count=0;failat=0;bool th=false;try{__VA_ARGS__;}catch(const error&){}catch(...){th=true;}watch=false;failat=-1;if(th||count)C.fail("%s allocates memory",#__VA_ARGS__);C.eval();C.out(i); }
  using H=P::hash_sha_2_256; using HM=P::mac_hmac_sha_2_512; using PO=P::mac_poly_1305; using HK=P::kdf_hkdf_hmac_sha_2_256; using PB=P::kdf_pbkdf_2_hmac_sha_2_256; using CC=P::cipher_chacha_20; using AE=P::aead_chacha_20_poly_1305; using X=P::codec::base_16<>; using Y6=P::codec::base_64<>;
  Q(P::hash::digest<H>(M,T)) Q(P::hash::digest<H>(M,a16)) Q(P::hash::digest<H>(M,T,9)) Q((a16=P::hash::digest<H,std::array<uint8_t,16>>(M))) Q(auto x=P::hash::digest<H>(M)) Q(P::hash::digest<H>(m,len,o,32)) Q(P::hash::apie<H> a;a.initialize();a.update(M);a.digest(a16)) Q(P::hash::apie<H> a;a.initialize();a.update(M);auto d=a.digest())
  Q(P::mac::digest<HM>(K,M,T)) Q(P::mac::digest<PO>(K,M,a16)) Q(auto x=P::mac::digest<HM>(K,M)) Q(P::mac::apie<HM> a(K);a.update(M);a.digest(a40)) Q(P::mac::digest<PO>(k,32,m,len,o,16)) Q((a40=P::mac::digest<HM,std::array<char,40>>(K,M)))
  Q(P::kdf::derive<HK>(K,M,M,T,16)) Q(P::kdf::derive<PB>(K,M,3,T,16)) Q((a40=P::kdf::derive<HK,std::array<char,40>>(K,M,M))) Q((a40=P::kdf::derive<PB,std::array<char,40>>(K,M,3))) Q(P::kdf::derive<HK>(k,32,m,len,m,len,o,300)) Q(P::kdf::apie<HK> a(K,M,M);a.derive(a40,40)) Q(P::kdf::apie<PB> a(K,M,2);a.derive(o,300))
  Q(P::cipher::encrypt<CC>(K,IV,M,O)) Q(P::cipher::decrypt<CC>(K,IV,M,O)) Q(P::cipher::apie<CC> a(K,IV);a.encrypt(M,O);a.decrypt(M,O)) Q(P::cipher::encrypt<CC>(k,32,iv,16,m,len,o))
  Q(P::aead::encrypt<AE>(K,N,M,M,O,T)) Q(P::aead::encrypt<AE>(K,N,M,M,O,a16)) Q(P::aead::decrypt<AE>(K,N,M,M,T,O,er)) Q(P::aead::decrypt<AE>(K,N,M,M,T,O)) Q(P::aead::decrypt<AE>(k,32,iv,12,m,len,m,len,t,16,o)) Q(P::aead::apie<AE> a(K,N);a.aad(M);a.encrypt(M,O);a.digest(a16);a.verify(a16,er);a.verify(T)) Q(auto z=P::aead::encrypt<AE>(k,32,iv,12,m,len,m,len,o,t))
  Q(P::codec::encode<X>(M,O2)) Q(P::codec::encode<Y6>(M,O2)) Q(P::codec::decode<X>(HX,O2,er)) Q(P::codec::decode<Y6>(HX,O2,er)) Q(P::codec::decode<X>(HX,O2)) Q(P::codec::decode<Y6>(M,O2,er)) Q(P::codec::decode<X>(hx,len,o)) }
int main(int c,char**v){return mc::main(c,v);}
