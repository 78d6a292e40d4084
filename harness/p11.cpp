// P11: every form of an operation, every kind of container
#include "all.h"
#include <milo/literal.h>
#include <string>
#include <string_view>
#include <span>
#include <array>
#include <vector>
#include <map>
using mc::Ctx; using milo::error; namespace K=milo::container;
// the library functions may not be given null pointers, not even with size 0
static void cpy(void*d,const void*s,size_t n){if(n)memcpy(d,s,n);} static int cmp(const void*a,const void*b,size_t n){return n?memcmp(a,b,n):0;}
static uint8_t FILL=0x6d;
static uint8_t backing[2][4096];
// a container of type T holding n bytes (fixed ones: their own size)
template<class T> struct Mk{ static constexpr bool dyn=true; static T get(size_t n,int){return T(n,typename T::value_type(FILL));} static constexpr size_t cap=size_t(-1); };
template<class V,size_t N> struct Mk<std::array<V,N>>{ static constexpr bool dyn=false; static std::array<V,N> get(size_t,int){std::array<V,N> a;a.fill(V(FILL));return a;} static constexpr size_t cap=N; };
template<class V,size_t N> struct Mk<std::span<V,N>>{ static constexpr bool dyn=false; static std::span<V,N> get(size_t n,int w){memset(backing[w],FILL,4096);if constexpr(N==std::dynamic_extent)return std::span<V>((V*)backing[w],n);else return std::span<V,N>((V*)backing[w],N);} static constexpr size_t cap=N==std::dynamic_extent?0:N; };
template<class T> static T in(const B&b,int w){ if constexpr(requires{T(b.begin(),b.end());}&&!requires(T t){t.fill(0);}&&Mk<T>::dyn)return T(b.begin(),b.end()); else if constexpr(requires(T t){t.fill(typename T::value_type());}){T t;for(size_t i=0;i<t.size();i++)t[i]=typename T::value_type(i<b.size()?b[i]:0);return t;} else { static uint8_t keep[4][4096]; cpy(keep[w],b.data(),b.size()); using P_=std::remove_reference_t<decltype(*std::declval<T>().data())>; return T((P_*)keep[w],b.size()); } }
template<> std::string_view in<std::string_view>(const B&b,int w){ static std::string s[4]; s[w].assign(b.begin(),b.end()); return s[w]; }
// result in container o (returned size r): e bytes, cut to n and to the capacity of fixed containers
template<class T> static void res(Ctx&C,const char*w,const T&o,size_t r,const B&e,size_t n,size_t prior){ size_t k=std::min(n,e.size()); if(!Mk<T>::dyn)k=std::min(k,prior); if(r!=k)C.fail("%s: returned %zu, expected %zu (asked %zu, prior size %zu)",w,r,k,n,prior); if(Mk<T>::dyn?o.size()!=k:o.size()!=prior)C.fail("%s: container has %zu elements, expected %zu",w,o.size(),Mk<T>::dyn?k:prior); const uint8_t*p=(const uint8_t*)o.data(); for(size_t i=0;i<k;i++)if(p[i]!=e[i])C.fail("%s: byte %zu is %02x, expected %02x (asked %zu, prior size %zu)",w,i,p[i],e[i],n,prior); if(!Mk<T>::dyn)for(size_t i=k;i<prior;i++)if(p[i]!=FILL)C.fail("%s: byte %zu after the result was changed",w,i); C.eval(); C.out(mc::mix(mc::h64(w,strlen(w)),mc::mix(n,prior))); }
template<class T> static void val(Ctx&C,const char*w,const T&o,const B&e,size_t n){ size_t k=std::min(n,e.size()); if(!Mk<T>::dyn&&o.size()<k)k=o.size(); if(Mk<T>::dyn?o.size()!=k:o.size()<k)C.fail("%s: %zu elements, expected %zu",w,size_t(o.size()),k); if(cmp(o.data(),e.data(),k))C.fail("%s: wrong value",w); C.eval(); C.out(mc::mix(mc::h64(w,strlen(w)),n)); }
// all kinds of output containers with their prior sizes
#define OUTS_DYN(X) X(std::vector<uint8_t>) X(std::vector<char>) X(std::vector<signed char>) X(std::string) X(K::bytes_dynamic) X(K::chars_dynamic)
template<class F> static void outs(F f,size_t full){ const size_t pr[]={0,1,full-1,full,full+1,full*2+3,1000}; 
  for(size_t p:pr){ 
#define D_(T) f.template operator()<T>(p);
   OUTS_DYN(D_)
   f.template operator()<std::span<uint8_t>>(p); f.template operator()<std::span<char>>(p); f.template operator()<std::span<signed char>>(p); f.template operator()<K::bytes_view_dynamic>(p); }
  f.template operator()<std::array<uint8_t,1>>(1); f.template operator()<std::array<char,12>>(12); f.template operator()<std::array<signed char,20>>(20); f.template operator()<std::array<uint8_t,31>>(31); f.template operator()<K::bytes_static<32>>(32); f.template operator()<K::chars_static<33>>(33); f.template operator()<std::array<uint8_t,64>>(64); f.template operator()<std::array<char,300>>(300); f.template operator()<std::span<uint8_t,16>>(16); f.template operator()<std::span<char,100>>(100); f.template operator()<K::bytes_view_static<28>>(28); }
#define INS(X) X(std::vector<uint8_t>) X(std::vector<char>) X(std::vector<signed char>) X(std::string) X(std::string_view) X(std::span<const uint8_t>) X(std::span<const char>) X(std::span<uint8_t>) X(std::span<signed char>) X(K::bytes_const_view_dynamic) X(K::chars_const_view_dynamic)
template<class F> static void ins(F f){
#define I_(T) f.template operator()<T>();
  INS(I_) }
static const size_t LEN[]={0,1,5,64,200};
template<size_t...I,class F> static void seq(std::index_sequence<I...>,F f){(f.template operator()<I+1>(),...);}
// ---- hash
template<class H> static void hash(Ctx&C,int id,int part){ using A=P::hash::apie<H>; B m=ref::pattern(LEN[part],71),e=ref::hash(id,m); const size_t d=e.size();
  auto detail=[&]{H h;h.initialize();h.update(m.data(),m.size());h.finalize();return h;}; auto wrap=[&]{A a;a.initialize();a.update(m.data(),m.size());return a;};
  for(size_t n=0;n<=d+20;n++){ C.at(n); for(int v=0;v<4;v++){ uint8_t b[160];memset(b,FILL,160); size_t r; if(v==0){auto h=detail();r=h.digest((char*)b,n);} else if(v==1){auto h=wrap();r=h.digest((signed char*)b,n);} else if(v==2)r=P::hash::digest<H>(m.data(),m.size(),b,n); else r=P::hash::digest<H>((const char*)m.data(),m.size(),(char*)b,n); size_t k=std::min(n,d); if(r!=k||cmp(b,e.data(),k))C.fail("digest into a pointer, size %zu: form %d returned %zu",n,v,r); for(size_t i=k;i<160;i++)if(b[i]!=FILL)C.fail("digest of size %zu: form %d wrote byte %zu",n,v,i); C.eval(); }
    {auto h=wrap();val(C,"hash wrapper digest(n)",h.digest(n),e,n);} {auto h=wrap();val(C,"hash wrapper digest<string>(n)",h.template digest<std::string>(n),e,n);} val(C,"hash::digest<H>(c,n)",P::hash::digest<H>(m,n),e,n); val(C,"hash::digest<H,string>(c,n)",P::hash::digest<H,std::string>(m,n),e,n); val(C,"hash::digest<H,vector<schar>>(c,n)",P::hash::digest<H,std::vector<signed char>>(m,n),e,n); }
  outs([&]<class T>(size_t prior){ for(size_t n:{size_t(0),size_t(1),d-1,d,d+1,size_t(500)}){ C.at(prior,n); {auto o=Mk<T>::get(prior,0);auto h=wrap();size_t r=h.digest(o,n);res(C,"hash wrapper digest(container,n)",o,r,e,n,prior);} {auto o=Mk<T>::get(prior,0);size_t r=P::hash::digest<H>(m,o,n);res(C,"hash::digest(c,container,n)",o,r,e,n,prior);} } {auto o=Mk<T>::get(prior,0);auto h=wrap();size_t r=h.digest(o);res(C,"hash wrapper digest(container)",o,r,e,d,prior);} {auto o=Mk<T>::get(prior,0);size_t r=P::hash::digest<H>(m,o);res(C,"hash::digest(c,container)",o,r,e,d,prior);} },d);
  seq(std::make_index_sequence<H::digest_size>(),[&]<size_t N>(){ auto h=wrap(); auto x=h.template digest<std::array<uint8_t,N>>(); val(C,"hash wrapper digest<array>()",x,e,N); val(C,"hash::digest<H,array>(c)",P::hash::digest<H,std::array<char,N>>(m),e,N); });
  val(C,"hash::digest<H>(c)",P::hash::digest<H>(m),e,d); {auto h=wrap();auto x=h.digest();val(C,"hash wrapper digest()",x,e,d);if(x.size()!=d)C.fail("default digest size");}
  ins([&]<class T>(){ auto i=in<T>(m,0); A a;a.initialize();a.update(i);val(C,"hash update(container)",a.digest(),e,d); A b;b.initialize();b.update(i.data(),i.size());val(C,"hash update(ptr)",b.digest(),e,d); val(C,"hash::digest<H>(input kind)",P::hash::digest<H>(i),e,d); H h;h.initialize();h.update(i.data(),i.size());h.finalize();uint8_t x[64];h.digest(x);if(cmp(x,e.data(),d))C.fail("detail update kind");C.eval(); });
  {std::array<char,5> a5=in<std::array<char,5>>(m,0);B m5(5,0);for(size_t i=0;i<5&&i<m.size();i++)m5[i]=m[i];val(C,"hash::digest<H>(array)",P::hash::digest<H>(a5),ref::hash(id,m5),d);} C.sample("digest size %zu, message %zu bytes",d,m.size()); }
// ---- mac
template<class M,class RF> static void mac(Ctx&C,RF rf,size_t ks,int part){ using A=P::mac::apie<M>; B m=ref::pattern(LEN[part],72),k=ref::pattern(ks,73),e=rf(k,m); const size_t d=e.size();
  auto wrap=[&]{A a(k.data(),k.size());a.update(m.data(),m.size());return a;};
  for(size_t n=0;n<=d+20;n++){ C.at(n); for(int v=0;v<4;v++){ uint8_t b[160];memset(b,FILL,160); size_t r; if(v==0){M h;h.initialize((const char*)k.data(),k.size());h.update((const signed char*)m.data(),m.size());h.finalize();r=h.digest((char*)b,n);} else if(v==1){auto h=wrap();r=h.digest((signed char*)b,n);} else if(v==2)r=P::mac::digest<M>(k.data(),k.size(),m.data(),m.size(),b,n); else r=P::mac::digest<M>((const char*)k.data(),k.size(),(const signed char*)m.data(),m.size(),(char*)b,n); size_t z=std::min(n,d); if(r!=z||cmp(b,e.data(),z))C.fail("mac digest into a pointer, size %zu: form %d returned %zu",n,v,r); for(size_t i=z;i<160;i++)if(b[i]!=FILL)C.fail("mac digest of size %zu: form %d wrote byte %zu",n,v,i); C.eval(); }
    {auto h=wrap();val(C,"mac wrapper digest(n)",h.digest(n),e,n);} {auto h=wrap();val(C,"mac wrapper digest<string>(n)",h.template digest<std::string>(n),e,n);} val(C,"mac::digest<M>(k,c,n)",P::mac::digest<M>(k,m,n),e,n); val(C,"mac::digest<M,string>(k,c,n)",P::mac::digest<M,std::string>(k,m,n),e,n); }
  outs([&]<class T>(size_t prior){ for(size_t n:{size_t(0),size_t(1),d-1,d,d+1,size_t(500)}){ C.at(prior,n); {auto o=Mk<T>::get(prior,0);auto h=wrap();size_t r=h.digest(o,n);res(C,"mac wrapper digest(container,n)",o,r,e,n,prior);} {auto o=Mk<T>::get(prior,0);size_t r=P::mac::digest<M>(k,m,o,n);res(C,"mac::digest(k,c,container,n)",o,r,e,n,prior);} } {auto o=Mk<T>::get(prior,0);auto h=wrap();size_t r=h.digest(o);res(C,"mac wrapper digest(container)",o,r,e,d,prior);} {auto o=Mk<T>::get(prior,0);size_t r=P::mac::digest<M>(k,m,o);res(C,"mac::digest(k,c,container)",o,r,e,d,prior);} },d);
  seq(std::make_index_sequence<M::digest_size>(),[&]<size_t N>(){ auto h=wrap(); auto x=h.template digest<std::array<uint8_t,N>>(); val(C,"mac wrapper digest<array>()",x,e,N); val(C,"mac::digest<M,array>(k,c)",P::mac::digest<M,std::array<char,N>>(k,m),e,N); });
  val(C,"mac::digest<M>(k,c)",P::mac::digest<M>(k,m),e,d);
  ins([&]<class T>(){ auto i=in<T>(m,0); auto kk=in<T>(k,1); A a(kk);a.update(i);val(C,"mac(container) update(container)",a.digest(),e,d); A b;b.initialize(kk);b.update(i.data(),i.size());val(C,"mac initialize(container)",b.digest(),e,d); A c;c.initialize(kk.data(),kk.size());c.update(i);val(C,"mac initialize(ptr)",c.digest(),e,d); val(C,"mac::digest<M>(kinds)",P::mac::digest<M>(kk,i),e,d); val(C,"mac::digest<M>(string key,kind)",P::mac::digest<M>(std::string(k.begin(),k.end()),i),e,d); }); C.sample("tag size %zu, key %zu, message %zu bytes",d,ks,m.size()); }
// ---- kdf
template<class D,bool H> static void kdf(Ctx&C,int id,int part){ using A=P::kdf::apie<D>; B a=ref::pattern(LEN[part],74),s=ref::pattern(LEN[(part+1)%5],75),f=ref::pattern(LEN[(part+2)%5],76); uint32_t it=part+1; B e=H?ref::hkdf(id,a,s,f,1200):ref::pbkdf2(id,a,s,it,1200);
  auto wrap=[&]{ if constexpr(H)return A(a.data(),a.size(),s.data(),s.size(),f.data(),f.size()); else return A(a.data(),a.size(),s.data(),s.size(),it); };
  for(size_t n=0;n<=150;n++){ C.at(n); for(int v=0;v<4;v++){ uint8_t b[300];memset(b,FILL,300); size_t r; if(v==0){D h; if constexpr(H)h.initialize((const char*)a.data(),a.size(),s.data(),s.size(),(const signed char*)f.data(),f.size());else h.initialize((const char*)a.data(),a.size(),(const signed char*)s.data(),s.size(),it); r=h.derive((char*)b,n);} else if(v==1){auto h=wrap();r=h.derive((signed char*)b,n);} else if(v==2){ if constexpr(H)r=P::kdf::derive<D>(a.data(),a.size(),s.data(),s.size(),f.data(),f.size(),b,n); else r=P::kdf::derive<D>(a.data(),a.size(),s.data(),s.size(),it,b,n);} else { auto h=wrap();r=h.derive(b,n/2);r+=h.derive(b+n/2,n-n/2);} if(r!=n||cmp(b,e.data(),n))C.fail("derive into a pointer, size %zu: form %d returned %zu",n,v,r); for(size_t i=n;i<300;i++)if(b[i]!=FILL)C.fail("derive of %zu: form %d wrote byte %zu",n,v,i); C.eval(); }
    {auto h=wrap();val(C,"kdf wrapper derive(n)",h.derive(n),e,n);} {auto h=wrap();val(C,"kdf wrapper derive<string>(n)",h.template derive<std::string>(n),e,n);} if constexpr(H){val(C,"kdf::derive<D>(...,n)",P::kdf::derive<D>(a,s,f,n),e,n);val(C,"kdf::derive<D,string>(...,n)",P::kdf::derive<D,std::string>(a,s,f,n),e,n);} else {val(C,"kdf::derive<D>(...,n)",P::kdf::derive<D>(a,s,it,n),e,n);val(C,"kdf::derive<D,string>(...,n)",P::kdf::derive<D,std::string>(a,s,it,n),e,n);} }
  outs([&]<class T>(size_t prior){ for(size_t n:{0,1,31,32,33,64,500}){ C.at(prior,n); {auto o=Mk<T>::get(prior,0);auto h=wrap();size_t r=h.derive(o,n);res(C,"kdf wrapper derive(container,n)",o,r,e,n,prior); size_t k=Mk<T>::dyn?n:std::min<size_t>(n,prior); uint8_t x[9];h.derive(x,9);if(cmp(x,e.data()+k,9))C.fail("derive(container,%zu) with prior size %zu: the stream does not go on where the result ends",n,prior);C.eval();} {auto o=Mk<T>::get(prior,0);size_t r; if constexpr(H)r=P::kdf::derive<D>(a,s,f,o,n);else r=P::kdf::derive<D>(a,s,it,o,n);res(C,"kdf::derive(...,container,n)",o,r,e,n,prior);} } },32);
  seq(std::make_index_sequence<70>(),[&]<size_t N>(){ auto h=wrap(); auto x=h.template derive<std::array<uint8_t,N>>(); val(C,"kdf wrapper derive<array>()",x,e,N); if constexpr(H)val(C,"kdf::derive<D,array>(...)",P::kdf::derive<D,std::array<char,N>>(a,s,f),e,N);else val(C,"kdf::derive<D,array>(...)",P::kdf::derive<D,std::array<char,N>>(a,s,it),e,N); });
  ins([&]<class T>(){ auto x=in<T>(a,0),y=in<T>(s,1),z=in<T>(f,2); if constexpr(H){ A h(x,y,z);val(C,"hkdf(containers)",h.derive(99),e,99); A g;g.initialize(x,y,z);val(C,"hkdf initialize(containers)",g.derive(99),e,99); A q;q.initialize(x.data(),x.size(),y.data(),y.size(),z.data(),z.size());val(C,"hkdf initialize(ptrs)",q.derive(99),e,99); val(C,"kdf::derive kinds",P::kdf::derive<D>(x,y,z,99),e,99); } else { A h(x,y,it);val(C,"pbkdf2(containers)",h.derive(99),e,99); A g;g.initialize(x,y,it);val(C,"pbkdf2 initialize(containers)",g.derive(99),e,99); A q;q.initialize(x.data(),x.size(),y.data(),y.size(),it);val(C,"pbkdf2 initialize(ptrs)",q.derive(99),e,99); val(C,"kdf::derive kinds",P::kdf::derive<D>(x,y,it,99),e,99); } }); C.sample("kdf inputs %zu/%zu/%zu bytes",a.size(),s.size(),f.size()); }
// ---- cipher
template<class X> static void cipher(Ctx&C,int part){ using A=P::cipher::apie<X>; size_t L=part<5?LEN[part]:700; B k=ref::pattern(32,77),iv=ref::pattern(16,78),m=ref::pattern(L,79); uint32_t ctr=iv[0]|iv[1]<<8|iv[2]<<16|uint32_t(iv[3])<<24; B e=ref::chacha(k,ctr,B(iv.begin()+4,iv.end()),m); 
  for(int v=0;v<10;v++){ C.at(v); B b(L+40,FILL); size_t r=0; switch(v){ case 0:{X x;x.initialize((const char*)k.data(),32,(const signed char*)iv.data(),16);r=x.encrypt((const char*)m.data(),L,b.data());break;} case 1:{X x;x.initialize(k.data(),32,iv.data(),16);r=x.decrypt(m.data(),L,(signed char*)b.data());break;} case 2:{A x(k.data(),32,iv.data(),16);r=x.encrypt(m.data(),L,(char*)b.data());break;} case 3:{A x(k,iv);r=x.decrypt(m.data(),L,b.data());break;} case 4:{A x;x.initialize(k.data(),32,iv.data(),16);r=x.decrypt((const signed char*)m.data(),L,b.data());break;} case 5:{A x;x.initialize(k,iv);r=x.encrypt(m.data(),L,b.data());break;} case 6:r=P::cipher::encrypt<X>(k.data(),32,iv.data(),16,m.data(),L,b.data());break; case 7:r=P::cipher::decrypt<X>(k.data(),32,iv.data(),16,m.data(),L,b.data());break; case 8:r=P::cipher::encrypt<X>((const char*)k.data(),32,(const char*)iv.data(),16,(const char*)m.data(),L,(char*)b.data());break; case 9:{std::copy(m.begin(),m.end(),b.begin());r=P::cipher::decrypt<X>(k.data(),32,iv.data(),16,b.data(),L,b.data());break;} } if(r!=L||cmp(b.data(),e.data(),L))C.fail("cipher form %d: wrong result (%zu)",v,r); for(size_t i=L;i<b.size();i++)if(b[i]!=FILL)C.fail("cipher form %d wrote after the result",v); C.eval(); }
  {A x(k,iv);if(x.encrypt_size(m)!=L||x.decrypt_size(m)!=L||x.encrypt_size(m.data(),L)!=L||x.decrypt_size(m.data(),L)!=L)C.fail("cipher sizes");C.eval();}
  outs([&]<class T>(size_t prior){ if(!Mk<T>::dyn&&prior<L)return; C.at(prior); auto t=[&](const char*w,auto f){auto o=Mk<T>::get(prior,0);size_t r=f(o);res(C,w,o,r,e,L,prior);}; t("cipher wrapper encrypt(c,container)",[&](T&o){A x(k,iv);return x.encrypt(m,o);}); t("cipher wrapper decrypt(c,container)",[&](T&o){A x(k,iv);return x.decrypt(m,o);}); t("cipher::encrypt(...,container)",[&](T&o){return P::cipher::encrypt<X>(k,iv,m,o);}); t("cipher::decrypt(...,container)",[&](T&o){return P::cipher::decrypt<X>(k,iv,m,o);}); },L?L:1);
  auto rv=[&]<class T>(){ {A x(k,iv);val(C,"cipher wrapper encrypt<T>(c)",x.template encrypt<T>(m),e,L);} {A x(k,iv);val(C,"cipher wrapper decrypt<T>(c)",x.template decrypt<T>(m),e,L);} val(C,"cipher::encrypt<X,T>",P::cipher::encrypt<X,T>(k,iv,m),e,L); val(C,"cipher::decrypt<X,T>",P::cipher::decrypt<X,T>(k,iv,m),e,L); };
#define R_(T) rv.template operator()<T>();
  OUTS_DYN(R_) val(C,"cipher::encrypt<X>",P::cipher::encrypt<X>(k,iv,m),e,L);
  ins([&]<class T>(){ auto kk=in<T>(k,0),ii=in<T>(iv,1),mm=in<T>(m,2); A x(kk,ii);val(C,"cipher kinds",x.template encrypt<B>(mm),e,L); A y;y.initialize(kk,ii);val(C,"cipher kinds",y.template decrypt<std::string>(mm),e,L); val(C,"cipher::encrypt kinds",P::cipher::encrypt<X>(kk,ii,mm),e,L); });
  {B b=m;A x(k,iv);size_t r=x.encrypt(b,b);if(r!=L||b!=e)C.fail("cipher in place on one container");C.eval();} C.sample("%zu bytes",L); }
// ---- aead
template<class X> static void aead(Ctx&C,int part){ using A=P::aead::apie<X>; size_t L=part<5?LEN[part]:700; B k=ref::pattern(32,81),n=ref::pattern(12,82),a=ref::pattern(LEN[(part+2)%5],83),m=ref::pattern(L,84),e=ref::aead_seal(k,n,m),t=ref::aead_tag(k,n,a,e);
  auto wrap=[&]{A x(k.data(),32,n.data(),12);x.aad(a.data(),a.size());return x;}; error er;
  for(int v=0;v<6;v++){ C.at(v); B b(L+40,FILL); uint8_t d[40];memset(d,FILL,40); size_t r=0,q=0; bool dec=v&1; const B&src=dec?e:m,&want=dec?m:e; switch(v){ case 0:case 1:{X x;x.initialize((const char*)k.data(),32,(const signed char*)n.data(),12);x.aad((const char*)a.data(),a.size());x.aadover();r=dec?x.decrypt((const char*)src.data(),L,(char*)b.data()):x.encrypt((const char*)src.data(),L,(char*)b.data());x.finalize();q=x.digest((char*)d);break;} case 2:case 3:{A x=wrap();r=dec?x.decrypt(src.data(),L,b.data()):x.encrypt(src.data(),L,b.data());q=x.digest(d);break;} case 4:{auto z=P::aead::encrypt<X>(k.data(),32,n.data(),12,a.data(),a.size(),m.data(),L,b.data(),d);r=z.item_0;q=z.item_1;break;} case 5:r=P::aead::decrypt<X>(k.data(),32,n.data(),12,a.data(),a.size(),e.data(),L,t.data(),16,b.data(),er);cpy(d,t.data(),16);q=16;if(er)C.fail("one-line decrypt");break; } if(r!=L||q!=16||cmp(b.data(),want.data(),L)||cmp(d,t.data(),16))C.fail("aead form %d: wrong result (%zu, %zu)",v,r,q); for(size_t i=L;i<b.size();i++)if(b[i]!=FILL)C.fail("aead form %d wrote after the text",v); for(int i=16;i<40;i++)if(d[i]!=FILL)C.fail("aead form %d wrote after the tag",v); C.eval(); }
  for(size_t z=0;z<=40;z++){ auto fresh=[&]{A x=wrap();B o(L+1);x.encrypt(m.data(),L,o.data());return x;}; {uint8_t d[60];memset(d,FILL,60);A x=fresh();size_t r=x.digest(d,z),q=std::min<size_t>(z,16);if(r!=q||cmp(d,t.data(),q)||d[q]!=FILL)C.fail("aead digest(ptr,%zu)",z);C.eval();} {A x=fresh();val(C,"aead digest(n)",x.digest(z),t,z);} }
  outs([&]<class T>(size_t prior){ for(size_t z:{0,1,15,16,17,99}){C.at(prior,z);A x=wrap();B o(L+1);x.encrypt(m.data(),L,o.data());auto d=Mk<T>::get(prior,0);size_t r=x.digest(d,z);res(C,"aead digest(container,n)",d,r,t,z,prior);} {A x=wrap();B o(L+1);x.encrypt(m.data(),L,o.data());auto d=Mk<T>::get(prior,0);size_t r=x.digest(d);res(C,"aead digest(container)",d,r,t,16,prior);}
    if(Mk<T>::dyn||prior>=16){ std::vector<char> o(3);auto d=Mk<T>::get(prior,1);auto z=P::aead::encrypt<X>(k,n,a,m,o,d);res(C,"aead::encrypt(..., tag container)",d,z.item_1,t,16,prior);if(z.item_0!=L||o.size()!=L||cmp(o.data(),e.data(),L))C.fail("aead::encrypt text"); }
    if(!Mk<T>::dyn&&prior<L)return; auto tt=[&](const char*w,const B&want,auto f){auto o=Mk<T>::get(prior,0);size_t r=f(o);res(C,w,o,r,want,L,prior);}; tt("aead wrapper encrypt(c,container)",e,[&](T&o){A x=wrap();return x.encrypt(m,o);}); tt("aead wrapper decrypt(c,container)",m,[&](T&o){A x=wrap();return x.decrypt(e,o);}); tt("aead::encrypt(...,container,tag)",e,[&](T&o){std::array<uint8_t,16> d;return P::aead::encrypt<X>(k,n,a,m,o,d).item_0;}); tt("aead::decrypt(...,container,error)",m,[&](T&o){return P::aead::decrypt<X>(k,n,a,e,t,o,er);}); tt("aead::decrypt(...,container)",m,[&](T&o){return P::aead::decrypt<X>(k,n,a,e,t,o);}); },L?L:1);
  auto rv=[&]<class T>(){ {A x=wrap();val(C,"aead wrapper encrypt<T>",x.template encrypt<T>(m),e,L);val(C,"tag after it",x.digest(),t,16);} {A x=wrap();val(C,"aead wrapper decrypt<T>",x.template decrypt<T>(e),m,L);} {auto z=P::aead::encrypt<X,T>(k,n,a,m);val(C,"aead::encrypt<X,T>",z.item_0,e,L);val(C,"aead::encrypt<X,T> tag",z.item_1,t,16);} val(C,"aead::decrypt<X,T>",P::aead::decrypt<X,T>(k,n,a,e,t),m,L); val(C,"aead::decrypt<X,T> error",P::aead::decrypt<X,T>(k,n,a,e,t,er),m,L); };
  OUTS_DYN(R_) {auto z=P::aead::encrypt<X,std::string,std::array<char,16>>(k,n,a,m);val(C,"aead::encrypt<X,string,array<char,16>>",z.item_0,e,L);val(C,"its tag",z.item_1,t,16);} seq(std::make_index_sequence<16>(),[&]<size_t N>(){auto z=P::aead::encrypt<X,B,std::array<uint8_t,N>>(k,n,a,m);val(C,"aead::encrypt tag array",z.item_1,t,N);});
  ins([&]<class T>(){ auto kk=in<T>(k,0),ii=in<T>(n,1),mm=in<T>(m,2),aa=in<T>(a,3); A x(kk,ii);x.aad(aa);val(C,"aead kinds",x.template encrypt<B>(mm),e,L);val(C,"aead kinds tag",x.digest(),t,16); A y;y.initialize(kk,ii);y.aad(aa.data(),aa.size());val(C,"aead kinds",y.template encrypt<B>(mm),e,L); auto z=P::aead::encrypt<X>(kk,ii,aa,mm);val(C,"aead::encrypt kinds",z.item_0,e,L);val(C,"aead::encrypt kinds tag",z.item_1,t,16); });
  {A x=wrap();if(x.encrypt_size(m)!=L||x.decrypt_size(m)!=L||x.encrypt_size(m.data(),L)!=L||x.decrypt_size(m.data(),L)!=L)C.fail("aead sizes");B b=m;x.encrypt(b,b);if(b!=e)C.fail("aead in place on one container");C.eval();} C.sample("%zu bytes, aad %zu",L,a.size()); }
// ---- codec
template<class X> static void codec(Ctx&C,int part,bool hex){ using A=P::codec::apie<X>; for(size_t n=0;n<=80;n++){ if(int(n)%6!=part)continue; B m=ref::pattern(n,90+n),e=hex?ref::hex(m):ref::b64(m); const size_t L=e.size();
  outs([&]<class T>(size_t prior){ C.at(n,prior); error er; auto tt=[&](const char*w,const B&want,auto f){ if(!Mk<T>::dyn&&prior<want.size())return; auto o=Mk<T>::get(prior,0);size_t r=f(o);res(C,w,o,r,want,want.size(),prior);}; tt("codec wrapper encode",e,[&](T&o){return A::encode(m,o);}); tt("codec::encode",e,[&](T&o){return P::codec::encode<X>(m,o);}); tt("codec wrapper decode(error)",m,[&](T&o){return A::decode(e,o,er);}); tt("codec wrapper decode",m,[&](T&o){return A::decode(e,o);}); tt("codec::decode(error)",m,[&](T&o){return P::codec::decode<X>(e,o,er);}); tt("codec::decode",m,[&](T&o){return P::codec::decode<X>(e,o);}); if(er)C.fail("error set"); },L?L:1);
  auto rv=[&]<class T>(){ val(C,"codec wrapper encode<T>",A::template encode<T>(m),e,L); val(C,"codec::encode<X,T>",P::codec::encode<X,T>(m),e,L); val(C,"codec wrapper decode<T>",A::template decode<T>(e),m,n); val(C,"codec::decode<X,T>",P::codec::decode<X,T>(e),m,n); };
  OUTS_DYN(R_) val(C,"codec::encode<X>",P::codec::encode<X>(m),e,L); val(C,"codec::decode<X>",P::codec::decode<X>(e),m,n);
  ins([&]<class T>(){ auto mm=in<T>(m,0),ee=in<T>(e,1); val(C,"codec encode kinds",P::codec::encode<X>(mm),e,L); val(C,"codec decode kinds",P::codec::decode<X>(ee),m,n); if(A::encode_size(mm)!=L||A::decode_size(ee)!=n||A::encode_size(mm.data(),mm.size())!=L||A::decode_size(ee.data(),ee.size())!=n||X::encode_size(mm.data(),n)!=L||X::decode_size(ee.data(),L)!=n)C.fail("codec sizes"); C.eval(); });
  for(int v=0;v<6;v++){ B b(L+n+40,FILL); error er(error::size); size_t r=0,z=v<3?L:n; const B&want=v<3?e:m; switch(v){case 0:r=X::encode((const char*)m.data(),n,b.data());break;case 1:r=A::encode(m.data(),n,(char*)b.data());break;case 2:r=P::codec::encode<X>(m.data(),n,(signed char*)b.data());break;case 3:r=X::decode((const char*)e.data(),L,b.data(),er);break;case 4:r=A::decode(e.data(),L,(char*)b.data());break;case 5:r=P::codec::decode<X>((const signed char*)e.data(),L,b.data());break;} if(r!=z||cmp(b.data(),want.data(),z))C.fail("codec form %d",v); for(size_t i=z;i<b.size();i++)if(b[i]!=FILL)C.fail("codec form %d wrote after the result",v); C.eval(); }
  { std::string s(e.begin(),e.end()); milo::container::bytes_dynamic v=hex?milo::literal::operator""_base_16(s.data(),s.size()):milo::literal::operator""_base_64(s.data(),s.size()); val(C,"literal",v,m,n); } } C.sample("%s",hex?"base 16":"base 64"); }
static B hm(int id,const B&k,const B&m){return ref::hmac(id,k,m);}
#define AUTO(n,h,x) if(i==h)hash<P::hash_##n>(C,h,p);
MC_SUITE(hashes){ int c=C.choose(35),i=c%7,p=c/7; HASHES_AUTO(AUTO) }
#ifdef ALLMAC
#define MACS(n,h,x) if(i==h)mac<P::mac::hmac<P::hash_##n>>(C,[](const B&k,const B&m){return hm(h,k,m);},p*37,p);
#else
#define MACS(n,h,x) if constexpr(h==ref::SHA256)if(i==h)mac<P::mac::hmac<P::hash_##n>>(C,[](const B&k,const B&m){return hm(h,k,m);},p*37,p);
#endif
MC_SUITE(macs){ int c=C.choose(40),i=c%8,p=c/8; HASHES_AUTO(MACS) if(i==7)mac<P::mac_poly_1305>(C,[](const B&k,const B&m){return ref::poly1305(k,m);},size_t(p)*16,p); }
MC_SUITE(kdfs){ int c=C.choose(20),i=c%4,p=c/4; if(i==0)kdf<P::kdf_hkdf_hmac_sha_2_256,true>(C,ref::SHA256,p); if(i==1)kdf<P::kdf_pbkdf_2_hmac_sha_2_256,false>(C,ref::SHA256,p); if(i==2)kdf<P::kdf_hkdf_hmac_sha_2_512_224,true>(C,ref::SHA512_224,p); if(i==3)kdf<P::kdf_pbkdf_2_hmac_sha_1_160,false>(C,ref::SHA1,p); }
MC_SUITE(ciphers){ int c=C.choose(12),i=c%2,p=c/2; if(i==0)cipher<P::cipher_chacha_20>(C,p); else cipher<P::cipher_chacha_20_sw>(C,p); }
MC_SUITE(aeads){ int c=C.choose(12),i=c%2,p=c/2; if(i==0)aead<P::aead_chacha_20_poly_1305>(C,p); else aead<P::aead_chacha_20_sw_poly_1305_sw>(C,p); }
MC_SUITE(codecs){ int c=C.choose(12); if(c%2)codec<P::codec::base_16<>>(C,c/2,true); else codec<P::codec::base_64<>>(C,c/2,false); }
// the literals for text
MC_SUITE(literals){ C.choose(1); using namespace milo::literal; for(size_t n=0;n<300;n++){ std::string s;for(size_t i=0;i<n;i++)s+=char(ref::pat(i,n)); B e(s.begin(),s.end()); val(C,"_b",milo::literal::operator""_b(s.data(),n),e,n); val(C,"_c",milo::literal::operator""_c(s.data(),n),e,n); auto v=milo::literal::operator""_bv(s.data(),n); auto w=milo::literal::operator""_cv(s.data(),n); if(v.size()!=n||(const void*)v.data()!=s.data()||w.size()!=n||w.data()!=s.data())C.fail("view literal of %zu characters",n); C.eval(2); } val(C,"\"..\"_base_16","00ff7F"_base_16,B{0,255,127},3); val(C,"\"..\"_base_64","AP9/"_base_64,B{0,255,127},3); val(C,"_b","a\0b"_b,B{'a',0,'b'},3); }
int main(int c,char**v){return mc::main(c,v);}
