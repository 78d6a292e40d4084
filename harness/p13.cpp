// P13: the same enumeration of programs done by the compiler and at run time
#include "subject.h"
#include <array>
#include <vector>
#include <string>
#include <milo/literal.h>
#ifndef DEPTH
#define DEPTH 4
#endif
#ifndef MAXP
#define MAXP 400
#endif
#define L1(Y) SUBJECTS_HASH(Y)
#define L2(Y) SUBJECTS_MAC(Y)
#define L3(Y) Y("hkdf_sha_1",SKdf<P::kdf_hkdf_hmac_sha_1_160 COMMA true>,ANY) Y("hkdf_sha_512",SKdf<P::kdf_hkdf_hmac_sha_2_512 COMMA true>,ANY)
#define L4(Y) Y("pbkdf_2_sha_1",SKdf<P::kdf_pbkdf_2_hmac_sha_1_160 COMMA false>,ANY) Y("pbkdf_2_sha_512_224",SKdf<P::kdf_pbkdf_2_hmac_sha_2_512_224 COMMA false>,ANY)
#define L5(Y) Y("hkdf_sha_256 apie",SKdf<P::kdf_hkdf_hmac_sha_2_256 COMMA true COMMA true>,ANY) Y("pbkdf_2_sha_256 apie",SKdf<P::kdf_pbkdf_2_hmac_sha_2_256 COMMA false COMMA true>,ANY)
#define L6(Y) Y("chacha_20",SCipher<P::cipher_chacha_20>,ANY) Y("chacha_20_avx_2",SCipher<P::cipher_chacha_20_hw_x86_64_avx_2>,NEED_AVX2) Y("chacha_20_ssse_3",SCipher<P::cipher_chacha_20_hw_x86_64_ssse_3>,NEED_SSSE3)
#define L7(Y) Y("chacha_20 apie",SCipher<P::cipher_chacha_20 COMMA true>,ANY) Y("chacha_20_sw",SCipher<P::cipher_chacha_20_sw>,ANY)
#define L8(Y) Y("aead",SAead<P::aead_chacha_20_poly_1305>,ANY) Y("aead apie",SAead<P::aead_chacha_20_poly_1305 COMMA true>,ANY) Y("aead_avx_2",SAead<AeadAvx2>,NEED_AVX2)
struct Mat{ uint8_t d[4][700]; };
static constexpr Mat MAT=[]{Mat m{};uint32_t x=1;for(auto&r:m.d)for(auto&b:r){x=x*1664525+1013904223;b=uint8_t(x>>24);}return m;}();
struct CEnv{ uint64_t h=14695981039346656037ull; uint8_t buf[700]={}; constexpr void fold(uint64_t v){h=(h^v)*1099511628211ull;}
  constexpr const uint8_t*in(int slot,size_t,int seed){return MAT.d[slot]+seed;} constexpr uint8_t*out(size_t n){for(size_t i=0;i<n;i++)buf[i]=0;return buf;} constexpr void wrote(const uint8_t*p,size_t r,size_t n,size_t expect){fold(r*1000+expect);for(size_t i=0;i<n;i++)fold(p[i]);} };
struct Step{int op;size_t n;}; struct Table{ uint64_t h[MAXP]; int n; long steps; };
// all legal sequences of DEPTH operations (sizes from a small set), each closed so that a result is read
template<class S> constexpr Table table(){ Table t{}; const size_t b=S::block()>256?64:S::block(); const size_t sz[]={0,b+1,5,b-3}; constexpr int NS=DEPTH>4?4:3; int force[DEPTH+1]={},width[DEPTH+1]={},nc=0;
  for(;;){ int ci=0; nc=0; auto choose=[&](int w){width[ci]=w;nc=ci+1;return force[ci++];}; CEnv e; typename S::T o; int ph=S::run(o,S::INIT,S::sized(S::INIT)?sz[1]-30:0,e,RAW,1); t.steps++;
    for(int i=1;i<DEPTH;i++){ Step opt[40]={};int k=0; for(int p=0;p<S::OPS;p++)if(S::legal(ph,p)&&!(p==S::INIT&&i!=DEPTH-2)){ if(p==S::INIT)opt[k++]={p,S::sized(p)?sz[2]:0}; else if(S::sized(p))for(int q=0;q<NS;q++)opt[k++]={p,sz[q]}; else opt[k++]={p,0}; } Step s=opt[choose(k)]; ph=S::run(o,s.op,s.n,e,ph,i+1); t.steps++; }
    for(int p=1;p<S::OPS;p++)if(!S::sized(p)&&S::legal(ph,p))ph=S::run(o,p,0,e,ph,0); if(S::legal(ph,S::OPS-1))ph=S::run(o,S::OPS-1,64,e,ph,0);
    if(t.n<MAXP)t.h[t.n]=e.h; t.n++; int i=nc-1; while(i>=0&&force[i]+1>=width[i])i--; if(i<0)return t; force[i]++; for(int j=i+1;j<=DEPTH;j++)force[j]=0; } }
// lengths: every message length within two blocks (stride in the quick tier)
template<class S> constexpr Table lengths(){ Table t{}; size_t b=S::block()>256?64:S::block(); for(size_t n=0;n<=2*b+1&&t.n<MAXP;n+=(n%(b/2)<2||n%(b/2)>=b/2-10?1:STRIDE)){ CEnv e; typename S::T o; int ph=S::run(o,S::INIT,33,e,RAW,1); for(int p=1;p<S::OPS;p++)if(S::sized(p)&&S::legal(ph,p)){ph=S::run(o,p,n,e,ph,2);break;} for(int p=1;p<S::OPS;p++)if(!S::sized(p)&&S::legal(ph,p))ph=S::run(o,p,0,e,ph,0); if(S::legal(ph,S::OPS-1))ph=S::run(o,S::OPS-1,64,e,ph,0); t.h[t.n++]=e.h; t.steps++; } return t; }
// copies: an object in every state of a set copied in every way (over objects of other states too); both continue
template<class S> constexpr Table copies(){ using O=typename S::T; Table t{}; const size_t b=S::block()>256?64:S::block(); const size_t sz[]={0,b+1,5,b-3}; int first=1; for(int p=1;p<S::OPS;p++)if(S::sized(p)&&S::legal(READY,p)){first=p;break;}
  auto set=[&](O&o,int st,int seed){ CEnv e; int ph=S::run(o,S::INIT,S::sized(S::INIT)?sz[1]-30:0,e,RAW,seed); if(st==0)return ph; return S::run(o,first,sz[st-1],e,ph,seed+1); };
  auto rest=[&](O&o,int ph,CEnv&e){ if(S::legal(ph,first))ph=S::run(o,first,b-2,e,ph,7); for(int p=1;p<S::OPS;p++)if(!S::sized(p)&&S::legal(ph,p))ph=S::run(o,p,0,e,ph,0); if(S::legal(ph,S::OPS-1))ph=S::run(o,S::OPS-1,64,e,ph,0); };
  for(int st=0;st<5;st++)for(int way=0;way<4+10;way++){ CEnv e; O o; int ph=set(o,st,1);
    auto both=[&](O&q){ CEnv f; rest(q,ph,f); e.fold(f.h); CEnv g; if(way!=1&&way<9){ rest(o,ph,g); e.fold(g.h);} e.fold(f.h==g.h); };
    if(way==0){ O q(o); both(q); } else if(way==1){ O q(std::move(o)); both(q); } else if(way==2){ O&r=o; o=r; both(o); } else if(way==3){ O q; q=o; both(q); }
    else if(way<9){ O q; set(q,way-4,3); q=o; both(q); } else { O q; set(q,way-9,3); q=std::move(o); both(q); }
    if(t.n<MAXP)t.h[t.n]=e.h; t.n++; t.steps+=4; } return t; }
template<class S> struct Con{ static constexpr Table T=table<S>(); static constexpr Table L=lengths<S>(); static constexpr Table D=copies<S>(); static_assert(T.n>0&&T.n<=MAXP); };
struct Sub{const char*nm;int need;const Table*c;Table(*r)();const Table*cl;Table(*l)();const Table*cd;Table(*d)();};
#define Y(n,s,nd) {n,nd,&Con<s>::T,table<s>,&Con<s>::L,lengths<s>,&Con<s>::D,copies<s>},
#ifdef LIST
static const Sub SB[]={LIST(Y)};
MC_SUITE(programs){ const Sub&s=SB[C.choose(sizeof SB/sizeof*SB)]; if(!have(s.need)){C.eval();return;} Table r=s.r(); if(r.n!=s.c->n)C.fail("%s: %d programs at run time, %d at compile time",s.nm,r.n,s.c->n); for(int i=0;i<r.n;i++){ C.at(i); if(r.h[i]!=s.c->h[i])C.fail("%s: program %d of %d: results at compile time and at run time differ",s.nm,i,r.n); C.eval(); C.out(r.h[i]); } C.tr(r.steps);
  Table l=s.l(); for(int i=0;i<l.n;i++){ C.at(i); if(l.n!=s.cl->n||l.h[i]!=s.cl->h[i])C.fail("%s: length number %d: results at compile time and at run time differ",s.nm,i); C.eval(); C.out(l.h[i]); }
  Table d=s.d(); for(int i=0;i<d.n&&i<MAXP;i++){ C.at(i); if(d.n!=s.cd->n||d.h[i]!=s.cd->h[i])C.fail("%s: copy number %d: results at compile time and at run time differ",s.nm,i); C.eval(); C.out(d.h[i]); } C.tr(d.steps);
  C.sample("%s: %d programs of %d operations, %d lengths",s.nm,r.n,DEPTH,l.n); }
#endif
#ifdef FORMS
// codecs, errors, containers, one-line forms
using milo::error;
#ifdef __clang__
using Str=std::vector<char>; // clang does not instantiate parts of std::string in constant expressions
#else
using Str=std::string;
#endif
template<class K> constexpr Table codec(bool hex){ Table t{}; 
  for(size_t n=0;n<20;n++){ CEnv e; char c[60]={}; uint8_t b[60]={}; size_t r=K::encode(MAT.d[0],n,c); e.wrote((const uint8_t*)nullptr,r,0,K::encode_size(MAT.d[0],n)); for(char x:c)e.fold(uint8_t(x)); error er(error::size); size_t g=K::decode(c,r,b,er); e.fold(g); e.fold(bool(er)); e.fold(K::decode_size(c,r)); for(auto x:b)e.fold(x); t.h[t.n++]=e.h; }
  for(int pos=0;pos<4;pos++)for(int v=0;v<256;v++){ CEnv e; char c[4]={'a','B','0','9'}; c[pos]=char(v); uint8_t b[8]={}; error er; size_t g=K::decode(c,4,b,er); e.fold(bool(er)); if(!er){ e.fold(g); for(auto x:b)e.fold(x);} if(t.n<MAXP)t.h[t.n++]=e.h; else {t.h[0]=(t.h[0]^e.h)*1099511628211ull;} t.steps++; }
  const char*lit=hex?"00ffAb1":"AP+/7w=="; Str s(lit,lit+(hex?7:8)); std::vector<uint8_t> v(3); error er; P::codec::decode<K>(s,v,er); for(auto x:v)t.h[1]=t.h[1]*31+x; t.h[1]+=v.size(); Str z; P::codec::encode<K>(v,z); for(char x:z)t.h[1]=t.h[1]*31+x; auto w=P::codec::decode<K,std::vector<char>>(z); for(auto x:w)t.h[1]=t.h[1]*31+uint8_t(x); auto y=P::codec::encode<K,Str>(v); for(char x:y)t.h[1]=t.h[1]*31+x; P::codec::apie<K> a; (void)a; t.h[1]+=er?1:0; return t; }
constexpr Table errors(){ Table t{}; const int cs[]={error::none,error::size,error::aead_verify,error::codec_base_64_encode,error::codec_base_64_decode,error::codec_base_16_encode,error::codec_base_16_decode}; for(int a:cs)for(int b:cs){ error x{static_cast<enum error::code>(a)},y{static_cast<enum error::code>(b)}; uint64_t h=1; h=h*3+bool(x); h=h*7+uint64_t(error::code(x)); h=h*3+(error::code(x)==error::code(y)); x=y; h=h*3+bool(x); y.clear(); h=h*3+bool(y)+(y==error::none); h=h*17+uint64_t(error::code(x)); t.h[t.n++]=h; } return t; }
template<class H> constexpr Table hash1(){ Table t{}; std::vector<uint8_t> m(MAT.d[0],MAT.d[0]+77); Str s(77,'q'); CEnv e; auto add=[&](const auto&c){e.fold(c.size());for(auto x:c)e.fold(uint8_t(x));t.h[t.n++]=e.h;}; add(P::hash::digest<H>(m)); add(P::hash::digest<H>(s)); add(P::hash::digest<H>(m,5)); add(P::hash::digest<H,std::vector<char>>(s,9)); add(P::hash::digest<H,std::array<signed char,7>>(m)); std::vector<uint8_t> o(3); P::hash::digest<H>(s,o); add(o); P::hash::digest<H>(s,o,6); add(o); std::array<uint8_t,100> big{}; e.fold(P::hash::digest<H>(m,big)); add(big); P::hash::apie<H> a; a.initialize(); a.update(s); a.update(m); auto b=a; add(a.digest()); b.update(s); add(b.digest()); a=b; add(a.template digest<std::array<char,4>>()); return t; }
template<class M> constexpr Table mac1(){ Table t{}; std::vector<uint8_t> m(MAT.d[0],MAT.d[0]+77); Str s(40,'q'); CEnv e; auto add=[&](const auto&c){e.fold(c.size());for(auto x:c)e.fold(uint8_t(x));t.h[t.n++]=e.h;}; add(P::mac::digest<M>(s,m)); add(P::mac::digest<M>(m,s,5)); add(P::mac::digest<M,std::vector<char>>(s,m,9)); add(P::mac::digest<M,std::array<char,7>>(s,m)); std::vector<uint8_t> o(3); P::mac::digest<M>(s,m,o); add(o); P::mac::apie<M> a(s); a.update(m); auto b=a; add(a.digest()); b.update(s); add(b.digest()); a.initialize(m); a.update(m); add(a.digest(3)); return t; }
template<class K,bool H> constexpr Table kdf1(){ Table t{}; std::vector<uint8_t> m(MAT.d[0],MAT.d[0]+30); Str s(9,'q'); CEnv e; auto add=[&](const auto&c){e.fold(c.size());for(auto x:c)e.fold(uint8_t(x));t.h[t.n++]=e.h;}; if constexpr(H){add(P::kdf::derive<K>(m,s,s,45));add(P::kdf::derive<K,std::array<char,33>>(m,s,m));P::kdf::apie<K> a(m,s,s);add(a.derive(7));auto b=a;add(a.derive(40));add(b.derive(40));} else {add(P::kdf::derive<K>(m,s,2,45));add(P::kdf::derive<K,std::array<char,33>>(m,s,1));P::kdf::apie<K> a(m,s,2);add(a.derive(7));auto b=a;add(a.derive(40));add(b.derive(40));} return t; }
template<class X> constexpr Table cipher1(){ Table t{}; std::vector<uint8_t> k(MAT.d[0],MAT.d[0]+32),iv(MAT.d[1],MAT.d[1]+16),m(MAT.d[2],MAT.d[2]+150); Str s(70,'q'); CEnv e; auto add=[&](const auto&c){e.fold(c.size());for(auto x:c)e.fold(uint8_t(x));t.h[t.n++]=e.h;}; add(P::cipher::encrypt<X>(k,iv,m)); add(P::cipher::decrypt<X>(k,iv,s)); add(P::cipher::encrypt<X,Str>(k,iv,s)); Str o; P::cipher::apie<X> a(k,iv); e.fold(a.encrypt(s,o)); add(o); auto b=a; add(a.template encrypt<std::vector<char>>(m)); add(b.template decrypt<std::vector<char>>(s)); return t; }
template<class A> constexpr Table aead1(){ Table t{}; std::vector<uint8_t> k(MAT.d[0],MAT.d[0]+32),iv(MAT.d[1],MAT.d[1]+12),m(MAT.d[2],MAT.d[2]+90); Str s(20,'q'); CEnv e; auto add=[&](const auto&c){e.fold(c.size());for(auto x:c)e.fold(uint8_t(x));t.h[t.n++]=e.h;}; auto r=P::aead::encrypt<A,std::vector<uint8_t>,std::array<uint8_t,16>>(k,iv,s,m); add(r.item_0); add(r.item_1); add(P::aead::decrypt<A,Str>(k,iv,s,r.item_0,r.item_1)); error er; auto bad=r.item_1; bad[3]^=1; Str o; P::aead::decrypt<A>(k,iv,s,r.item_0,bad,o,er); e.fold(bool(er)); e.fold(uint64_t(error::code(er))); t.h[t.n++]=e.h; std::vector<uint8_t> c(4),d(2); P::aead::encrypt<A>(k,iv,s,m,c,d); add(c); add(d); P::aead::apie<A> a(k,iv); a.aad(s); auto z=a.template decrypt<Str>(r.item_0); a.verify(r.item_1,er); e.fold(bool(er)); a.verify(r.item_1); add(z); return t; }
constexpr Table literals(){ Table t{}; using namespace milo::literal; CEnv e; auto add=[&](const auto&c){e.fold(c.size());for(auto x:c)e.fold(uint8_t(x));t.h[t.n++]=e.h;}; char s[64]={}; for(size_t n=0;n<64;n++){ s[n]=char(n*37+(n%5==0?0:1)); add(operator""_c(s,n)); add(operator""_cv(s,n)); } const char*h="0123456789abcdefABCDEF00ff7f80"; for(size_t n=0;n<=30;n++)add(operator""_base_16(h,n)); const char*b="AP+/7w09zzQQ"; for(size_t n=0;n<=12;n+=4)add(operator""_base_64(b,n)); add(operator""_base_64("AP+/7w==",8)); add(operator""_base_64("AP+/7wA=",8)); return t; }
// text that is no encoding has no value at compile time
template<int V,int P> constexpr size_t lit16(){ char t[3]={'a','0','F'}; t[P]=char(V); return milo::literal::operator""_base_16(t,3).size(); }
template<int V,int P> constexpr size_t lit64(){ char t[4]={'a','0','+','/'}; t[P]=char(V); return milo::literal::operator""_base_64(t,4).size(); }
template<int V,int P> concept Is16=requires{ typename std::integral_constant<size_t,lit16<V,P>()>; };
template<int V,int P> concept Is64=requires{ typename std::integral_constant<size_t,lit64<V,P>()>; };
template<int P,int...V> static void refuses(Ctx&C,std::integer_sequence<int,V...>){ const bool h[]={Is16<V,P>...},b[]={Is64<V,P>...}; for(int v=0;v<256;v++){ C.at(P,v); bool x=(v>='0'&&v<='9')||(v>='a'&&v<='f')||(v>='A'&&v<='F'),y=(v>='0'&&v<='9')||(v>='a'&&v<='z')||(v>='A'&&v<='Z')||v=='+'||v=='/'||(v=='='&&P==3); if(h[v]!=x)C.fail("_base_16 with character %d at %d %s at compile time",v,P,h[v]?"has a value":"is refused"); if(b[v]!=y)C.fail("_base_64 with character %d at %d %s at compile time",v,P,b[v]?"has a value":"is refused"); C.eval(2); } }
struct F1{const char*nm;const Table*c;Table(*r)();};
template<Table(*F)()> struct K1{ static constexpr Table T=F(); };
template<class K,bool h> constexpr Table codecw(){return codec<K>(h);}
#define Z(...) {#__VA_ARGS__,&K1<__VA_ARGS__>::T,__VA_ARGS__},
static const F1 FS[]={ Z(codecw<P::codec::base_16<>,true>) Z(codecw<P::codec::base_64<>,false>) Z(errors) Z(literals) Z(hash1<P::hash_sha_1_160>) Z(hash1<P::hash_sha_2_256>) Z(hash1<P::hash_sha_2_512_224>) Z(mac1<P::mac_hmac_sha_2_256>) Z(mac1<P::mac_poly_1305>) Z(kdf1<P::kdf_hkdf_hmac_sha_2_256,true>) Z(kdf1<P::kdf_pbkdf_2_hmac_sha_1_160,false>) Z(cipher1<P::cipher_chacha_20>) Z(aead1<P::aead_chacha_20_poly_1305>) };
MC_SUITE(forms){ auto&f=FS[C.choose(sizeof FS/sizeof*FS)]; Table r=f.r(); if(r.n!=f.c->n)C.fail("%s: number of results differs",f.nm); for(int i=0;i<r.n&&i<MAXP;i++){C.at(i);if(r.h[i]!=f.c->h[i])C.fail("%s: result %d at compile time and at run time differ",f.nm,i);C.eval();C.out(r.h[i]);} C.sample("%s: %d results",f.nm,r.n); }
MC_SUITE(refused){ int p=C.choose(3); using I=std::make_integer_sequence<int,256>; if(p==0)refuses<0>(C,I()); if(p==1)refuses<1>(C,I()); if(p==2)refuses<2>(C,I()); C.sample("all characters at place %d of a literal",p); }
#endif
int main(int c,char**v){return mc::main(c,v);}
