// P11: the forms of algorithms of the user, whose results are shorter than their size functions say
#include "all.h"
#include <string>
#include <list>
#include <span>
using mc::Ctx; using milo::error; namespace K=milo::container; namespace meta=milo::meta;
// text is changed and padded to a multiple of eight bytes; the size functions give bounds
template<class X,class Y> static constexpr size_t pad(const X*p,size_t n,Y*o,uint8_t x){ size_t k=8-n%8; for(size_t i=0;i<n;i++)o[i]=Y(uint8_t(uint8_t(p[i])^x)); for(size_t i=0;i<k;i++)o[n+i]=Y(uint8_t(k)); return n+k; }
template<class X,class Y> static constexpr size_t unpad(const X*p,size_t n,Y*o,uint8_t x){ if(!n)return 0; size_t k=uint8_t(p[n-1]); if(k>n)k=n; for(size_t i=0;i<n-k;i++)o[i]=Y(uint8_t(uint8_t(p[i])^x)); return n-k; }
struct Ciph:P::cipher_chacha_20_sw{ uint8_t x=0; template<meta::byte A,meta::byte I> constexpr auto initialize(const A*k,size_t n,const I*i,size_t m)noexcept(true)->void{ x=uint8_t((n?k[0]:0)^(m?i[0]:0)); }
  template<meta::byte A,meta::byte Y> constexpr auto encrypt(const A*p,size_t n,Y*o)noexcept(true)->size_t{ return pad(p,n,o,x); } template<meta::byte A> constexpr auto encrypt_size(const A*,size_t n)noexcept(true)->size_t{ return n+8; }
  template<meta::byte A,meta::byte Y> constexpr auto decrypt(const A*p,size_t n,Y*o)noexcept(true)->size_t{ return unpad(p,n,o,x); } template<meta::byte A> constexpr auto decrypt_size(const A*,size_t n)noexcept(true)->size_t{ return n; } };
struct Aead:P::aead_chacha_20_poly_1305{ static constexpr size_t digest_size=16; uint8_t x=0; uint64_t h=0; template<class A> constexpr void add(const A*p,size_t n){ for(size_t i=0;i<n;i++)h=(h^uint8_t(p[i]))*0x100000001b3ull+1; }
  template<meta::byte A,meta::byte I> constexpr auto initialize(const A*k,size_t n,const I*i,size_t m)noexcept(true)->void{ x=uint8_t((n?k[0]:0)^(m?i[0]:0)); h=x; } template<meta::byte A> constexpr auto aad(const A*p,size_t n)noexcept(true)->void{ add(p,n); } constexpr auto aadover()noexcept(true)->void{ h+=0x77; }
  template<meta::byte A,meta::byte Y> constexpr auto encrypt(const A*p,size_t n,Y*o)noexcept(true)->size_t{ size_t r=pad(p,n,o,x); add(o,r); return r; } template<meta::byte A> constexpr auto encrypt_size(const A*,size_t n)noexcept(true)->size_t{ return n+8; }
  template<meta::byte A,meta::byte Y> constexpr auto decrypt(const A*p,size_t n,Y*o)noexcept(true)->size_t{ add(p,n); return unpad(p,n,o,x); } template<meta::byte A> constexpr auto decrypt_size(const A*,size_t n)noexcept(true)->size_t{ return n; }
  constexpr auto finalize()noexcept(true)->void{ h^=h>>23; } template<meta::byte Y> constexpr auto digest(Y*d,size_t n=16)const noexcept(true)->size_t{ if(n>16)n=16; for(size_t i=0;i<n;i++)d[i]=Y(uint8_t(h>>(8*(i%8)))); return n; } };
// a run of equal bytes is written once, with its length
struct Codec:P::codec::base_16<>{ static constexpr size_t ratio_bytes_size=1,ratio_chars_size=2;
  template<meta::byte A,meta::byte Y> static constexpr auto encode(const A*p,size_t n,Y*o)noexcept(true)->size_t{ size_t r=0; for(size_t i=0;i<n;){ size_t k=1; while(i+k<n&&p[i+k]==p[i]&&k<3)k++; o[r++]=Y('0'+k); o[r++]=Y(p[i]); i+=k; } return r; } template<meta::byte A> static constexpr auto encode_size(const A*,size_t n)noexcept(true)->size_t{ return 2*n; }
  template<meta::byte A,meta::byte Y> static constexpr auto decode(const A*p,size_t n,Y*o,error&e)noexcept(true)->size_t{ e.clear(); size_t r=0; if(n%2){ e=error::codec_base_16_decode; return 0; } for(size_t i=0;i<n;i+=2){ int k=uint8_t(p[i])-'0'; if(k<1||k>3){ e=error::codec_base_16_decode; return r; } while(k--)o[r++]=Y(p[i+1]); } return r; } template<meta::byte A> static constexpr auto decode_size(const A*,size_t n)noexcept(true)->size_t{ return n*2; } };
static const B key=ref::pattern(32,37),iv=ref::pattern(16,38),nn=ref::pattern(12,39); static uint8_t X0=uint8_t(key[0]^iv[0]),X1=uint8_t(key[0]^nn[0]);
static B padded(const B&m,uint8_t x){ B o(m.size()+8); o.resize(pad(m.data(),m.size(),o.data(),x)); return o; }
static B tagof(const B&ad,const B&ct){ Aead a; a.initialize(key.data(),32,nn.data(),12); a.aad(ad.data(),ad.size()); a.aadover(); a.add(ct.data(),ct.size()); a.finalize(); B t(16); a.digest(t.data()); return t; }
#define FORM(n,e,...) f(n,e,[&](V&o)->size_t{__VA_ARGS__})
#define GIVEN(n,e,...) f(n,e,[&](V&o)->size_t{o=__VA_ARGS__;return o.size();})
template<class V,class F> static void forms(const B&m,F f){
  { using A=P::cipher::apie<Ciph>; B e=padded(m,X0); static A a; auto go=[&]()->A&{a.initialize(key,iv);return a;};
    FORM("cipher wrapper encrypt(c,container)",e,return go().encrypt(m,o);); FORM("cipher wrapper decrypt(c,container)",m,return go().decrypt(e,o);); GIVEN("cipher wrapper encrypt<T>(c)",e,go().template encrypt<V>(m)); GIVEN("cipher wrapper decrypt<T>(c)",m,go().template decrypt<V>(e));
    FORM("cipher::encrypt(k,iv,c,container)",e,return P::cipher::encrypt<Ciph>(key,iv,m,o);); FORM("cipher::decrypt(k,iv,c,container)",m,return P::cipher::decrypt<Ciph>(key,iv,e,o);); GIVEN("cipher::encrypt<X,T>(k,iv,c)",e,P::cipher::encrypt<Ciph,V>(key,iv,m)); GIVEN("cipher::decrypt<X,T>(k,iv,c)",m,P::cipher::decrypt<Ciph,V>(key,iv,e)); }
  { using A=P::aead::apie<Aead>; B ad=ref::pattern(21,53),e=padded(m,X1),t=tagof(ad,e); static A a; error er; auto go=[&]()->A&{a.initialize(key,nn);a.aad(ad);return a;};
    FORM("aead wrapper encrypt(c,container)",e,return go().encrypt(m,o);); FORM("aead wrapper decrypt(c,container)",m,return go().decrypt(e,o);); GIVEN("aead wrapper encrypt<T>(c)",e,go().template encrypt<V>(m)); GIVEN("aead wrapper decrypt<T>(c)",m,go().template decrypt<V>(e)); GIVEN("aead wrapper digest<T>(n) after encrypt",t,(go().template encrypt<V>(m),a.template digest<V>(16)));
    FORM("aead::encrypt(...,container,container), text",e,V d;return P::aead::encrypt<Aead>(key,nn,ad,m,o,d).item_0;); FORM("aead::encrypt(...,container,container), tag",t,V d;return P::aead::encrypt<Aead>(key,nn,ad,m,d,o).item_1;); GIVEN("aead::encrypt<X,T>",e,P::aead::encrypt<Aead,V>(key,nn,ad,m).item_0);
    FORM("aead::decrypt(...,container,error)",m,return P::aead::decrypt<Aead>(key,nn,ad,e,t,o,er);); FORM("aead::decrypt(...,container)",m,return P::aead::decrypt<Aead>(key,nn,ad,e,t,o);); GIVEN("aead::decrypt<X,T>(...)",m,P::aead::decrypt<Aead,V>(key,nn,ad,e,t)); GIVEN("aead::decrypt<X,T>(...,error)",m,P::aead::decrypt<Aead,V>(key,nn,ad,e,t,er)); }
  { using A=P::codec::apie<Codec>; B e(m.size()*2); e.resize(Codec::encode(m.data(),m.size(),e.data())); error er; B bad=e; bad.push_back('9'); bad.push_back('x'); 
    FORM("codec wrapper encode(c,container)",e,return A::encode(m,o);); GIVEN("codec wrapper encode<T>(c)",e,A::template encode<V>(m)); FORM("codec::encode(c,container)",e,return P::codec::encode<Codec>(m,o);); GIVEN("codec::encode<X,T>(c)",e,P::codec::encode<Codec,V>(m)); FORM("codec wrapper decode(c,container,error)",m,return A::decode(e,o,er);); FORM("codec wrapper decode(c,container)",m,return A::decode(e,o);); GIVEN("codec wrapper decode<T>(c)",m,A::template decode<V>(e)); FORM("codec::decode(c,container,error)",m,return P::codec::decode<Codec>(e,o,er);); FORM("codec::decode(c,container)",m,return P::codec::decode<Codec>(e,o);); GIVEN("codec::decode<X,T>(c)",m,P::codec::decode<Codec,V>(e));
    FORM("codec wrapper decode(c,container,error) with an error",m,size_t r=A::decode(bad,o,er);return er?r:size_t(-2);); FORM("codec::decode(c,container,error) with an error",m,size_t r=P::codec::decode<Codec>(bad,o,er);return er?r:size_t(-2);); } }
template<class V> static void run(Ctx&C,const char*cn,size_t len){ for(int kind=0;kind<3;kind++){ B m=kind==0?ref::pattern(len,5):kind==1?B(len,0x33):ref::pattern(len,6); if(kind==2)for(size_t i=0;i<len;i++)m[i]=uint8_t(i/2*7); int idx=0; forms<V>(m,[&](const char*nm,const B&e,auto call){ idx++; size_t z=e.size(); for(size_t p:{size_t(0),size_t(1),z,z+1,z+7,3*z+40}){ C.at(idx,kind,p); V o; o.resize(p,typename V::value_type(7)); size_t r=call(o); if(r!=z||o.size()!=z)C.fail("%s into %s that held %zu elements: returned %zu, size %zu, expected %zu (text of %zu bytes)",nm,cn,p,r,o.size(),z,len); for(size_t i=0;i<z;i++)if(uint8_t(o[i])!=e[i])C.fail("%s into %s that held %zu elements: byte %zu of %zu is wrong",nm,cn,p,i,z); C.eval(); } }); C.sample("%s: %d forms, text of %zu bytes",cn,idx,len); } }
MC_SUITE(user){ int c=C.choose(4*70); size_t len=c/4; if(len>=64)len=(len-64)*1000+999; switch(c%4){ case 0:run<std::vector<char>>(C,"vector<char>",len);break; case 1:run<std::string>(C,"string",len);break; case 2:run<K::bytes_dynamic>(C,"bytes_dynamic",len);break; default:run<std::vector<signed char>>(C,"vector<signed char>",len); } }
int main(int c,char**v){return mc::main(c,v);}
