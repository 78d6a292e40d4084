import os, re, concurrent.futures, vf
# every form of every operation; X is an argument of the enumerated type, R a result type; kind says which list it ranges over
PRE=r'''
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <span>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <memory>
#include <optional>
#include <cstddef>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/aead/chacha.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/cipher/chacha.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/codec/base.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/hash/sha.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/hkdf.h>
#include <milo/primitive/kdf/pbkdf.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/mac/hmac.h>
#include <milo/primitive/mac/poly.h>
namespace P=milo::primitive; using milo::error;
struct Own{ using value_type=char; char b[24]={}; constexpr Own(){} constexpr const char*data()const noexcept{return b;} constexpr char*data()noexcept{return b;} constexpr size_t size()const noexcept{return 24;} };
struct OwnDyn{ using value_type=unsigned char; std::vector<unsigned char> v; OwnDyn(){} const unsigned char*data()const noexcept{return v.data();} unsigned char*data()noexcept{return v.data();} size_t size()const noexcept{return v.size();} void reserve(size_t n){v.reserve(n);} void resize(size_t n,unsigned char c){v.resize(n,c);} void resize(size_t n){v.resize(n);} };
struct NoSize{ using value_type=char; const char*data()const noexcept{return nullptr;} char*data()noexcept{return nullptr;} };
struct NoData{ using value_type=char; size_t size()const noexcept{return 0;} };
struct IntData{ using value_type=int; int*data()noexcept{return nullptr;} const int*data()const noexcept{return nullptr;} size_t size()const noexcept{return 0;} };
using H=P::hash::sha_2_256<>; using H1=P::hash::sha_1_160<>; using H5=P::hash::sha_2_512<>; using H384=P::hash::sha_2_384<>; using H224=P::hash::sha_2_224<>; using H5224=P::hash::sha_2_512_224<>; using H5256=P::hash::sha_2_512_256<>;
using M=P::mac::hmac<H>; using M1=P::mac::hmac<H1>; using M5=P::mac::hmac<H5>; using MP=P::mac::poly_1305<>; using K=P::kdf::hkdf<M>; using B=P::kdf::pbkdf_2<M>; using C=P::cipher::chacha_20<>; using A=P::aead::chacha_20_poly_1305<>; using D16=P::codec::base_16<>; using D64=P::codec::base_64<>;
inline std::string s; inline std::string o; inline std::string t; inline error e; inline uint32_t n; inline size_t z;
inline P::hash::apie<H> h; inline P::mac::apie<M> m{s}; inline P::mac::apie<MP> mp{s}; inline P::kdf::apie<K> k{s,s,s}; inline P::kdf::apie<B> b{s,s,1}; inline P::cipher::apie<C> c{s,s}; inline P::aead::apie<A> a{s,s}; inline P::codec::apie<D64> d; inline P::codec::apie<D16> d16;
inline const char*q; inline char*w; inline H rh; inline M rm; inline MP rp; inline K rk; inline B rb; inline C rc; inline A ra;
'''
I_OK=['std::string','const std::string','std::string_view','std::vector<char>','std::vector<signed char>','const std::vector<unsigned char>','std::array<char,32>','const std::array<unsigned char,16>','std::array<signed char,5>','std::span<char>','std::span<const char>','std::span<const unsigned char,8>','std::span<signed char,4>','Own','const Own','OwnDyn','milo::container::bytes_dynamic','milo::container::bytes_static<32>','milo::container::chars_const_view_dynamic']
I_NO=['std::vector<int>','std::vector<bool>','std::array<uint16_t,4>','std::u8string','std::wstring','std::u16string_view','std::vector<std::byte>','std::list<char>','std::deque<char>','const char*','char[8]','int','void*','std::span<const int>','std::span<std::byte>','std::set<char>','std::unique_ptr<char[]>','std::optional<std::string>','NoSize','NoData','IntData','error','std::vector<std::string>','std::array<bool,4>','std::nullptr_t']
O_OK=['std::string','std::vector<char>','std::vector<signed char>','std::vector<unsigned char>','std::array<char,32>','std::array<unsigned char,5>','std::span<char>','std::span<unsigned char>','std::span<signed char,16>','Own','OwnDyn']
O_NO=['const std::string','const std::vector<char>','const std::array<char,32>','std::string_view','std::span<const char>','std::span<const unsigned char,16>','const Own']+[x for x in I_NO if x not in('char[8]','int')]  # an array of char is a pointer, a number a size
PI_OK=['const char*','char*','const unsigned char*','unsigned char*','const signed char*','signed char*']
PI_NO=['int*','const int*','void*','const void*','bool*','wchar_t*','char8_t*','const char16_t*','std::byte*','const std::byte*','std::nullptr_t','char**','int','uint16_t*','uint64_t*','const volatile char*']
PO_OK=['char*','unsigned char*','signed char*']
PO_NO=['const char*','const unsigned char*','const signed char*']+[x for x in PI_NO if x!='int']
RD_OK=['std::string','std::vector<char>','std::vector<signed char>','std::vector<unsigned char>','OwnDyn']
RD_NO=['std::array<char,32>','std::array<unsigned char,16>','std::string_view','std::span<char>','std::span<char,16>','Own','std::vector<int>','std::wstring','std::u8string','std::vector<std::byte>','std::list<char>','std::deque<char>','char*','int','std::vector<bool>','const char*','void']
def RS(mx): # fixed size results, 1..mx
    ok=['std::array<%s,%d>'%(t,i) for i in sorted({1,2,8,15,16,mx-1,mx}) if i<=mx for t in('char','signed char','unsigned char')]
    return ok+(['Own'] if mx>=24 else []), ['std::array<%s,%d>'%(t,i) for i in(0,mx+1,mx+2,mx+8,2*mx,1000) for t in('char','unsigned char')]+['std::string','std::vector<char>','OwnDyn','std::span<char>','std::span<char,16>','std::string_view','std::array<int,4>','std::array<bool,8>','std::array<std::byte,8>','std::array<wchar_t,8>','char','int','char*','void']+([] if mx>=24 else ['Own'])
RK=(['std::array<char,1>','std::array<unsigned char,32>','std::array<signed char,200>','Own'],['std::string','std::vector<char>','OwnDyn','std::span<char>','std::array<int,4>','std::array<bool,8>','std::array<std::byte,8>','char','int','char*','void'])
ERR=(['error'],['const error','int','std::string','const int','bool','enum error::code'])
KIND={'I':(I_OK,I_NO),'O':(O_OK,O_NO),'PI':(PI_OK,PI_NO),'PO':(PO_OK,PO_NO),'RD':(RD_OK,RD_NO),'RK':RK,'E':ERR,'E2':(ERR[0],[x for x in ERR[1] if x!='std::string'])}  # a string is an output there
F=[]
def f(kind,*es):
    for x in es: F.append((kind,x))
# hash
f('I','h.update(X)','P::hash::digest<H>(X)','P::hash::digest<H>(X,z)','P::hash::digest<H>(X,o)','P::hash::digest<H>(X,o,z)','P::hash::digest<H,std::vector<char>>(X,z)','P::hash::digest<H,std::array<char,5>>(X)')
f('O','h.digest(X)','h.digest(X,z)','P::hash::digest<H>(s,X)','P::hash::digest<H>(s,X,z)','P::hash::digest<H5>(s,X)','P::hash::digest<H1>(s,X)')
f('PI','h.update(X,z)','P::hash::digest<H>(X,z,w)','P::hash::digest<H>(X,z,w,z)','rh.update(X,z)')
f('PO','h.digest(X)','h.digest(X,z)','P::hash::digest<H>(q,z,X)','P::hash::digest<H>(q,z,X,z)','rh.digest(X)','rh.digest(X,z)')
f('RD','h.template digest<R>(z)','P::hash::digest<H,R>(s,z)')
for H_,n_ in (('H',32),('H1',20),('H5',64),('H384',48),('H224',28),('H5224',28),('H5256',32)): f('RS%d'%n_,'P::hash::digest<%s,R>(s)'%H_,'P::hash::apie<%s>().template digest<R>()'%H_)
# mac
for M_,n_ in (('M',32),('M1',20),('M5',64),('MP',16)): f('RS%d'%n_,'P::mac::digest<%s,R>(s,t)'%M_,'P::mac::apie<%s>(s).template digest<R>()'%M_)
f('I','m.initialize(X)','m.update(X)','mp.update(X)','P::mac::apie<M>(X)','P::mac::digest<M>(X,s)','P::mac::digest<M>(s,X)','P::mac::digest<MP>(X,s)','P::mac::digest<M>(X,s,z)','P::mac::digest<M>(s,X,z)','P::mac::digest<M>(X,s,o)','P::mac::digest<M>(s,X,o)','P::mac::digest<M>(s,X,o,z)')
f('O','m.digest(X)','m.digest(X,z)','P::mac::digest<M>(s,t,X)','P::mac::digest<M>(s,t,X,z)','P::mac::digest<MP>(s,t,X)')
f('PI','m.initialize(X,z)','m.update(X,z)','P::mac::apie<M>(X,z)','P::mac::digest<M>(X,z,q,z,w)','P::mac::digest<M>(q,z,X,z,w)','rm.initialize(X,z)','rm.update(X,z)','rp.initialize(X,z)','rp.update(X,z)')
f('PO','m.digest(X)','m.digest(X,z)','P::mac::digest<M>(q,z,q,z,X)','P::mac::digest<M>(q,z,q,z,X,z)','rm.digest(X)','rp.digest(X,z)')
f('RD','m.template digest<R>(z)','P::mac::digest<M,R>(s,t,z)')
# kdf
f('I','k.initialize(X,s,s)','k.initialize(s,X,s)','k.initialize(s,s,X)','P::kdf::apie<K>(X,s,s)','P::kdf::apie<K>(s,X,s)','P::kdf::apie<K>(s,s,X)','b.initialize(X,s,n)','b.initialize(s,X,n)','P::kdf::apie<B>(X,s,n)','P::kdf::apie<B>(s,X,n)','P::kdf::derive<K>(X,s,s,z)','P::kdf::derive<K>(s,X,s,z)','P::kdf::derive<K>(s,s,X,z)','P::kdf::derive<B>(X,s,n,z)','P::kdf::derive<B>(s,X,n,z)','P::kdf::derive<K>(X,s,s,o,z)','P::kdf::derive<K>(s,X,s,o,z)','P::kdf::derive<K>(s,s,X,o,z)','P::kdf::derive<B>(X,s,n,o,z)','P::kdf::derive<B>(s,X,n,o,z)','P::kdf::derive<K,std::array<char,9>>(X,s,s)','P::kdf::derive<B,std::array<char,9>>(s,X,n)')
f('O','k.derive(X,z)','b.derive(X,z)','P::kdf::derive<K>(s,s,s,X,z)','P::kdf::derive<B>(s,s,n,X,z)')
f('PI','k.initialize(X,z,q,z,q,z)','k.initialize(q,z,X,z,q,z)','k.initialize(q,z,q,z,X,z)','b.initialize(X,z,q,z,n)','b.initialize(q,z,X,z,n)','P::kdf::apie<K>(X,z,q,z,q,z)','P::kdf::apie<B>(q,z,X,z,n)','P::kdf::derive<K>(q,z,X,z,q,z,w,z)','P::kdf::derive<B>(X,z,q,z,n,w,z)','rk.initialize(q,z,q,z,X,z)','rb.initialize(X,z,q,z,n)')
f('PO','k.derive(X,z)','b.derive(X,z)','P::kdf::derive<K>(q,z,q,z,q,z,X,z)','P::kdf::derive<B>(q,z,q,z,n,X,z)','rk.derive(X,z)','rb.derive(X,z)')
f('RD','k.template derive<R>(z)','b.template derive<R>(z)','P::kdf::derive<K,R>(s,s,s,z)','P::kdf::derive<B,R>(s,s,n,z)')
f('RK','k.template derive<R>()','b.template derive<R>()','P::kdf::derive<K,R>(s,s,s)','P::kdf::derive<B,R>(s,s,n)')
# cipher
for o_ in('encrypt','decrypt'):
    f('I','c.%s(X,o)'%o_,'c.%s_size(X)'%o_,'c.template %s<std::string>(X)'%o_,'P::cipher::%s<C>(X,s,s)'%o_,'P::cipher::%s<C>(s,X,s)'%o_,'P::cipher::%s<C>(s,s,X)'%o_,'P::cipher::%s<C>(X,s,s,o)'%o_,'P::cipher::%s<C>(s,X,s,o)'%o_,'P::cipher::%s<C>(s,s,X,o)'%o_)
    f('O','c.%s(s,X)'%o_,'P::cipher::%s<C>(s,s,s,X)'%o_)
    f('PI','c.%s(X,z,w)'%o_,'c.%s_size(X,z)'%o_,'P::cipher::%s<C>(X,z,q,z,q,z,w)'%o_,'P::cipher::%s<C>(q,z,X,z,q,z,w)'%o_,'P::cipher::%s<C>(q,z,q,z,X,z,w)'%o_,'rc.%s(X,z,w)'%o_)
    f('PO','c.%s(q,z,X)'%o_,'P::cipher::%s<C>(q,z,q,z,q,z,X)'%o_,'rc.%s(q,z,X)'%o_)
    f('RD','c.template %s<R>(s)'%o_,'P::cipher::%s<C,R>(s,s,s)'%o_)
f('I','c.initialize(X,s)','c.initialize(s,X)','P::cipher::apie<C>(X,s)','P::cipher::apie<C>(s,X)'); f('PI','c.initialize(X,z,q,z)','c.initialize(q,z,X,z)','P::cipher::apie<C>(X,z,q,z)','rc.initialize(q,z,X,z)')
# aead
f('I','a.initialize(X,s)','a.initialize(s,X)','P::aead::apie<A>(X,s)','P::aead::apie<A>(s,X)','a.aad(X)','a.encrypt(X,o)','a.decrypt(X,o)','a.template encrypt<std::string>(X)','a.encrypt(X)','a.decrypt(X)','a.encrypt_size(X)','a.decrypt_size(X)','a.verify(X)','a.verify(X,e)',*['P::aead::encrypt<A>(%s)'%','.join('X' if i==j else 's' for j in range(4)) for i in range(4)],*['P::aead::encrypt<A>(%s,o,t)'%','.join('X' if i==j else 's' for j in range(4)) for i in range(4)],*['P::aead::decrypt<A>(%s)'%','.join('X' if i==j else 's' for j in range(5)) for i in range(5)],*['P::aead::decrypt<A>(%s,o)'%','.join('X' if i==j else 's' for j in range(5)) for i in range(5)],*['P::aead::decrypt<A>(%s,o,e)'%','.join('X' if i==j else 's' for j in range(5)) for i in range(5)])
f('O','a.encrypt(s,X)','a.decrypt(s,X)','a.digest(X)','a.digest(X,z)','P::aead::encrypt<A>(s,s,s,s,X,t)','P::aead::encrypt<A>(s,s,s,s,o,X)','P::aead::decrypt<A>(s,s,s,s,s,X,e)')
f('PI','a.initialize(X,z,q,z)','a.initialize(q,z,X,z)','P::aead::apie<A>(X,z,q,z)','a.aad(X,z)','a.encrypt(X,z,w)','a.decrypt(X,z,w)','a.verify(X,z)','a.verify(X,z,e)',*['P::aead::encrypt<A>(%s,w,w)'%','.join('X,z' if i==j else 'q,z' for j in range(4)) for i in range(4)],*['P::aead::decrypt<A>(%s,w,e)'%','.join('X,z' if i==j else 'q,z' for j in range(5)) for i in range(5)],'ra.initialize(X,z,q,z)','ra.aad(X,z)','ra.encrypt(X,z,w)','ra.decrypt(X,z,w)')
f('PO','a.encrypt(q,z,X)','a.decrypt(q,z,X)','a.digest(X)','a.digest(X,z)','P::aead::encrypt<A>(q,z,q,z,q,z,q,z,X,w)','P::aead::encrypt<A>(q,z,q,z,q,z,q,z,w,X)','P::aead::decrypt<A>(q,z,q,z,q,z,q,z,q,z,X)','ra.encrypt(q,z,X)','ra.digest(X)','ra.digest(X,z)')
f('RD','a.template encrypt<R>(s)','a.template decrypt<R>(s)','a.template digest<R>(z)','P::aead::encrypt<A,R>(s,s,s,s)','P::aead::decrypt<A,R>(s,s,s,s,s)','P::aead::decrypt<A,R>(s,s,s,s,s,e)')
f('RS16','a.template digest<R>()','P::aead::encrypt<A,std::string,R>(s,s,s,s)')
f('E','a.verify(s,X)','a.verify(q,z,X)','P::aead::decrypt<A>(s,s,s,s,s,o,X)','P::aead::decrypt<A>(q,z,q,z,q,z,q,z,q,z,w,X)'); f('E2','P::aead::decrypt<A,std::string>(s,s,s,s,s,X)')
# codec
for D_,d_ in(('D16','d16'),('D64','d')):
    for o_ in('encode','decode'):
        f('I','%s.%s(X,o)'%(d_,o_),'%s.%s_size(X)'%(d_,o_),'%s.template %s<std::string>(X)'%(d_,o_),'P::codec::%s<%s>(X,o)'%(o_,D_),'P::codec::%s<%s,std::string>(X)'%(o_,D_),'P::codec::%s<%s>(X)'%(o_,D_))
        f('O','%s.%s(s,X)'%(d_,o_),'P::codec::%s<%s>(s,X)'%(o_,D_)); f('PI','%s.%s(X,z,w)'%(d_,o_),'%s.%s_size(X,z)'%(d_,o_),'P::codec::%s<%s>(X,z,w)'%(o_,D_)); f('PO','%s.%s(q,z,X)'%(d_,o_),'P::codec::%s<%s>(q,z,X)'%(o_,D_)); f('RD','%s.template %s<R>(s)'%(d_,o_),'P::codec::%s<%s,R>(s)'%(o_,D_))
    f('I','%s.decode(X,o,e)'%d_,'P::codec::decode<%s>(X,o,e)'%D_); f('O','%s.decode(s,X,e)'%d_,'P::codec::decode<%s>(s,X,e)'%D_); f('E','%s.decode(s,o,X)'%d_,'%s.decode(q,z,w,X)'%d_,'P::codec::decode<%s>(s,o,X)'%D_,'P::codec::decode<%s>(q,z,w,X)'%D_)
# algorithms in the place of others: R is the algorithm
ALG=['H','H1','M','MP','K','B','C','A','D16','D64','int','std::string','void','error']
def alg(ok,*es):
    kind='ALG:'+','.join(ok); KIND[kind]=(ok,[x for x in ALG if x not in ok])
    f(kind,*es)
alg(['H','H1'],'P::hash::apie<R>()','P::hash::digest<R>(s)','P::hash::digest<R>(s,z)','P::hash::digest<R>(s,o)','P::hash::digest<R>(q,z,w)','P::mac::digest<P::mac::hmac<R>>(s,s)')
alg(['M','MP'],'P::mac::apie<R>(s)','P::mac::digest<R>(s,s)','P::mac::digest<R>(s,s,z)','P::mac::digest<R>(s,s,o)','P::mac::digest<R>(q,z,q,z,w)')
alg(['K'],'P::kdf::apie<R>(s,s,s)','P::kdf::derive<R>(s,s,s,z)','P::kdf::derive<R>(s,s,s,o,z)','P::kdf::derive<R>(q,z,q,z,q,z,w,z)','P::kdf::derive<R,std::array<char,9>>(s,s,s)')
alg(['B'],'P::kdf::apie<R>(s,s,n)','P::kdf::derive<R>(s,s,n,z)','P::kdf::derive<R>(s,s,n,o,z)','P::kdf::derive<R>(q,z,q,z,n,w,z)','P::kdf::derive<R,std::array<char,9>>(s,s,n)')
alg(['C'],'P::cipher::apie<R>(s,s)','P::cipher::encrypt<R>(s,s,s)','P::cipher::decrypt<R>(s,s,s)','P::cipher::encrypt<R>(s,s,s,o)','P::cipher::decrypt<R>(q,z,q,z,q,z,w)')
alg(['A'],'P::aead::apie<R>(s,s)','P::aead::encrypt<R>(s,s,s,s)','P::aead::decrypt<R>(s,s,s,s,s)','P::aead::encrypt<R>(s,s,s,s,o,t)','P::aead::decrypt<R>(s,s,s,s,s,o,e)')
alg(['D16','D64'],'P::codec::apie<R>()','P::codec::encode<R>(s)','P::codec::decode<R>(s)','P::codec::encode<R>(s,o)','P::codec::decode<R>(s,o,e)')
def lists(kind): return RS(int(kind[2:])) if kind[:2]=='RS' else KIND[kind]
def isref(kind): return kind in('I','O','PI','PO','E','E2')
# one program asks the compiler for each form and type whether the call is well formed
def probe():
    src=PRE+'#include <cstdio>\n'; body=''
    for i,(kind,x) in enumerate(F):
        ok,no=lists(kind); src+=('template<class R> concept f%d=requires{ %s; };\n' if not isref(kind) else 'template<class T> concept f%d=requires(std::add_lvalue_reference_t<T> X){ %s; };\n')%(i,x)
        body+=' {static const bool v[]={%s}; printf("%d"); for(bool y:v)printf(" %%d",y); puts("");}\n'%(','.join('f%d<%s>'%(i,t) for t in ok+no),i)
    return src+'int main(){\n'+body+'}\n'
def snippet(i,t,j=0):
    kind,x=F[i]
    return ('void u%d_%d(std::add_lvalue_reference_t<%s> X){ (void)(%s); }\n'%(i,j,t,x)) if isref(kind) else 'void u%d_%d(){ using R=%s; (void)(%s); }\n'%(i,j,t,x.replace('template ',''))
def check(c):
    d=os.path.join(c.tmp,'p30'); os.makedirs(d); inc=['-I'+vf.SRC,'-DMILO_INTERNAL_ASM=true','-DMILO_INTERNAL_ABI_UNIX=true','-w']; cxxs=['g++']+(['clang++'] if c.thorough else [])
    for cxx in cxxs:
        n=0; w=os.path.join(d,cxx); os.makedirs(w)
        open(w+'/pre.h','w').write('#pragma once\n'+PRE); 
        pch=c.sh([cxx,'-std=c++20',*inc,'-x','c++-header',w+'/pre.h','-o',w+'/pre.h.'+('gch' if cxx=='g++' else 'pch')],timeout=300)
        if pch.returncode: c.violation('the headers of the library do not compile together with objects of every group',pch.stderr.decode(errors='replace')[:4000],'headers'); break
        use=['-include',w+'/pre.h'] if cxx=='g++' else ['-include-pch',w+'/pre.h.pch']
        def comp(src,name):
            p=os.path.join(w,name+'.cpp'); open(p,'w').write(src); r=c.sh([cxx,'-std=c++20',*inc,*use,'-S','-o','/dev/null',p],timeout=300); os.unlink(p); return r
        open(w+'/probe.cpp','w').write(probe()); pr=c.pool.submit(lambda:c.sh([cxx,'-std=c++20',*inc,w+'/probe.cpp','-c','-o',w+'/probe.o','-ftemplate-depth=2000'],timeout=800))
        # what must be accepted: whole bodies, all types of a form in one program
        pos=[c.pool.submit(comp,''.join(snippet(i,t,j) for j,t in enumerate(lists(F[i][0])[0])),'pos%d'%i) for i in range(len(F))]
        for i,p in enumerate(pos):
            r=p.result(); ok=lists(F[i][0])[0]; n+=len(ok)
            if r.returncode:
                one=[t for t in ok if comp(snippet(i,t),'one').returncode]
                c.violation('%s: a call with a documented type does not compile: %s with %s'%(cxx,F[i][1],', '.join(one) or 'all of them together'),r.stderr.decode(errors='replace')[:4000],'accept%d'%i)
        r=pr.result()
        if r.returncode: raise vf.BuildError('probe: '+r.stderr.decode(errors='replace')[:4000])
        r=c.sh([cxx,'-o',w+'/probe',w+'/probe.o',*c.asm()],timeout=100)
        if r.returncode: raise vf.BuildError('probe: '+r.stderr.decode(errors='replace')[:4000])
        hard=[]; soft=0
        for l in c.sh([w+'/probe'],timeout=60).stdout.decode().splitlines():
            v=[int(y) for y in l.split()]; i=v[0]; ok,no=lists(F[i][0])
            for t,y in zip(ok,v[1:]):
                if not y: c.violation('%s: a call with a documented type is not well formed: %s with %s'%(cxx,F[i][1],t),'concept check','accept%d'%i)
            for t,y in zip(no,v[1+len(ok):]):
                if y: hard.append((i,t))
                else: soft+=1
        n+=soft; res=[c.pool.submit(comp,snippet(i,t),'neg%d'%x) for x,(i,t) in enumerate(hard)]
        for (i,t),p in zip(hard,res):
            r=p.result(); n+=1
            if r.returncode==0: c.violation('%s: a call that must not compile is accepted: %s with %s'%(cxx,F[i][1],t),'',"reject%d"%i)
        print('[%s] %d forms, %d combinations accepted as they must, %d rejected by constraints, %d rejected in bodies'%(cxx,len(F),sum(len(lists(k)[0]) for k,_ in F),soft,len(hard)))
        c.count('types with '+cxx,n)
    return c.finish(rule='a call compiles exactly when its types are documented ones: bytes in, writable bytes out, results that can hold the output, algorithms of the right kind, errors by reference',
        bounds='%d forms of calls x every type of the lists in checks/P30.py for the place that varies (others fixed)'%len(F))
