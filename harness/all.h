// everything of milo, with the reference model id and the processor needs of each type
#pragma once
#include <milo/internal.h>
#include <milo/error.h>
#include <milo/container.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>
#include <cpuid.h>
#include "ref.h"
#include "mc.h"
namespace P=milo::primitive;
struct Cpu{ bool ssse3=false,avx=false,avx2=false,sha=false; Cpu(){ unsigned a,b,c,d; if(__get_cpuid(1,&a,&b,&c,&d)){ssse3=c>>9&1; bool os=c>>27&1; if(os){unsigned x,y;asm volatile("xgetbv":"=a"(x),"=d"(y):"c"(0)); avx=(c>>28&1)&&(x&6)==6;}} if(__get_cpuid_count(7,0,&a,&b,&c,&d)){avx2=avx&&(b>>5&1);sha=b>>29&1;} } };
inline const Cpu&cpu(){static Cpu c;return c;}
enum Need{ANY,NEED_SHA1,NEED_SHA2,NEED_SSSE3,NEED_AVX2};
inline bool have(int n){switch(n){case NEED_SHA1:return cpu().sha&&cpu().ssse3;case NEED_SHA2:return cpu().sha&&cpu().ssse3&&cpu().avx;case NEED_SSSE3:return cpu().ssse3;case NEED_AVX2:return cpu().avx2;}return true;}
// X(suffix, reference id, need)
#define HASHES_AUTO(X) X(sha_1_160,ref::SHA1,ANY) X(sha_2_224,ref::SHA224,ANY) X(sha_2_256,ref::SHA256,ANY) X(sha_2_384,ref::SHA384,ANY) X(sha_2_512,ref::SHA512,ANY) X(sha_2_512_224,ref::SHA512_224,ANY) X(sha_2_512_256,ref::SHA512_256,ANY)
#define HASHES_SW(X) X(sha_1_160_sw,ref::SHA1,ANY) X(sha_2_224_sw,ref::SHA224,ANY) X(sha_2_256_sw,ref::SHA256,ANY) X(sha_2_384_sw,ref::SHA384,ANY) X(sha_2_512_sw,ref::SHA512,ANY) X(sha_2_512_224_sw,ref::SHA512_224,ANY) X(sha_2_512_256_sw,ref::SHA512_256,ANY)
#define HASHES_HW(X) X(sha_1_160_hw_x86_64_ni,ref::SHA1,NEED_SHA1) X(sha_2_224_hw_x86_64_ni,ref::SHA224,NEED_SHA2) X(sha_2_256_hw_x86_64_ni,ref::SHA256,NEED_SHA2)
#define HASHES(X) HASHES_AUTO(X) HASHES_SW(X) HASHES_HW(X)
#define CIPHERS(X) X(chacha_20,0,ANY) X(chacha_20_sw,0,ANY) X(chacha_20_hw_x86_64_ssse_3,0,NEED_SSSE3) X(chacha_20_hw_x86_64_avx_2,0,NEED_AVX2)
// zeroed storage, so that the bytes of an object are a function of its history alone
template<class T> struct Box{ alignas(64) unsigned char mem[sizeof(T)]; T*p;
  Box(){memset(mem,0,sizeof mem);p=new(mem)T;} Box(const Box&o){memset(mem,0,sizeof mem);p=new(mem)T(*o.p);} Box&operator=(const Box&o){*p=*o.p;return *this;} ~Box(){p->~T();}
  T*operator->(){return p;} T&operator*(){return *p;} uint64_t key()const{return mc::h64(mem,sizeof mem);} };
using ref::B;
// sizes around every power of two of a range: counters, thresholds and paths chosen by size
inline std::vector<size_t> wide(int lo,int hi){ std::vector<size_t> r; for(int k=lo;k<=hi;k++)for(size_t d:{size_t(-1),size_t(0),size_t(1),(size_t(1)<<(k-1))+5})r.push_back((size_t(1)<<k)+d); return r; }
