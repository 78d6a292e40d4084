// P29: the memory layer against a byte model of a machine of the byte order this file is compiled for
#include "mc.h"
#include <bit>
#include <milo/internal.h>
namespace I=milo::internal;
static constexpr bool BIG=std::endian::native==std::endian::big;
template<class T> using U=std::make_unsigned_t<T>;
// the bytes of an array of numbers, as this machine lays them out
template<class T> void put(const T*p,size_t n,uint8_t*b){ for(size_t i=0;i<n;i++)for(size_t k=0;k<sizeof(T);k++)b[i*sizeof(T)+k]=uint8_t(uint64_t(U<T>(p[i]))>>(8*(BIG?sizeof(T)-1-k:k))); }
template<class T> T get(const uint8_t*b,bool big=BIG){ uint64_t v=0; for(size_t k=0;k<sizeof(T);k++)v|=uint64_t(b[k])<<(8*(big?sizeof(T)-1-k:k)); return T(v); }
template<class T> void from(T*p,size_t n,const uint8_t*b){ for(size_t i=0;i<n;i++)p[i]=get<T>(b+i*sizeof(T)); }
static const int PAT=12; static uint8_t pat(int s,size_t i){ switch(s){case 0:return 0;case 1:return 0xff;case 2:return 0x80;case 3:return uint8_t(i+1);case 4:return uint8_t(0xf0-i);case 5:return i&1?0xff:0;default:{uint32_t x=uint32_t(i*2654435761u+s*40503u);x^=x>>13;x*=0x9E3779B1u;return uint8_t(x>>19);}} }
static const size_t N=32;
struct Mem{ uint8_t b[N]; explicit Mem(int s){ for(size_t i=0;i<N;i++)b[i]=pat(s,i); } };
template<class T> const char*nm(){ return sizeof(T)==1?(std::is_signed_v<T>?"s8":"u8"):sizeof(T)==2?(std::is_signed_v<T>?"s16":"u16"):sizeof(T)==4?(std::is_signed_v<T>?"s32":"u32"):(std::is_signed_v<T>?"s64":"u64"); }
template<class V,class Pt> void words(mc::Ctx&C){
  for(int s=0;s<PAT;s++){ Mem m(s); Pt p[N/sizeof(Pt)]; from(p,N/sizeof(Pt),m.b); constexpr size_t R=sizeof(V)/sizeof(Pt)?sizeof(V)/sizeof(Pt):1;
    for(size_t o=0;o<N/sizeof(V);o++){ const uint8_t*at=m.b+o*sizeof(V); C.at(s,long(o)); auto bad=[&](const char*w,long z){C.fail("%s of a %s %s %s numbers, offset %zu, size %ld, pattern %d",w,nm<V>(),w[0]=='l'?"from":"into",nm<Pt>(),o,z,s);};
      if(I::memory_load<V>(p,o)!=get<V>(at))bad("load",-1); if(I::memory_load_be<V>(p,o)!=get<V>(at,true))bad("load_be",-1); if(I::memory_load_le<V>(p,o)!=get<V>(at,false))bad("load_le",-1);
      for(size_t z=0;z<=R+1;z++){ uint8_t t[8]={}; memcpy(t,at,std::min(sizeof(V),z*sizeof(Pt))); if(I::memory_load<V>(p,o,z)!=get<V>(t))bad("load",long(z)); if(I::memory_load_be<V>(p,o,z)!=get<V>(t,true))bad("load_be",long(z)); if(I::memory_load_le<V>(p,o,z)!=get<V>(t,false))bad("load_le",long(z)); }
      for(int s2=0;s2<PAT;s2++){ uint8_t vb[8]; for(int k=0;k<8;k++)vb[k]=pat(s2,k+3); for(int kind=0;kind<3;kind++){ V v=get<V>(vb,kind?kind==1:BIG); 
        for(size_t z=0;z<=R+2;z++){ bool full=z==R+2; Pt q[N/sizeof(Pt)]; memcpy(q,p,sizeof q); uint8_t e[N],g[N]; memcpy(e,m.b,N); memcpy(e+o*sizeof(V),vb,full?sizeof(V):std::min(sizeof(V),z*sizeof(Pt)));
          if(full){ if(kind==0)I::memory_stor(q,o,v); else if(kind==1)I::memory_stor_be(q,o,v); else I::memory_stor_le(q,o,v); } else { if(kind==0)I::memory_stor(q,o,v,z); else if(kind==1)I::memory_stor_be(q,o,v,z); else I::memory_stor_le(q,o,v,z); }
          put(q,N/sizeof(Pt),g); C.eval(); if(memcmp(g,e,N)){ C.at(s,long(o),s2,long(z)); bad(kind==0?"stor":kind==1?"stor_be":"stor_le",full?-1:long(z)); } } } }
      C.eval(3*R+6); C.out(m.b,N); } } }
template<class V> void words_(mc::Ctx&C,int k){ switch(k){case 0:return words<V,uint8_t>(C);case 1:return words<V,uint16_t>(C);case 2:return words<V,uint32_t>(C);case 3:return words<V,uint64_t>(C);case 4:return words<V,char>(C);case 5:return words<V,int32_t>(C);} }
MC_SUITE(words){ int v=C.choose(6),p=C.choose(6); switch(v){case 0:words_<uint8_t>(C,p);break;case 1:words_<uint16_t>(C,p);break;case 2:words_<uint32_t>(C,p);break;case 3:words_<uint64_t>(C,p);break;case 4:words_<signed char>(C,p);break;case 5:words_<int64_t>(C,p);break;} C.tr(); }
// whole arrays: every size in bytes
template<class D,class S> void arrays(mc::Ctx&C){ constexpr size_t ND=N/sizeof(D),NS=N/sizeof(S);
  for(int s=0;s<PAT;s++)for(size_t n=0;n<=N;n++){ C.at(s,long(n)); Mem m(s),w((s+5)%PAT),x((s+3)%PAT); S src[NS],sx[NS]; D dst[ND]; from(src,NS,m.b); from(sx,NS,x.b); uint8_t e[N],g[N]; auto bad=[&](const char*what){C.fail("%s, %s numbers to %s numbers, %zu bytes, pattern %d",what,nm<S>(),nm<D>(),n,s);};
    from(dst,ND,w.b); I::memory_copy(dst,src,n); put(dst,ND,g); memcpy(e,w.b,N); memcpy(e,m.b,n); if(memcmp(e,g,N))bad("copy");
    from(dst,ND,w.b); I::memory_xor(dst,src,sx,n); put(dst,ND,g); memcpy(e,w.b,N); for(size_t i=0;i<n;i++)e[i]=m.b[i]^x.b[i]; if(memcmp(e,g,N))bad("xor");
    from(dst,ND,w.b); I::memory_set(dst,pat(s,7),n); put(dst,ND,g); memcpy(e,w.b,N); memset(e,pat(s,7),n); if(memcmp(e,g,N))bad("set");
    from(dst,ND,m.b); for(size_t f=0;f<=N;f++){ uint8_t z[N]; memcpy(z,m.b,N); if(f<N)z[f]^=uint8_t(1u<<(f+s)%8); D dz[ND]; from(dz,ND,z); bool eq=f>=n; if(I::memory_equal(dz,src,n)!=eq)bad("equal"); if(I::memory_match(dz,src,n)!=eq)bad("match"); C.eval(2); }
    if constexpr(sizeof(D)==1){ for(int big=0;big<2;big++){ from(dst,ND,w.b); if(big)I::memory_copy_be(dst,src,n); else I::memory_copy_le(dst,src,n); put(dst,ND,g); memcpy(e,w.b,N); uint8_t f[N]; for(size_t i=0;i<NS;i++)for(size_t k=0;k<sizeof(S);k++)f[i*sizeof(S)+k]=uint8_t(uint64_t(U<S>(src[i]))>>(8*(big?sizeof(S)-1-k:k))); memcpy(e,f,n); if(memcmp(e,g,N))bad(big?"copy_be":"copy_le"); } }
    if(n%sizeof(S)==0)for(int k=0;k<3;k++)for(size_t d=0;d<=ND;d++){ from(dst,ND,w.b); if(k==0)I::memory_init(dst,d,src,n/sizeof(S)); else if(k==1)I::memory_init_be(dst,d,src,n/sizeof(S)); else I::memory_init_le(dst,d,src,n/sizeof(S)); uint8_t z[N]={}; memcpy(z,m.b,n); C.eval(); for(size_t i=0;i<ND;i++){ D want=i<d?get<D>(z+i*sizeof(D),k?k==1:BIG):get<D>(w.b+i*sizeof(D)); if(dst[i]!=want)bad(k==0?"init":k==1?"init_be":"init_le"); } }
    from(dst,ND,w.b); I::memory_zero(dst,n/sizeof(D)); put(dst,ND,g); memcpy(e,w.b,N); memset(e,0,n/sizeof(D)*sizeof(D)); if(memcmp(e,g,N))bad("zero"); from(dst,ND,w.b); I::memory_erase(dst,n/sizeof(D)); put(dst,ND,g); if(memcmp(e,g,N))bad("erase");
    C.eval(5); C.out(g,N); } }
template<class D> void arrays_(mc::Ctx&C,int k){ switch(k){case 0:return arrays<D,uint8_t>(C);case 1:return arrays<D,uint16_t>(C);case 2:return arrays<D,uint32_t>(C);case 3:return arrays<D,uint64_t>(C);} }
MC_SUITE(arrays){ int d=C.choose(4),s=C.choose(4); switch(d){case 0:arrays_<uint8_t>(C,s);break;case 1:arrays_<uint16_t>(C,s);break;case 2:arrays_<uint32_t>(C,s);break;case 3:arrays_<uint64_t>(C,s);break;} C.tr(); }
// swapping: every 16-bit number, every byte at every place of wider ones
template<class T> void swaps(mc::Ctx&C,T v){ uint8_t b[8]; for(size_t k=0;k<sizeof(T);k++)b[k]=uint8_t(uint64_t(U<T>(v))>>(8*k)); T r=get<T>(b,true); if(I::endian_swap(v)!=r||I::endian_bigof(v)!=(BIG?v:r)||I::endian_littleof(v)!=(BIG?r:v))C.fail("swapping %llx as %s",(unsigned long long)U<T>(v),nm<T>()); C.eval(3); C.out(uint64_t(r)); }
MC_SUITE(swap){ int k=C.choose(8); for(int x=0;x<65536;x++){ C.at(x); uint64_t v=uint64_t(x&255)<<(8*k)|uint64_t(x>>8)<<(8*((k+3)%8)); swaps<uint16_t>(C,uint16_t(x)); swaps<int16_t>(C,int16_t(x)); swaps<uint32_t>(C,uint32_t(v)); swaps<int32_t>(C,int32_t(v)); swaps<uint64_t>(C,v); swaps<int64_t>(C,int64_t(v)); swaps<uint8_t>(C,uint8_t(x)); } C.tr(); }
int main(int c,char**v){return mc::main(c,v);}
