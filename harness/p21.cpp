// P21: verification takes the same steps whatever the tags are
#include "aeads.h"
#include "trace.h"
#include <array>
#include <span>
#include <cxxabi.h>
using mc::Ctx; using milo::error;
// what is thrown is not part of the comparison: stepping ends where an exception is allocated (the allocator has a history of its own)
extern "C" void*__real___cxa_allocate_exception(size_t);
extern "C" void __real___cxa_throw(void*,void*,void(*)(void*)) __attribute__((noreturn)); static bool inside=false;
extern "C" __attribute__((noreturn)) void __wrap___cxa_throw(void*a,void*b,void(*c)(void*)){ if(inside){TRACE_OFF;} __real___cxa_throw(a,b,c); }
extern "C" void*__wrap___cxa_allocate_exception(size_t n){ if(inside){TRACE_OFF;} return __real___cxa_allocate_exception(n); }
template<class T> struct V{ using A=P::aead::apie<T>; 
  // object, tag and error live at fixed addresses
  static A&obj(){ static A a; return a; } static uint8_t*tag(){ alignas(64) static uint8_t t[512]; return t; }
  enum{PTR,PTRT,ARR,ARRT,SPAN,VEC,ONE,ONET,FORMS};
  static const char*name(int f){static const char*n[]={"verify(ptr,size,error)","verify(ptr,size)","verify(array,error)","verify(array)","verify(span,error)","verify(vector,error)","decrypt(...,error)","decrypt(...)"};return n[f];}
  static B k,n,a,c,t; static size_t z; static int form; static bool rejected,warm; static std::vector<uint8_t>*vec;
  static void go(){ static uint8_t out[600]; static error e; A&o=obj(); inside=true; 
    switch(form){ case PTR:o.verify((const uint8_t*)tag(),z,e);rejected=bool(e);break; case PTRT:try{o.verify((const uint8_t*)tag(),z);rejected=false;}catch(const error&){rejected=true;}break; case ARR:o.verify(*(std::array<uint8_t,16>*)tag(),e);rejected=bool(e);break; case ARRT:try{o.verify(*(std::array<uint8_t,16>*)tag());rejected=false;}catch(const error&){rejected=true;}break; case SPAN:o.verify(std::span<const uint8_t>(tag(),z),e);rejected=bool(e);break; case VEC:o.verify(*vec,e);rejected=bool(e);break;
     case ONE:P::aead::decrypt<T>(k.data(),32,n.data(),12,a.data(),a.size(),c.data(),c.size(),(const uint8_t*)tag(),z,out,e);rejected=bool(e);break; default:try{P::aead::decrypt<T>(k.data(),32,n.data(),12,a.data(),a.size(),c.data(),c.size(),(const uint8_t*)tag(),z,out);rejected=false;}catch(const error&){rejected=true;} } inside=false; }
  // the object as it is after decryption of data number d (other keys and data, same sizes)
  static void load(int d,size_t al,size_t cl){ static int ld=-1;static size_t la=0,lc=0; static B r[4]; { B kk=akey(d),nn=anonce(d); if(k.empty()){k=B(32);n=B(12);} std::copy(kk.begin(),kk.end(),k.begin()); std::copy(nn.begin(),nn.end(),n.begin()); } B ad=ref::pattern(al,500+d),ct=ref::pattern(cl,600+d); if(a.size()!=al)a=B(al);if(c.size()!=cl)c=B(cl); std::copy(ad.begin(),ad.end(),a.begin());std::copy(ct.begin(),ct.end(),c.begin()); static B tt;tt=ref::aead_tag(k,n,a,c);t=tt; }
  static void arm(){ alignas(64) static uint8_t out[600]; A&o=obj(); o.initialize(k.data(),32,n.data(),12); o.aad(a.data(),a.size()); o.decrypt(c.data(),c.size(),out); }
  // one run; the trace is compared with the first one of its class (size of the tag, accepted or not)
  static void set(const B&s){ memset(tag(),0,512); if(!s.empty())memcpy(tag(),s.data(),s.size()); z=s.size(); if(form==VEC){ if(vec->size()!=z)vec->resize(z); if(z)memcpy(vec->data(),s.data(),z);} }
  static void first(Ctx&C,const B&s,bool rej){ arm();set(s); go(); if(!warm)arm();set(s); size_t st=trace::first(go); if(!st||trace::overflow)C.fail("no trace"); if(rejected!=rej)C.fail("%s: wrong outcome",name(form)); C.eval(); C.tr(long(st)); }
  static void next(Ctx&C,const char*nm,const B&s,bool rej,const char*what,long x=0,long y=0){ C.at(form,x,y); if(!warm)arm();set(s); bool same=trace::again(go); if(rejected!=rej)C.fail("%s: %s: %s (%ld,%ld) was %s",nm,name(form),what,x,y,rejected?"rejected":"accepted"); C.eval(); C.tr(long(trace::nref)); if(!same){ char d[400];trace::describe(d,400); C.fail("%s: %s takes other steps for a tag with %s (%ld, %ld): %s",nm,name(form),what,x,y,d); } C.out(mc::h64(s.data(),s.size())); }
};
template<class T> B V<T>::k; template<class T> B V<T>::n; template<class T> B V<T>::a; template<class T> B V<T>::c; template<class T> B V<T>::t; template<class T> size_t V<T>::z; template<class T> int V<T>::form; template<class T> bool V<T>::rejected; template<class T> bool V<T>::warm=false; template<class T> std::vector<uint8_t>*V<T>::vec=new std::vector<uint8_t>(16);
static const size_t SZ[][2]={{0,0},{5,33}};
// supplied tags: every single bit, every value of every byte, pairs, subsets of wrong bytes; the first trace is that of a tag with everything wrong
#ifdef LIGHT
static const bool LT=true;
#else
static const bool LT=false;
#endif
// parts: 0 every form, a verification of an object that has just decrypted; 1.. repeated verifications with many more tags
template<class T> static void tags(Ctx&C,const char*nm,int form,int part,int sub){ using W=V<T>; W::form=form; W::warm=part>0; bool th=mc::thorough(); const int L=th?1:LT?4:1; W::load(0,5,33); B g=W::t,all=g; for(auto&x:all)x^=0x55; W::first(C,all,true); auto go=[&](B t,const char*w,long x=0,long y=0){ if(t!=g)W::next(C,nm,t,true,w,x,y); };
  if(part==0)for(int b=0;b<128;b+=L){B t=g;t[b/8]^=1<<b%8;go(t,"one wrong bit",b);t=all;t[b/8]=g[b/8];go(t,"one right byte",b);} if(part==0){ for(int p=0;p<=16;p++){B t=all;for(int i=0;i<p;i++)t[i]=g[i];go(t,"right bytes at the front",p);t=g;for(int i=0;i<p;i++)t[i]=all[i];go(t,"wrong bytes at the front",p);} for(int v=0;v<256;v+=5*L)go(B(16,v),"one value everywhere",v); }
  if(part==1)for(int p=sub;p<16;p+=8)for(int v=0;v<256;v+=(th?1:3*L)){B t=g;t[p]=v;go(t,"one byte of another value",p,v);}
  if(part==2)for(int x=sub;x<128;x+=8)for(int y=0;y<x;y+=(th?1:7*L)){B t=g;t[x/8]^=1<<x%8;t[y/8]^=1<<y%8;go(t,"two wrong bits",x,y);}
  if(part==3)for(int m=1+sub;m<65536;m+=(th?8:8*13*L)){B t=g;for(int i=0;i<16;i++)if(m>>i&1)t[i]^=0x80>>(i%8);go(t,"a subset of wrong bytes",m);}
  // accepted ones: all computed tags of the same sizes
  if(part==0){ W::first(C,g,false); for(int d=1;d<(th?200:LT?8:24);d++){ W::load(d,5,33); B t=W::t; W::next(C,nm,t,false,"the right value, other data",d); } W::load(0,5,33); W::first(C,all,true); for(int d=1;d<(th?200:LT?8:24);d++){ W::load(d,5,33); W::next(C,nm,all,true,"the value of other data",d); B t=W::t;t[d%16]^=1;W::next(C,nm,t,true,"one wrong bit, other data",d); t=W::t;t[15-d%16]^=0x80;W::next(C,nm,t,true,"one wrong bit, other data",d);} }
  C.sample("%s: %s, part %d",nm,W::name(W::form),part); C.state(mc::mix(trace::nref,mc::mix(W::form,part))); W::warm=false; }
// every size of the tag: contents make no difference
template<class T> static void sizes(Ctx&C,const char*nm,int part){ using W=V<T>; W::form=part%3==0?W::PTR:part%3==1?W::PTRT:W::VEC; W::load(1,0,0); B g=W::t; g.resize(300,0x77); for(size_t n=part;n<=(mc::thorough()?280u:LT?24u:40u);n+=9){ if(n==16)continue; B r(g.begin(),g.begin()+n),w=r; for(auto&x:w)x^=0xaa; if(W::form==W::VEC){delete W::vec;W::vec=new std::vector<uint8_t>(n);} W::first(C,w,true); W::next(C,nm,r,true,"right bytes, another size",n); for(size_t p=0;p<n;p+=(n>64?7:LT&&!mc::thorough()?6:2)){B t=r;t[p]^=1;W::next(C,nm,t,true,"one wrong bit, another size",n,p);t=w;t[p]=r[p];W::next(C,nm,t,true,"one right byte, another size",n,p);} W::next(C,nm,B(n,0),true,"zeros, another size",n); W::next(C,nm,B(n,0xff),true,"ones, another size",n); } if(W::form==W::VEC){delete W::vec;W::vec=new std::vector<uint8_t>(16);} C.sample("%s: %s, sizes",nm,W::name(W::form)); }
// whole one-line decryption
template<class T> static void oneline(Ctx&C,const char*nm,int part){ using W=V<T>; W::form=part&1?W::ONE:W::ONET; auto s=SZ[part/2]; W::load(0,s[0],s[1]); B g=W::t,all=g;for(auto&x:all)x^=0x33; W::first(C,all,true); for(int b=0;b<128;b+=(mc::thorough()?1:LT?16:5)){B t=g;t[b/8]^=1<<b%8;W::next(C,nm,t,true,"one wrong bit",b);} for(int d=1;d<(mc::thorough()?60:LT?3:8);d++){W::load(d,s[0],s[1]);W::next(C,nm,g,true,"the value of other data",d);B t=W::t;t[d%16]^=4;W::next(C,nm,t,true,"one wrong bit, other data",d);} W::load(0,s[0],s[1]);W::first(C,g,false);for(int d=1;d<(mc::thorough()?60:LT?3:8);d++){W::load(d,s[0],s[1]);B t=W::t;W::next(C,nm,t,false,"right value, other data",d);} C.sample("%s: %s",nm,W::name(W::form)); }
using T0=P::aead_chacha_20_poly_1305; using T1=P::aead_chacha_20_sw_poly_1305_sw;
MC_SUITE(tags){ int c=C.choose(36); if(c<6)tags<T0>(C,"aead",c,0,0); else if(c<12)tags<T1>(C,"aead_sw",c-6,0,0); else { c-=12; int f=mc::thorough()?C.choose(2)*V<T0>::VEC:0; tags<T0>(C,"aead",f,1+c%3,c/3); } }
MC_SUITE(sizes){ int c=C.choose(9); sizes<T0>(C,"aead",c); }
MC_SUITE(oneline){ int c=C.choose(8); if(c<4)oneline<T0>(C,"aead",c); else oneline<T1>(C,"aead_sw",c-4); }
int main(int c,char**v){return mc::main(c,v);}
