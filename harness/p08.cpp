// P08: verification accepts exactly the right tag
#include "aeads.h"
#include <string>
#include <vector>
#include <array>
#include <span>
#include <string_view>
using mc::Ctx; namespace ct=milo::container; using milo::error;
struct In{B k,n,a,c,t;};
// outcome: 0 accepted, 1 rejected with aead_verify, 2 anything else
static int code(const error&e){ return !e?0:e==error::aead_verify?1:2; }
#ifdef MC_M32
template<class F> static int thrown(F f){ auto*e=(const error*)m32_try(f); return !e?0:code(*e)==1?1:2; }
#else
template<class F> static int thrown(F f){ try{f();return 0;}catch(const error&e){return code(e)==1?1:2;}catch(...){return 2;} }
#endif
static const uint8_t NUL=0; static const uint8_t*D(const B&b){return b.empty()?&NUL:b.data();}
template<class T> struct Forms{
  using A=P::aead::apie<T>;
  static const int N=20;
  static const char*name(int f){static const char*n[]={"verify(ptr,size,error)","verify(ptr,size)","verify(vector,error)","verify(vector)","verify(string,error)","verify(span)","verify(string_view,error)","verify(array<16>)","decrypt(ptr...,error)","decrypt(ptr...)","decrypt(container...,error) into vector","decrypt(container...) into vector","decrypt(container...,error) into array","decrypt(container...) into array","decrypt<string>(container...,error)","decrypt<string>(container...)","decrypt(char ptr...,error)","verify(ptr) of an object given data in parts","verify(array<15>,error)","verify(array<17>)"};return n[f];}
  static bool fits(int f,const In&i){ size_t t=i.t.size(); if(f==7)return t==16; if(f==18)return t==15; if(f==19)return t==17; return true; }
  static int run(Ctx&C,int f,const In&i,int prior){ error e; if(prior==1)e=error(error::size); if(prior==2)e=error(error::aead_verify); B pt(i.c.size()+1,0xd1); std::string ts(i.t.begin(),i.t.end());
    auto obj=[&](int parts){ A o; o.initialize(i.k.data(),32,i.n.data(),12); if(parts){size_t h=i.a.size()/2;o.aad(D(i.a),h);o.aad(D(i.a)+h,i.a.size()-h);size_t g=i.c.size()/3;o.decrypt(D(i.c),g,pt.data());o.decrypt(D(i.c)+g,i.c.size()-g,pt.data()+g);} else {o.aad(D(i.a),i.a.size());o.decrypt(D(i.c),i.c.size(),pt.data());} return o; };
    int r=2; switch(f){
    case 0:{A o=obj(0);o.verify(i.t.data(),i.t.size(),e);r=code(e);break;}
    case 1:{A o=obj(0);r=thrown([&]{o.verify(i.t.data(),i.t.size());});break;}
    case 2:{A o=obj(0);o.verify(i.t,e);r=code(e);break;}
    case 3:{A o=obj(0);r=thrown([&]{o.verify(i.t);});break;}
    case 4:{A o=obj(0);o.verify(ts,e);r=code(e);break;}
    case 5:{A o=obj(0);r=thrown([&]{o.verify(std::span<const uint8_t>(i.t.data(),i.t.size()));});break;}
    case 6:{A o=obj(0);o.verify(std::string_view(ts),e);r=code(e);break;}
    case 7:{A o=obj(0);std::array<uint8_t,16> t;std::copy(i.t.begin(),i.t.end(),t.begin());r=thrown([&]{o.verify(t);});break;}
    case 8:{size_t n=P::aead::decrypt<T>(i.k.data(),32,i.n.data(),12,D(i.a),i.a.size(),D(i.c),i.c.size(),D(i.t),i.t.size(),pt.data(),e);if(n!=i.c.size())return 2;r=code(e);break;}
    case 9:r=thrown([&]{P::aead::decrypt<T>(i.k.data(),32,i.n.data(),12,D(i.a),i.a.size(),D(i.c),i.c.size(),D(i.t),i.t.size(),pt.data());});break;
    case 10:{B o(5,1);P::aead::decrypt<T>(i.k,i.n,i.a,i.c,i.t,o,e);pt=o;r=code(e);break;}
    case 11:{B o(5,1);r=thrown([&]{P::aead::decrypt<T>(i.k,i.n,i.a,i.c,i.t,o);});pt=o;break;}
    case 12:{std::array<uint8_t,300> o;o.fill(0xd1);P::aead::decrypt<T>(i.k,i.n,i.a,i.c,i.t,o,e);pt=B(o.begin(),o.end());r=code(e);break;}
    case 13:{std::array<uint8_t,300> o;o.fill(0xd1);r=thrown([&]{P::aead::decrypt<T>(i.k,i.n,i.a,i.c,i.t,o);});pt=B(o.begin(),o.end());break;}
    case 14:{std::string o=P::aead::decrypt<T,std::string>(i.k,i.n,i.a,i.c,i.t,e);pt=B(o.begin(),o.end());r=code(e);break;}
    case 15:{std::string o;r=thrown([&]{o=P::aead::decrypt<T,std::string>(i.k,i.n,i.a,i.c,i.t);});pt=B(o.begin(),o.end());break;}
    case 16:{P::aead::decrypt<T>((const char*)i.k.data(),32,(const char*)i.n.data(),12,(const char*)D(i.a),i.a.size(),(const char*)D(i.c),i.c.size(),(const char*)D(i.t),i.t.size(),(char*)pt.data(),e);r=code(e);break;}
    case 17:{A o=obj(1);r=thrown([&]{o.verify(i.t.data(),i.t.size());});break;}
    case 18:{A o=obj(0);std::array<char,15> t;std::copy(i.t.begin(),i.t.end(),t.begin());o.verify(t,e);r=code(e);break;}
    case 19:{A o=obj(0);std::array<char,17> t;std::copy(i.t.begin(),i.t.end(),t.begin());r=thrown([&]{o.verify(t);});break;}
    }
    if(r==0&&i.c.size()){ B x=ref::aead_seal(i.k,i.n,i.c); if(pt.size()<x.size()||memcmp(pt.data(),x.data(),x.size()))C.fail("%s: accepted but the plaintext is wrong",name(f)); }
    return r; }
};
template<class T> static void expect(Ctx&C,const char*nm,const In&i,bool good,const char*what,long a=0,long b=0,bool all=true){ for(int f=0;f<Forms<T>::N;f++){ if(!Forms<T>::fits(f,i)||!all&&f!=0&&f!=9)continue; for(int p=0;p<(f%2?1:3);p++){ C.at(f,p,a,b); int r=Forms<T>::run(C,f,i,p); if(r!=(good?0:1))C.fail("%s: %s, prior error %d: %s (%ld,%ld) was %s; tag %s",nm,Forms<T>::name(f),p,what,a,b,r==0?"accepted":r==1?"rejected":"answered with another error",ref::tohex(i.t).c_str()); C.eval(); if(!all)break; } } C.out(mc::mix(mc::h64(what,strlen(what)),a*1000+b)); }
static In make(size_t a,size_t t,int salt=0){ In i{akey(salt),anonce(salt),pre(aad0(),a),{},{}}; i.c=ref::aead_seal(i.k,i.n,pre(pt0(),t)); i.t=ref::aead_tag(i.k,i.n,i.a,i.c); return i; }
static const size_t SZ[][2]={{0,0},{1,0},{0,1},{13,45},{16,64},{33,130}};
// every single bit of every input
template<class T> static void bits(Ctx&C,const char*nm,int part){ In g=make(SZ[part][0],SZ[part][1]); expect<T>(C,nm,g,true,"genuine"); for(int w=0;w<5;w++){ size_t n=(w==0?g.k:w==1?g.n:w==2?g.a:w==3?g.c:g.t).size(); for(size_t b=0;b<n*8;b++){ In i=g; B&x=w==0?i.k:w==1?i.n:w==2?i.a:w==3?i.c:i.t; x[b/8]^=1<<(b%8); static const char*wn[]={"key bit","nonce bit","aad bit","ciphertext bit","tag bit"}; expect<T>(C,nm,i,false,wn[w],long(b),w,w==4||b%8==b/8%8||mc::thorough()); } }
  // sizes: cut or extended data
  for(int w=2;w<4;w++)for(int d:{-1,1}){ In i=g; B&x=w==2?i.a:i.c; if(d<0&&x.empty())continue; if(d<0)x.pop_back();else x.push_back(0); expect<T>(C,nm,i,false,"aad or ciphertext length",w,d); }
  if(g.a.size()&&g.c.size()){ In i=g; i.c.insert(i.c.begin(),i.a.back()); i.a.pop_back(); expect<T>(C,nm,i,false,"byte moved from aad to text"); i=g; i.a.push_back(i.c[0]); i.c.erase(i.c.begin()); expect<T>(C,nm,i,false,"byte moved from text to aad"); std::swap(i.a,i.c); expect<T>(C,nm,i,false,"aad and text exchanged"); }
  C.sample("%s: every bit of key, nonce, %zu bytes aad, %zu bytes text, tag",nm,g.a.size(),g.c.size()); }
// every tag length, cut and extended in several ways
template<class T> static void tags(Ctx&C,const char*nm,int part){ In g=make(SZ[part][0],SZ[part][1]); for(size_t n=0;n<=1100;n++) if(n!=16)for(int f=0;f<4;f++){ In i=g; i.t.resize(n); for(size_t k=16;k<n;k++)i.t[k]=f==0?0:f==1?g.t[k%16]:f==2?0xff:uint8_t(k); if(f==3)for(auto&x:i.t)x^=n<16?0x80:0; if(f&&n<16&&f<3)continue; expect<T>(C,nm,i,false,"tag length",long(n),f,n<70||n<=300&&n%7==0); }
  for(size_t s=1;s<16;s++){ In i=g; i.t=B(g.t.begin()+s,g.t.end()); expect<T>(C,nm,i,false,"tag without first bytes",long(s)); i.t=g.t; std::rotate(i.t.begin(),i.t.begin()+s,i.t.end()); expect<T>(C,nm,i,i.t==g.t,"rotated tag",long(s)); } In i=g; std::reverse(i.t.begin(),i.t.end()); expect<T>(C,nm,i,false,"reversed tag"); for(int v=0;v<256;v++){i.t=B(16,v);expect<T>(C,nm,i,false,"constant tag",v);} }
// every value of every byte, every pair of bits, equal and opposite changes of two bytes, whole-word changes
template<class T> static void pairs(Ctx&C,const char*nm,int part){ In g=make(SZ[part][0],SZ[part][1]); auto bad=[&](const B&t,const char*w,long a,long b){ if(t==g.t)return; In i=g;i.t=t; expect<T>(C,nm,i,false,w,a,b,false); };
  for(int p=0;p<16;p++)for(int v=0;v<256;v++){B t=g.t;t[p]=v;bad(t,"byte value",p,v);} for(int a=0;a<128;a++)for(int b=0;b<a;b++){B t=g.t;t[a/8]^=1<<(a%8);t[b/8]^=1<<(b%8);bad(t,"two bits",a,b);}
  for(int a=0;a<16;a++)for(int b=0;b<16;b++)if(a!=b)for(int d=1;d<256;d+=(mc::thorough()?1:3)){B t=g.t;t[a]+=d;t[b]-=d;bad(t,"two bytes, opposite",a*16+b,d);t=g.t;t[a]^=d;t[b]^=d;bad(t,"two bytes, same",a*16+b,d);}
  for(int m=1;m<65536;m+=(mc::thorough()?1:7)){B t=g.t;for(int p=0;p<16;p++)if(m>>p&1)t[p]^=0x80;bad(t,"byte subset, high bit",m,0);for(int p=0;p<16;p++)if(m>>p&1)t[p]^=0x81;bad(t,"byte subset, low bit",m,1);} }
// tags with a zero byte at every place (a comparison that ends at a zero byte)
template<class T> static void zeros(Ctx&C,const char*nm,int part){ unsigned got=0; for(int s=0;s<20000&&got!=0xffff;s++){ In g=make(part,3); g.n[0]=s;g.n[1]=s>>8; g.c=ref::aead_seal(g.k,g.n,pre(pt0(),3)); g.t=ref::aead_tag(g.k,g.n,g.a,g.c); for(int p=0;p<16;p++)if(!g.t[p]&&!(got>>p&1)){ got|=1<<p; expect<T>(C,nm,g,true,"genuine with zero byte",p); for(int q=0;q<16;q++)for(int d:{1,0x80,0xff}){In i=g;i.t[q]^=d;expect<T>(C,nm,i,false,"forged with zero byte",p,q*256+d);} In i=g;i.t.resize(p);expect<T>(C,nm,i,false,"cut at the zero byte",p);i.t=B(g.t.begin(),g.t.begin()+p);i.t.resize(16,0);if(i.t!=g.t)expect<T>(C,nm,i,false,"zeros after the zero byte",p); } } if(got!=0xffff)C.fail("zero bytes not reached"); }
// repeated verification on one object, with digest calls between, in every order
template<class T> static void repeat(Ctx&C,const char*nm,int sub){ In g=make(SZ[sub][0],SZ[sub][1]); P::aead::apie<T> o; o.initialize(g.k.data(),32,g.n.data(),12); o.aad(D(g.a),g.a.size()); B pt(g.c.size()+1); o.decrypt(D(g.c),g.c.size(),pt.data()); error e; int depth=mc::thorough()?6:5;
  for(int i=0;i<depth;i++){ int op=C.choose(6); B t=g.t; bool good=op<2; if(op==2||op==3)t[(i*5)%16]^=1<<i; if(op==4)t.pop_back(); if(op==5){uint8_t d[16];o.digest(d);if(memcmp(d,g.t.data(),16))C.fail("%s: digest after verification differs",nm);C.eval();continue;} int r; if(op&1)r=thrown([&]{o.verify(t);}); else {o.verify(t.data(),t.size(),e);r=code(e);} if(r!=(good?0:1))C.fail("%s: verification %d of the sequence: %s tag was %s",nm,i,good?"right":"wrong",r==0?"accepted":"rejected"); C.eval(); C.tr(); } }
struct Alg{const char*nm;int need;void(*f[5])(Ctx&,const char*,int);};
#define X(n,t,need) {#n,need,{bits<t>,tags<t>,pairs<t>,zeros<t>,repeat<t>}},
static const Alg A[]={AEADS(X)}; static const int NA=sizeof A/sizeof*A;
static const Alg&alg(Ctx&C,int&sub,int subs){ static std::vector<int> ok=[]{std::vector<int>r;for(int i=0;i<NA;i++)if(have(A[i].need))r.push_back(i);return r;}(); int c=C.choose(int(ok.size())*subs); sub=c%subs; return A[ok[c/subs]]; }
MC_SUITE(bits){ int s; auto&a=alg(C,s,6); a.f[0](C,a.nm,s); }
MC_SUITE(tags){ int s; auto&a=alg(C,s,6); a.f[1](C,a.nm,s); }
MC_SUITE(pairs){ int s; auto&a=alg(C,s,6); if(s>1&&!mc::thorough())s=3; a.f[2](C,a.nm,s); }
MC_SUITE(zeros){ int s; auto&a=alg(C,s,2); a.f[3](C,a.nm,s); }
MC_SUITE(repeat){ int s; auto&a=alg(C,s,6); a.f[4](C,a.nm,s); }
int main(int c,char**v){return mc::main(c,v);}
