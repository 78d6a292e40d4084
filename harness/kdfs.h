// enumeration of key derivation, shared by P04 (hkdf) and P05 (pbkdf2)
#pragma once
#include "all.h"
#include "fills.h"
#include <deque>
#include <map>
using mc::Ctx;
struct In{ size_t ikm,salt,info; uint32_t it; };
static const B&mat(int w){static B m[3]={ref::pattern(4096,21),ref::pattern(4096,22),ref::pattern(4096,23)};return m[w];}
static B cut(int w,size_t n){return B(mat(w).begin(),mat(w).begin()+n);}
#ifdef HKDF
static const char*what(const In&i){static char b[120];snprintf(b,120,"ikm %zu salt %zu info %zu",i.ikm,i.salt,i.info);return b;}
static B stream(int h,const In&i,size_t n){return ref::hkdf(h,cut(0,i.ikm),cut(1,i.salt),cut(2,i.info),n);}
template<class O> static void init(O&o,const In&i){o.initialize(mat(0).data(),i.ikm,mat(1).data(),i.salt,mat(2).data(),i.info);}
#define KDF P::kdf::hkdf
#else
static const char*what(const In&i){static char b[120];snprintf(b,120,"password %zu salt %zu iterations %u",i.ikm,i.salt,i.it);return b;}
static B stream(int h,const In&i,size_t n){return ref::pbkdf2(h,cut(0,i.ikm),cut(1,i.salt),i.it,n);}
template<class O> static void init(O&o,const In&i){o.initialize(mat(0).data(),i.ikm,mat(1).data(),i.salt,i.it);}
#define KDF P::kdf::pbkdf_2
#endif
// draw k bytes and compare with the stream; canaries around
template<class O> static void draw(Ctx&C,const char*nm,O&o,const In&in,const B&s,size_t pos,size_t k){ static B buf(40000); memset(buf.data(),0x3c,k+32); size_t r=o.derive(buf.data()+16,k); if(r!=k)C.fail("%s: derive(%zu) at %zu (%s) returned %zu",nm,k,pos,what(in),r); if(memcmp(buf.data()+16,s.data()+pos,k)){size_t x=0;while(buf[16+x]==s[pos+x])x++;C.fail("%s: derive(%zu) at %zu (%s): byte %zu is %02x, expected %02x",nm,k,pos,what(in),x,buf[16+x],s[pos+x]);} for(int i=0;i<16;i++)if(buf[i]!=0x3c||buf[16+k+i]!=0x3c)C.fail("%s: derive(%zu) at %zu wrote outside",nm,k,pos); C.eval(); C.out(buf.data()+16,k); memset(buf.data(),0xee,k+32); }
template<class T> static void k_states(Ctx&C,const char*nm,int h,const In&in,size_t start,size_t lim){
  size_t L=ref::hsize(h); std::vector<size_t> sz; for(size_t k=0;k<=2*L+1;k++)if(mc::thorough()||k<5||k>=L-4&&k<=L+3||k%8==0||k>=2*L-1)sz.push_back(k); for(size_t k:{3*L,3*L+1,4*L-1})sz.push_back(k);
  B s=stream(h,in,lim); struct N{size_t pos;Box<T> o;}; std::deque<N> q; std::unordered_set<uint64_t> seen; const size_t cap=mc::thorough()?50000:4000; bool capped=false;
  {N n{0,{}};init(*n.o,in); if(start){draw(C,nm,*n.o,in,s,0,start);n.pos=start;} q.push_back(n);seen.insert(mc::mix(n.pos,n.o.key()));}
  while(!q.empty()){ N n=q.front();q.pop_front(); C.at(n.pos); for(size_t k:sz){ if(n.pos+k>lim)break; N x=n; draw(C,nm,*x.o,in,s,x.pos,k); x.pos+=k; C.tr(); uint64_t key=mc::mix(x.pos,x.o.key()); if(seen.count(key))continue; if(seen.size()>=cap){capped=true;continue;} seen.insert(key); C.state(mc::mix(key,mc::h64(nm,strlen(nm)))); q.push_back(x);} }
  if(capped)C.capped=true; C.sample("%s: %zu states (offset, object) from %zu to %zu bytes (%s)%s",nm,seen.size(),start,lim,what(in),capped?" (capped)":""); }
// visited-state search between two offsets after every way of arriving there in one or two steps
template<class T> static void k_inputs(Ctx&C,const char*nm,int h,int part,int parts){
  size_t b=ref::hblock(h),L=ref::hsize(h); std::vector<size_t> is,ss,fs; for(size_t k=0;k<=2*b+1;k++){ if(mc::thorough()||k<3||k%9==0||k>=b-1&&k<=b+1||k>=L-1&&k<=L+1||k>=2*b)is.push_back(k);} ss=is; fs={0,1,L,b,2*b+3};
  int n=0; for(size_t i:is)for(size_t s:ss)for(size_t f:fs){ if(n++%parts!=part)continue; bool edge=(i<=1||i>=b)&&(s<=1||s>=b); if(!mc::thorough()&&!edge&&f!=fs[n%5])continue; 
#ifdef HKDF
    In in{i,s,f,0};
#else
    In in{i,s,0,uint32_t(f%7+1)}; if(f==b)in.it=mc::thorough()?9:5;
#endif
    C.at(i,s,f); B st=stream(h,in,3*L+2); Box<T> o; init(*o,in); size_t a=L-1+n%3; draw(C,nm,*o,in,st,0,a); draw(C,nm,*o,in,st,a,3*L+2-a); }
  C.sample("%s: %zu x %zu x %zu input lengths",nm,is.size(),ss.size(),fs.size()); }
// inputs of sizes around every power of two, one of them long at a time; drawn in two parts after an object with other inputs
template<class T> static void k_wide(Ctx&C,const char*nm,int h,int part,int parts){ static B big=ref::pattern((1u<<22)+(1u<<21)+64,25); size_t L=ref::hsize(h); auto w=wide(8,mc::thorough()?21:17); B s8=cut(1,8);
  for(size_t i=part;i<w.size()*3;i+=parts){ size_t n=w[i/3]; int which=i%3; B b(big.begin(),big.begin()+n); C.at(n,which); Box<T> o; size_t N=2*L+3; B e;
#ifdef HKDF
    const B&ik=which==0?b:s8,&sa=which==1?b:s8,&inf=which==2?b:s8; e=ref::hkdf(h,ik,sa,inf,N); for(int again=0;again<2;again++){ o->initialize(ik.data(),ik.size(),sa.data(),sa.size(),inf.data(),inf.size());
#else
    if(which==2)continue; const B&ik=which==0?b:s8,&sa=which==1?b:s8; uint32_t it=1+i%3; e=ref::pbkdf2(h,ik,sa,it,N); for(int again=0;again<2;again++){ o->initialize(ik.data(),ik.size(),sa.data(),sa.size(),it);
#endif
      uint8_t d[160]; memset(d,0,sizeof d); size_t a=again?L:L-1; o->derive(d,a); o->derive(d+a,N-a); if(memcmp(d,e.data(),N))C.fail("%s: input %d of %zu bytes: %s, expected %s",nm,which,n,ref::tohex(d,N).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,N);} }
  C.sample("%s: %zu sizes of each input up to %zu",nm,w.size(),w.back()); }
static const B&memo(int h,const In&in,size_t n,int id){ static std::map<std::pair<int,int>,B> t; auto&x=t[{h,id}]; if(x.size()<n)x=stream(h,in,n); return x; }
// histories of initialize with different inputs and draws
template<class O> static void k_history(Ctx&C,const char*nm,int h,int first){
  size_t L=ref::hsize(h),b=ref::hblock(h); const In ins[]={{0,0,0,1},{L,3,5,2},{b+1,b+2,b+3,3},{7,0,0,1}}; const size_t ds[]={0,1,L-1,L,L+1,2*L+5}; int depth=mc::thorough()?6:4;
  Box<O> o; int id=first; size_t pos=0; init(*o,ins[id]);
  for(int i=0;i<depth;i++){ int op=C.choose(10); C.tr(); if(op<4){id=op;pos=0;init(*o,ins[id]);} else {size_t k=ds[op-4];draw(C,nm,*o,ins[id],memo(h,ins[id],13*(2*L+5),id),pos,k);pos+=k;} }
  draw(C,nm,*o,ins[id],memo(h,ins[id],13*(2*L+5),id),pos,L/2+1); }
struct Alg{const char*nm;int h;int need;void(*states)(Ctx&,const char*,int,const In&,size_t,size_t),(*inputs)(Ctx&,const char*,int,int,int),(*hist)(Ctx&,const char*,int,int),(*whist)(Ctx&,const char*,int,int),(*wide)(Ctx&,const char*,int,int,int);};
#define X(n,h,need) {#n,h,need,k_states<KDF<P::mac::hmac<P::hash_##n>>>,k_inputs<KDF<P::mac::hmac<P::hash_##n>>>,k_history<KDF<P::mac::hmac<P::hash_##n>>>,k_history<P::kdf::apie<KDF<P::mac::hmac<P::hash_##n>>>>,k_wide<KDF<P::mac::hmac<P::hash_##n>>>},
static const Alg A[]={HASHES(X)}; static const int NA=sizeof A/sizeof*A;
static const Alg&alg(Ctx&C,int&sub,int subs){ static std::vector<int> ok=[]{std::vector<int>r;for(int i=0;i<NA;i++)if(have(A[i].need))r.push_back(i);return r;}(); int c=C.choose(int(ok.size())*subs); sub=c%subs; return A[ok[c/subs]]; }
MC_SUITE(inputs){ int s; auto&a=alg(C,s,4); a.inputs(C,a.nm,a.h,s,4); }
MC_SUITE(sizes){ int s; auto&a=alg(C,s,3); a.wide(C,a.nm,a.h,s,3); }
MC_SUITE(history){ int s; auto&a=alg(C,s,8); (s<4?a.hist:a.whist)(C,a.nm,a.h,s%4); }
// inputs of every size, one at a time
template<class O> static void k_every(Ctx&C,const char*nm,int h,int which,int part,int parts){ size_t N=mc::thorough()?20000:4200,L=ref::hsize(h)+3; static B big=ref::pattern(21000,26); B s8=cut(1,8),v; for(size_t n=0;n<=N;n++){ if(n)v.push_back(big[n-1]); if(int(n%parts)!=part)continue; C.at(which,n); const B&x=which==0?v:s8,&y=which==1?v:s8; uint8_t d[80]; memset(d,0,80); O o;
#ifdef HKDF
  const B&z=which==2?v:s8; B e=ref::hkdf(h,x,y,z,L); o.initialize(x.data(),x.size(),y.data(),y.size(),z.data(),z.size());
#else
  B e=ref::pbkdf2(h,x,y,2,L); o.initialize(x.data(),x.size(),y.data(),y.size(),2);
#endif
  o.derive(d,L); if(memcmp(d,e.data(),L))C.fail("%s: input %d of %zu bytes: %s, expected %s",nm,which,n,ref::tohex(d,L).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,L); } C.sample("%s: input %d of every size to %zu",nm,which,N); }
MC_SUITE(keys){
#ifdef HKDF
  const int W=3;
#else
  const int W=2;
#endif
  int c=C.choose(7*W*4); int h=c/(W*4),w=c/4%W; 
#define E_(n,hh,x) if(h==hh){ if(c%2)k_every<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h,w,c%4,4); else k_every<P::kdf::apie<KDF<P::mac::hmac<P::hash_##n>>>>(C,#n,h,w,c%4,4); }
  HASHES_AUTO(E_) }
// every byte value at every place of each input, before zeros and ones
template<class O> static void k_bytes(Ctx&C,const char*nm,int h,int which,int part,int parts){ size_t b=ref::hblock(h),L=ref::hsize(h)+3; B s8=cut(1,8); int at=0; for(size_t n:{size_t(1),size_t(2),size_t(20),b,b+9})for(size_t i=0;i<n;i++){ if(!mc::thorough()&&n>=b&&i>8&&i+8<n&&i%8)continue; for(int v=0;v<256;v+=(mc::thorough()||i<2||i+1==n?1:51))for(int bg:{0,0xff}){ if(at++%parts!=part)continue; C.at(which,n,i,v,bg); B x(n,bg); x[i]=uint8_t(v); const B&p=which==0?x:s8,&q=which==1?x:s8; uint8_t d[80]; memset(d,0,80); O o;
#ifdef HKDF
  const B&z=which==2?x:s8; B e=ref::hkdf(h,p,q,z,L); o.initialize(p.data(),p.size(),q.data(),q.size(),z.data(),z.size());
#else
  B e=ref::pbkdf2(h,p,q,2,L); o.initialize(p.data(),p.size(),q.data(),q.size(),2);
#endif
  o.derive(d,L); if(memcmp(d,e.data(),L))C.fail("%s: input %d of %zu bytes of %02x with %02x at %zu: %s, expected %s",nm,which,n,bg,v,i,ref::tohex(d,L).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,L); } } C.sample("%s: every byte value at the places of input %d",nm,which); }
MC_SUITE(values){
#ifdef HKDF
  const int W=3;
#else
  const int W=2;
#endif
  int c=C.choose(7*W*4); int h=c/(W*4),w=c/4%W; 
#define F_(n,hh,x) if(h==hh) k_bytes<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h,w,c%4,4);
  HASHES_AUTO(F_) }
// runs and pairs of particular bytes across all inputs
template<class O> static void k_fills(Ctx&C,const char*nm,int h,size_t a,size_t b,size_t c,int part,int parts){ size_t L=16,cnt=0; fills(a+b+c,ref::pattern(a+b+c,95),part,parts,[&](const B&x,int i,int j,int v){ C.at(a,b,c,i,j,v); cnt++; B p(x.begin(),x.begin()+a),q(x.begin()+a,x.begin()+a+b),z(x.begin()+a+b,x.end()); uint8_t d[80]; O o;
#ifdef HKDF
  B e=ref::hkdf(h,p,q,z,L); o.initialize(p.data(),a,q.data(),b,z.data(),c);
#else
  B e=ref::pbkdf2(h,p,q,2,L); o.initialize(p.data(),a,q.data(),b,2);
#endif
  o.derive(d,L); if(memcmp(d,e.data(),L))C.fail("%s: inputs %s of %zu, %zu and %zu bytes: %s, expected %s",nm,ref::tohex(x).c_str(),a,b,c,ref::tohex(d,L).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,L); }); C.sample("%s: %zu inputs with runs and pairs of particular bytes",nm,cnt); }
MC_SUITE(fills){ int c=C.choose(7*4); int h=c/4;
#ifdef HKDF
  const size_t z=9;
#else
  const size_t z=0;
#endif
#define F_2(n,hh,x) if(h==hh){ k_fills<KDF<P::mac::hmac<P::hash_##n>>>(C,#n,h,11,10,z,c%4,4); k_fills<P::kdf::apie<KDF<P::mac::hmac<P::hash_##n>>>>(C,"wrapper of " #n,h,5,4,z/2,c%4,4); }
  HASHES_AUTO(F_2) }
