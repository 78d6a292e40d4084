// enumeration of MAC behaviour, shared by P02 (hmac) and P03 (poly1305)
#pragma once
#include "all.h"
#include "fills.h"
#include <deque>
#include <map>
using mc::Ctx;
using Ref=B(*)(int,const B&,const B&);
static const B&msg(){static B m=ref::pattern(12000,3);return m;}
static const B&kmat(){static B m=ref::pattern(4096,7);return m;}
static B keyof(size_t n,unsigned salt=0){return B(kmat().begin()+salt,kmat().begin()+salt+n);}
static B pre(size_t n){return B(msg().begin(),msg().begin()+n);}
template<class O> static void same(Ctx&C,const char*nm,O&o,const B&e,const char*what,size_t ksz,size_t pos){ uint8_t d[80]; memset(d,0xa5,80); size_t n=o.digest(d); if(n!=e.size()||memcmp(d,e.data(),n))C.fail("%s: %s: key %zu bytes, message %zu bytes: tag %s, expected %s",nm,what,ksz,pos,ref::tohex(d,n<80?n:79).c_str(),ref::tohex(e).c_str()); if(d[n]!=0xa5)C.fail("%s: %s: tag wrote too far",nm,what); C.out(d,n); C.eval(); }
// every key length, some message lengths; and every message length with some keys
template<class T> static void m_lengths(Ctx&C,const char*nm,int h,Ref rf,size_t blk,int part,int parts){
  size_t kmax=mc::thorough()?blk*9:blk*3+2; const size_t ml[]={0,1,blk-1,blk,blk+blk/2+3,3*blk+1};
  for(size_t k=part;k<=kmax;k+=parts)for(size_t off:{0,1,3,8}){ if(off&&k%5)continue; for(size_t m:ml){ C.at(k,m,off); B key=keyof(k,off); T o; o.initialize(kmat().data()+off,k); o.update(msg().data()+off%2,m); o.finalize(); B x(msg().begin()+off%2,msg().begin()+off%2+m); same(C,nm,o,rf(h,key,x),"key length",k,m);} }
  size_t mmax=mc::thorough()?blk*40:blk*6+1; const size_t kl[]={0,1,blk/2,blk,blk+1};
  for(size_t m=part;m<=mmax;m+=parts)for(size_t k:kl){ C.at(k,m); T o; o.initialize(kmat().data(),k); o.update(msg().data()+(m&15),m); o.finalize(); B x(msg().begin()+(m&15),msg().begin()+(m&15)+m); same(C,nm,o,rf(h,keyof(k),x),"message length",k,m); }
  C.sample("%s: key lengths 0..%zu, message lengths 0..%zu",nm,kmax,mmax); }
// all reachable (position, object) states under all sequences of update sizes
template<class T> static void m_states(Ctx&C,const char*nm,int h,Ref rf,size_t blk,const B&key,const B&m,size_t blocks){
  size_t lim=blk*blocks+1; std::vector<size_t> sz; for(size_t k=0;k<=blk*2+1;k++) if(mc::thorough()||blk<=16||k<=5||k%8==7||k%16<=1||k>=blk-10&&k<=blk+3||k>=2*blk-2)sz.push_back(k);
  std::vector<B> e; for(size_t n=0;n<=lim;n++)e.push_back(rf(h,key,B(m.begin(),m.begin()+n)));
  struct N{size_t pos;Box<T> o;}; std::deque<N> q; std::unordered_set<uint64_t> seen; {N n{0,{}};n.o->initialize(key.data(),key.size());q.push_back(n);seen.insert(mc::mix(0,n.o.key()));}
  const size_t cap=mc::thorough()?60000:6000; bool capped=false;
  auto fin=[&](const N&n){ Box<T> c(n.o); c->finalize(); same(C,nm,*c,e[n.pos],"chunked updates",key.size(),n.pos); };
  fin(q.front());
  while(!q.empty()){ N n=q.front();q.pop_front(); C.at(n.pos);
    for(size_t k:sz){ if(n.pos+k>lim)break; N x=n; x.o->update(m.data()+n.pos,k); x.pos+=k; C.tr(); fin(x); uint64_t key2=mc::mix(x.pos,x.o.key()); if(seen.count(key2))continue; if(seen.size()>=cap){capped=true;continue;} seen.insert(key2); C.state(mc::mix(key2,mc::h64(nm,strlen(nm)))); q.push_back(x);} }
  if(capped)C.capped=true; C.sample("%s: %zu states within %zu bytes, %zu update sizes%s",nm,seen.size(),lim,sz.size(),capped?" (capped)":""); }
// every byte value at every place of key and message
template<class T> static void m_bytes(Ctx&C,const char*nm,int h,Ref rf,size_t ks,size_t ms,int part,int parts){
  for(size_t i=part;i<ks+ms;i+=parts)for(int v=0;v<256;v+=(mc::thorough()||ks+ms<100||i%8==0?1:51))for(int bg:{0,0xff}){ C.at(i,v,bg); B k(ks,bg),m(ms,bg); (i<ks?k[i]:m[i-ks])=v; T o;o.initialize(k.data(),k.size());o.update(m.data(),m.size());o.finalize();same(C,nm,o,rf(h,k,m),"byte values",ks,ms); } }
// runs and pairs of particular bytes across key and message
template<class O> static void m_fills(Ctx&C,const char*nm,int h,Ref rf,size_t ks,size_t ms,int part,int parts){ fills(ks+ms,ref::pattern(ks+ms,93),part,parts,[&](const B&b,int i,int j,int v){ if(!mc::thorough()&&ks+ms>60&&(j-i)%7>2)return; C.at(ks,ms,i,j,v); B k(b.begin(),b.begin()+ks),m(b.begin()+ks,b.end()); O o;o.initialize(k.data(),ks);o.update(m.data(),ms);if constexpr(requires{o.finalize();})o.finalize();same(C,nm,o,rf(h,k,m),"runs and pairs of bytes",ks,ms); }); }
// keys and messages of sizes around every power of two, in one update and in several
template<class T> static void m_wide(Ctx&C,const char*nm,int h,Ref rf,int part,int parts){
  static B big=ref::pattern((1u<<24)+(1u<<23)+64,5); auto w=wide(8,mc::thorough()?23:19); static std::map<std::tuple<Ref,int,int>,B> memo; B k32=keyof(32),m33=pre(33); auto ex=[&](int id,const B&k,const B&m)->const B&{ auto&x=memo[{rf,h,id}]; if(x.empty())x=rf(h,k,m); return x; };
  for(size_t i=part;i<w.size();i+=parts){ size_t n=w[i]; C.at(n); B b(big.begin(),big.begin()+n); const B&ek=ex(int(i)*2,b,m33),&em=ex(int(i)*2+1,k32,b);
    {T o;o.initialize(b.data(),n);o.update(m33.data(),33);o.finalize();same(C,nm,o,ek,"long key",n,33);}
    for(size_t s:{n,size_t(4099),n/2,n-1}){ T o;o.initialize(k32.data(),32);for(size_t p=0;p<n;p+=s)o.update(b.data()+p,std::min(s,n-p));o.finalize();same(C,nm,o,em,"long message",32,n);} }
  C.sample("%s: %zu sizes of keys and of messages up to %zu",nm,w.size(),w.back()); }
static const B&memo(Ref rf,int h,size_t k,size_t pos){ static std::map<std::tuple<Ref,int,size_t,size_t>,B> t; auto key=std::make_tuple(rf,h,k,pos); auto i=t.find(key); if(i==t.end())i=t.emplace(key,rf(h,keyof(k),pre(pos))).first; return i->second; }
// operation histories: initialize with different keys, updates, finalize, digest; abandoned ones too
template<class O,bool wrap> static void m_history(Ctx&C,const char*nm,int h,Ref rf,size_t blk,O&o,int first){
  const size_t us[]={0,1,blk-1,blk,2*blk+5}; const size_t ks[]={0,blk/2,blk,blk+9,3*blk+1}; int depth=mc::thorough()?6:4;
  size_t k=ks[first],pos=0; bool fin=false; o.initialize(kmat().data(),k);
  for(int i=0;i<depth;i++){ int op=C.choose(fin?6:11); C.tr();
    if(fin&&op==5){ same(C,nm,o,memo(rf,h,k,pos),"digest again",k,pos); continue; }
    if(op<5){ k=ks[op];pos=0;fin=false;o.initialize(kmat().data(),k); }
    else if(op<10){ o.update(msg().data()+pos,us[op-5]);pos+=us[op-5]; }
    else { if constexpr(!wrap)o.finalize(); fin=true; same(C,nm,o,memo(rf,h,k,pos),"after history",k,pos);} }
  if constexpr(!wrap)if(!fin)o.finalize(); same(C,nm,o,memo(rf,h,k,pos),"end of history",k,pos); }
// keys of every size
template<class O> static void m_keys(Ctx&C,const char*nm,int h,Ref rf,int part,int parts){ size_t N=mc::thorough()?40000:10100; static B big=ref::pattern(41000,9); B m=pre(5); B key; for(size_t k=0;k<=N;k++){ if(k)key.push_back(big[k-1]); if(k%parts!=part)continue; C.at(k); B e=rf(h,key,m); O o; o.initialize(big.data(),k); o.update(m.data(),5); if constexpr(requires{o.finalize();})o.finalize(); same(C,nm,o,e,"every key size",k,5); } C.sample("%s: key sizes to %zu",nm,N); }
