// P06: ChaCha20
#include "all.h"
#include "period.h"
#include "fills.h"
#include <deque>
#include <unordered_map>
using mc::Ctx;
static const B&msg(){static B m=ref::pattern(80000,31);return m;}
static B key0(){return ref::pattern(32,32);} static B nonce0(){return ref::pattern(12,33);}
static B iv(uint32_t c,const B&n){B r{uint8_t(c),uint8_t(c>>8),uint8_t(c>>16),uint8_t(c>>24)};return ref::cat(r,n);}
static const B&ks(uint32_t ctr,size_t n){ static std::unordered_map<uint32_t,B> m; auto&x=m[ctr]; if(x.size()<n)x=ref::keystream(key0(),ctr,nonce0(),n); return x; }
struct Alg{const char*nm;int need;void(*states)(Ctx&,const char*,int),(*align)(Ctx&,const char*,int),(*counter)(Ctx&,const char*,int),(*values)(Ctx&,const char*,int),(*hist)(Ctx&,const char*,int),(*longs)(Ctx&,const char*,int),(*sizes)(Ctx&,const char*,int);};
template<class O> static size_t op(O&o,int kind,const uint8_t*s,size_t n,uint8_t*d){ switch(kind){case 0:return o.encrypt(s,n,d);case 1:return o.decrypt(s,n,d);case 2:return o.encrypt((const char*)s,n,(char*)d);default:return o.decrypt((const char*)s,n,d);} }
template<class O> static void step(Ctx&C,const char*nm,O&o,int kind,bool inplace,const B&k,size_t pos,size_t n,size_t so,size_t dofs){ alignas(64) static uint8_t a[90000],b[90000]; uint8_t*s=a+so,*d=inplace?s:b+dofs; memcpy(s,msg().data()+pos%7000,n); size_t lo=std::min<size_t>(16,d-(inplace?a:b)); memset(d-lo,0xc3,lo); memset(d+n,0xc3,16); if(!inplace)memset(d,0x77,n);
  size_t r=op(o,kind,s,n,d); if(r!=n)C.fail("%s: %zu bytes at %zu: returned %zu",nm,n,pos,r); const uint8_t*m=msg().data()+pos%7000; for(size_t i=0;i<n;i++)if(d[i]!=uint8_t(m[i]^k[pos+i]))C.fail("%s: %s%s of %zu bytes at stream offset %zu (align %zu/%zu): byte %zu is %02x, expected %02x",nm,kind%2?"decrypt":"encrypt",inplace?" in place":"",n,pos,so,dofs,i,d[i],m[i]^k[pos+i]); for(size_t i=0;i<lo;i++)if(d[i-lo]!=0xc3)C.fail("%s: wrote before the output",nm); for(int i=0;i<16;i++)if(d[n+i]!=0xc3)C.fail("%s: %zu bytes at %zu: wrote after the output",nm,n,pos); if(!inplace&&memcmp(s,m,n))C.fail("%s: input modified",nm); C.eval(); C.out(d,n); }
template<class T> static void states(Ctx&C,const char*nm,int v){ const uint32_t ctr[]={0,1,0xfffffffc,0x12345678}; uint32_t c0=ctr[v]; size_t lim=mc::thorough()?2600:1400; std::vector<size_t> sz; for(size_t k=0;k<=1100;k++)if(k<3||k%64<=1||k%64==63||k%32==0&&k<256||k==200||k==777)sz.push_back(k); if(mc::thorough())for(size_t k=3;k<63;k++)sz.push_back(k);
  B k=ks(c0,lim+64); struct N{size_t pos;Box<T> o;}; std::deque<N> q; std::unordered_set<uint64_t> seen; size_t cap=mc::thorough()?30000:3000; bool capped=false; B i=iv(c0,nonce0()),ky=key0(); {N n{0,{}};n.o->initialize(ky.data(),32,i.data(),16);q.push_back(n);seen.insert(mc::mix(0,n.o.key()));} int t=0;
  while(!q.empty()){ N n=q.front();q.pop_front(); C.at(n.pos); for(size_t z:sz){ if(n.pos+z>lim)break; N x=n; t++; step(C,nm,*x.o,t%4,t/4%2,k,x.pos,z,t%5,t%7); x.pos+=z; C.tr(); uint64_t ke=mc::mix(x.pos,x.o.key()); if(seen.count(ke))continue; if(seen.size()>=cap){capped=true;continue;} seen.insert(ke); C.state(mc::mix(ke,mc::h64(nm,strlen(nm)))); q.push_back(x);} }
  if(capped)C.capped=true; C.sample("%s: %zu states (offset, object) within %zu bytes, %zu sizes, counter %x%s",nm,seen.size(),lim,sz.size(),c0,capped?" (capped)":""); }
// source x destination alignments x lengths
template<class T> static void align(Ctx&C,const char*nm,int part){ B i=iv(1,nonce0()),ky=key0(); B k=ks(1,2400); for(size_t so=part;so<64;so+=8)for(size_t df=0;df<64;df++){ for(size_t n=0;n<=1100;n+=(mc::thorough()?3:29)+so%3+df%2){ C.at(so,df,n); T o;o.initialize(ky.data(),32,i.data(),16); step(C,nm,o,0,false,k,0,n,so,df);} { T o;o.initialize(ky.data(),32,i.data(),16); size_t a=so*8+df; step(C,nm,o,1,true,k,0,a,so,df); step(C,nm,o,0,false,k,a,700,so,df);} }
  if(part<2)for(size_t n=0;n<=(mc::thorough()?2300u:1300u);n++){ C.at(n); T o;o.initialize(ky.data(),32,i.data(),16); step(C,nm,o,part,part,k,0,n,0,0);} C.sample("%s: 64 x 64 alignments",nm); }
// the 32 bit counter at and over its wrap
template<class T> static void counter(Ctx&C,const char*nm,int part){ B ky=key0(); for(uint32_t d=part;d<40;d+=4)for(uint32_t base:{0u,0x80000000u,0x10000u,0x100u,0x1000000u}){ uint32_t c0=base-d; B k=ks(c0,2700),i=iv(c0,nonce0()); for(size_t n:{64u,512u,513u,1024u,2600u})for(size_t f:{0u,1u,64u,100u,511u}){ if(f>n)continue; C.at(c0,n,f); T o;o.initialize(ky.data(),32,i.data(),16); if(f)step(C,nm,o,0,false,k,0,f,0,0); step(C,nm,o,0,f%2,k,f,n-f,0,1); } } 
  for(int bit=0;bit<32;bit++){ uint32_t c0=1u<<bit; B k=ref::keystream(ky,c0,nonce0(),700),i=iv(c0,nonce0()); T o;o.initialize(ky.data(),32,i.data(),16);step(C,nm,o,0,false,k,0,700,0,0);} C.sample("%s: counters 2^32-39..2^32+40 and around other carries",nm); }
// every byte value at every place of key and iv
template<class T> static void values(Ctx&C,const char*nm,int part){ for(size_t p=part;p<48;p+=4)for(int v=0;v<256;v+=(mc::thorough()||p%3==0?1:5))for(int bg:{0,0xff}){ C.at(p,v,bg); B key(32,bg),i(16,bg); (p<32?key[p]:i[p-32])=v; uint32_t c=i[0]|i[1]<<8|i[2]<<16|uint32_t(i[3])<<24; B k=ref::keystream(key,c,B(i.begin()+4,i.end()),900); T o;o.initialize(key.data(),32,i.data(),16); step(C,nm,o,0,false,k,0,900,0,0);} }
// calls of every size around powers of two, at stream offsets 0 and 37
template<class T> static void sizes(Ctx&C,const char*nm,int part){ auto w=wide(8,mc::thorough()?23:20); static B m=ref::pattern(w.back()+64,35),k; if(k.size()<w.back()+200)k=ref::keystream(key0(),0xfffffffe,nonce0(),w.back()+200); static B d(w.back()+64); B i=iv(0xfffffffe,nonce0()),ky=key0();
  for(size_t x=part;x<w.size();x+=4)for(size_t off:{0,37})for(int dir=0;dir<3;dir++){ size_t n=w[x]; C.at(n,off,dir); T o;o.initialize(ky.data(),32,i.data(),16); uint8_t t[100];memset(t,0,100); if(off)o.encrypt(t,off,t); uint8_t*out=d.data()+1; out[n]=0x5c; if(dir==2)memcpy(out,m.data(),n); size_t r=dir==1?o.decrypt(m.data(),n,out):o.encrypt(dir==2?out:m.data(),n,out); if(r!=n)C.fail("%s: %zu bytes returned %zu",nm,n,r); for(size_t j=0;j<n;j++)if(out[j]!=uint8_t(m[j]^k[off+j]))C.fail("%s: call of %zu bytes at %zu (kind %d): byte %zu wrong",nm,n,off,dir,j); if(out[n]!=0x5c)C.fail("%s: %zu bytes: wrote after the output",nm,n); memset(t,0,70); o.encrypt(t,70,t); if(memcmp(t,&k[off+n],70))C.fail("%s: stream position after %zu bytes",nm,n); C.eval(); C.out(out,64); } C.sample("%s: %zu sizes up to %zu",nm,w.size(),w.back()); }
template<class O> static void hist(Ctx&C,const char*nm,int first){ const uint32_t cs[]={0,1,0xffffffff}; const size_t ns[]={0,1,64,511,512,700}; Box<O> o; int id=first; size_t pos=0; B ky=key0(); auto init=[&]{B i=iv(cs[id],nonce0());o->initialize(ky.data(),32,i.data(),16);pos=0;}; init(); int depth=mc::thorough()?6:4;
  for(int i=0;i<depth;i++){ int c=C.choose(15); C.tr(); if(c<3){id=c;init();} else { c-=3; step(C,nm,*o,c>=6,c>=6,ks(cs[id],5000),pos,ns[c%6],0,0); pos+=ns[c%6]; } } step(C,nm,*o,0,true,ks(cs[id],5000),pos,70,0,0); }
template<class T> static void both(Ctx&C,const char*nm,int v){ if(v<3)hist<T>(C,nm,v); else hist<P::cipher::apie<T>>(C,nm,v-3); }
// one call of more than 2^32 bytes, and one that starts in the middle of a block
template<class T> static void longs(Ctx&C,const char*nm,int v){ size_t N=(1ull<<32)+(v?777:64*3); static uint8_t*src=nullptr,*dst; if(!src){src=period::make(N,false);for(size_t i=0;i<period::PER;i++)src[i]=ref::pat(i%65521,34);dst=period::make(N,true);} B ky=key0(); uint32_t c0=5; B i=iv(c0,nonce0()); T o;o.initialize(ky.data(),32,i.data(),16); size_t pos=0; if(v){uint8_t t[37];memset(t,0,37);o.encrypt(t,37,t);pos=37;} C.at(N); size_t r=o.encrypt(src,N,dst); if(r!=N)C.fail("%s: returned %zu of %zu",nm,r,N);
  if(C.slot)C.slot->beat++; size_t lo=N-period::PER; for(size_t b=lo;b<N;){ size_t g=pos+b; uint8_t blk[64]; ref::chacha_block(ky.data(),c0+uint32_t(g/64),nonce0().data(),blk); for(size_t j=g%64;j<64&&b<N;j++,b++)if(dst[b]!=uint8_t(src[b]^blk[j]))C.fail("%s: call of %zu bytes after %zu: byte %zu wrong",nm,N,pos,b); if((b&0xfffff)<64&&C.slot)C.slot->beat++; }
  C.eval(); B k; { uint8_t blk[128]; size_t g=pos+N; ref::chacha_block(ky.data(),c0+uint32_t(g/64),nonce0().data(),blk); ref::chacha_block(ky.data(),c0+uint32_t(g/64)+1,nonce0().data(),blk+64); uint8_t z[60]={0}; o.encrypt(z,60,z); if(memcmp(z,blk+g%64,60))C.fail("%s: stream position wrong after a call of %zu bytes",nm,N);} C.eval(); C.sample("%s: one call of %zu bytes at stream offset %zu",nm,N,pos); }
#define X(n,h,need) {#n,need,states<P::cipher_##n>,align<P::cipher_##n>,counter<P::cipher_##n>,values<P::cipher_##n>,both<P::cipher_##n>,longs<P::cipher_##n>,sizes<P::cipher_##n>},
static const Alg A[]={CIPHERS(X)}; static const int NA=sizeof A/sizeof*A;
static const Alg&alg(Ctx&C,int&sub,int subs){ static std::vector<int> ok=[]{std::vector<int>r;for(int i=0;i<NA;i++)if(have(A[i].need))r.push_back(i);return r;}(); int c=C.choose(int(ok.size())*subs); sub=c%subs; return A[ok[c/subs]]; }
MC_SUITE(longs){ int s; auto&a=alg(C,s,2); if(!mc::thorough()&&(&a==A||s==0&&&a!=A+3))return; a.longs(C,a.nm,s); }
MC_SUITE(sizes){ int s; auto&a=alg(C,s,4); a.sizes(C,a.nm,s); }
MC_SUITE(align){ int s; auto&a=alg(C,s,8); a.align(C,a.nm,s); }
MC_SUITE(states){ int s; auto&a=alg(C,s,4); a.states(C,a.nm,s); }
MC_SUITE(counter){ int s; auto&a=alg(C,s,4); a.counter(C,a.nm,s); }
MC_SUITE(values){ int s; auto&a=alg(C,s,4); a.values(C,a.nm,s); }
MC_SUITE(history){ int s; auto&a=alg(C,s,6); a.hist(C,a.nm,s); }
// keys and ivs of other sizes: cut, or padded with zeros, whatever the object held before
template<class O> static void ksz(Ctx&C,const char*nm,int part){ static B kk=ref::pattern(20100,36),ii=ref::pattern(20100,37); for(size_t kn=part;kn<=20000;kn+=4)for(size_t in=0;in<=20000;in++){ if(kn>66&&in>2){ if(in>3||kn+part>20000)break; in=kn+part; } else if(in>36&&kn!=part*9)continue; C.at(kn,in); B k(kk.begin(),kk.begin()+kn),i(ii.begin(),ii.begin()+in); k.resize(32);i.resize(16); uint32_t c=i[0]|i[1]<<8|i[2]<<16|uint32_t(i[3])<<24; B e=ref::keystream(k,c,B(i.begin()+4,i.end()),130); O o; for(int t=0;t<2;t++){ uint8_t d[130]={}; if(t){B ff(32,0xff);o.initialize(ff.data(),32,ff.data(),16);uint8_t x[77]={};o.encrypt(x,77,x);} o.initialize(kk.data(),kn,(const char*)ii.data(),in); o.encrypt(d,130,d); if(memcmp(d,e.data(),130))C.fail("%s: key of %zu bytes, iv of %zu bytes%s: wrong keystream",nm,kn,in,t?", after another message":""); C.eval(); C.out(d,16); } } C.sample("%s: key and iv sizes to 20000",nm); }
#define X(n,r,need) {#n,need,ksz<P::cipher_##n>,ksz<P::cipher::apie<P::cipher_##n>>},
struct KAlg{const char*nm;int need;void(*f[2])(Ctx&,const char*,int);}; static const KAlg KA[]={CIPHERS(X)};
#undef X
MC_SUITE(keysizes){ int c=C.choose(int(sizeof KA/sizeof*KA)*8); auto&a=KA[c/8]; if(!have(a.need)){C.eval();return;} a.f[c/4%2](C,a.nm,c%4); }
// keys, ivs and texts with runs and pairs of particular bytes; the sizes announced for them
template<class O> static void fil(Ctx&C,const char*nm,int part){ B pt=ref::pattern(70,38); size_t cnt=0;
  fills(48,ref::pattern(48,39),part,4,[&](const B&b,int i,int j,int v){ C.at(1,i,j,v); cnt++; uint32_t c=b[32]|b[33]<<8|b[34]<<16|uint32_t(b[35])<<24; B k=ref::keystream(B(b.begin(),b.begin()+32),c,B(b.begin()+36,b.end()),70); O o; o.initialize(b.data(),32,b.data()+32,16); uint8_t d[70]; o.encrypt(pt.data(),70,d); for(int q=0;q<70;q++)if(d[q]!=uint8_t(pt[q]^k[q]))C.fail("%s: key and iv %s: ciphertext byte %d wrong",nm,ref::tohex(b).c_str(),q); C.eval(); C.out(d,16); });
  B k=ref::keystream(key0(),9,nonce0(),70),i0=iv(9,nonce0()),ky=key0(); for(int dir=0;dir<4;dir++)fills(70,pt,part,4,[&](const B&x,int i,int j,int v){ if(j-i==1&&v==0x7f)return; C.at(2,dir,i,j,v); cnt++; B b=x; if(dir&2)for(int q=0;q<70;q++)b[q]^=k[q]; size_t al=dir?0:size_t(i); static uint8_t buf[200]; uint8_t*s=buf+al; memcpy(s,b.data(),70); O o; o.initialize(ky.data(),32,i0.data(),16); if constexpr(requires{o.encrypt_size((const uint8_t*)s,size_t(70));}){ size_t z=dir&1?o.decrypt_size((const uint8_t*)s,size_t(70)):o.encrypt_size((const uint8_t*)s,size_t(70)); if(z!=70)C.fail("%s: size announced for 70 bytes %s: %zu",nm,ref::tohex(b).c_str(),z); } uint8_t d[71]; d[70]=0x5a; size_t r=dir&1?o.decrypt(s,70,d):o.encrypt(s,70,d); if(r!=70||d[70]!=0x5a)C.fail("%s: 70 bytes %s: returned %zu",nm,ref::tohex(b).c_str(),r); for(int q=0;q<70;q++)if(d[q]!=uint8_t(b[q]^k[q]))C.fail("%s: %s of %s: byte %d wrong",nm,dir&1?"decrypt":"encrypt",ref::tohex(b).c_str(),q); C.eval(); C.out(d,16); });
  if(part==0){ static uint8_t buf[400]; O o; o.initialize(ky.data(),32,i0.data(),16); if constexpr(requires{o.encrypt_size((const uint8_t*)buf,size_t(70));})for(size_t al=0;al<64;al++)for(size_t n=0;n<=200;n++){ C.at(3,al,n); cnt++; if(o.encrypt_size((const uint8_t*)buf+al,n)!=n||o.decrypt_size((const uint8_t*)buf+al,n)!=n)C.fail("%s: size announced for %zu bytes at alignment %zu",nm,n,al); C.eval(); } }
  C.sample("%s: %zu keys, ivs and texts with runs and pairs of particular bytes",nm,cnt); }
#undef X
#define X(n,r,need) {#n,need,fil<P::cipher_##n>,fil<P::cipher::apie<P::cipher_##n>>},
static const KAlg FA[]={CIPHERS(X)};
MC_SUITE(fills){ int c=C.choose(int(sizeof FA/sizeof*FA)*8); auto&a=FA[c/8]; if(!have(a.need)){C.eval();return;} a.f[c/4%2](C,a.nm,c%4); }
#include "many.h"
MANY_SUITE(SUBJECTS_CIPHER)
int main(int c,char**v){return mc::main(c,v);}
