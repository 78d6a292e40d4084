// P07: AEAD ciphertext and tag
#include "aeads.h"
#include "period.h"
#include "fills.h"
#include <deque>
#include <map>
using mc::Ctx;
static const B&tag(int id,size_t a,size_t t){ static std::map<std::tuple<int,size_t,size_t>,B> m; auto&x=m[{id,a,t}]; if(x.empty())x=ref::aead_tag(akey(id),anonce(id),pre(aad0(),a),pre(ct0(id),t)); return x; }
template<class O> static void init(O&o,int id){ o.initialize(akey(id).data(),32,anonce(id).data(),12); }
// one text call: dir 0 encrypt, 1 decrypt; in place or not
template<class O> static void text(Ctx&C,const char*nm,O&o,int id,int dir,bool inplace,size_t pos,size_t n){ static uint8_t a[12000],b[12000]; const uint8_t*in=(dir?ct0(id):pt0()).data()+pos,*ex=(dir?pt0():ct0(id)).data()+pos; uint8_t*d=inplace?a+3:b+5; memset(d,0x99,n+8); memcpy(a+3,in,n); d[n]=0x5c; size_t r=dir?o.decrypt(a+3,n,d):o.encrypt(a+3,n,d); if(r!=n)C.fail("%s: %zu bytes returned %zu",nm,n,r); if(memcmp(d,ex,n)||d[n]!=0x5c)C.fail("%s: %s of %zu bytes at %zu%s gives wrong bytes",nm,dir?"decrypt":"encrypt",n,pos,inplace?" in place":""); C.out(d,n); }
template<class O> static void check(Ctx&C,const char*nm,O&o,int id,size_t a,size_t t,const char*w){ uint8_t d[24]; memset(d,0x44,24); size_t n=o.digest(d); const B&e=tag(id,a,t); if(n!=16||memcmp(d,e.data(),16)||d[16]!=0x44)C.fail("%s: %s: aad %zu text %zu: tag %s, expected %s",nm,w,a,t,ref::tohex(d,16).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,16); }
template<class T> static void lengths(Ctx&C,const char*nm,int part){ size_t am=mc::thorough()?200:50; std::vector<size_t> tl; for(size_t t=0;t<=(mc::thorough()?600u:90u);t++)tl.push_back(t); for(size_t t:{127,128,129,255,256,447,448,449,511,512,513,575,576,577,1024,1100})tl.push_back(t);
  for(size_t a=part;a<=am;a+=4)for(size_t t:tl){ for(int f=0;f<4;f++){ C.at(a,t,f); T o; init(o,0); o.aad(aad0().data(),a); if(f>=2)o.aadover(); text(C,nm,o,0,f&1,(a+t)&1,0,t); o.finalize(); check(C,nm,o,0,a,t,"one call each"); }
    P::aead::apie<T> w; init(w,0); w.aad(aad0().data(),a); text(C,nm,w,0,t&1,a&1,0,t); check(C,nm,w,0,a,t,"wrapper"); check(C,nm,w,0,a,t,"wrapper again"); }
  for(size_t a=part;a<=(mc::thorough()?1500u:600u);a+=4){ C.at(a); T o; init(o,0); o.aad(aad0().data(),a); o.finalize(); check(C,nm,o,0,a,0,"no text call"); P::aead::apie<T> w; init(w,0); w.aad(aad0().data(),a); check(C,nm,w,0,a,0,"wrapper, no text call"); }
  C.sample("%s: aad 0..%zu x %zu text lengths, both directions, both classes",nm,am,tl.size()); }
// all reachable states (aad given, text given, phase, object)
template<class T> static void states(Ctx&C,const char*nm,int dir){ size_t AM=mc::thorough()?50:36,TM=mc::thorough()?160:100; std::vector<size_t> as={0,1,2,3,5,7,8,15,16,17,31,32,33},ts={0,1,2,7,15,16,17,32,33,47,63,64,65,80}; struct N{size_t a,t;int ph;Box<T> o;}; std::deque<N> q; std::unordered_set<uint64_t> seen; size_t cap=mc::thorough()?60000:9000; bool capped=false; {N n{0,0,0,{}};init(*n.o,0);q.push_back(n);}
  auto visit=[&](N&x){ Box<T> c(x.o); c->finalize(); check(C,nm,*c,0,x.a,x.t,"chunked calls"); C.tr(); uint64_t k=mc::mix(mc::mix(x.a*1000+x.t,x.ph),x.o.key()); if(seen.count(k))return; if(seen.size()>=cap){capped=true;return;} seen.insert(k);C.state(mc::mix(k,mc::h64(nm,strlen(nm))));q.push_back(x); };
  while(!q.empty()){ N n=q.front();q.pop_front(); C.at(n.a,n.t,n.ph); if(n.ph==0){for(size_t k:as){if(n.a+k>AM)break;N x=n;x.o->aad(aad0().data()+x.a,k);x.a+=k;visit(x);}} if(n.ph<2){N x=n;x.o->aadover();x.ph=std::max(x.ph,1);visit(x);} if(n.t&&n.ph==2){N x=n;x.o->aadover();visit(x);} 
    if(n.ph==2||(n.a%4==0||n.a%16==15||n.a%16==1))for(size_t k:ts){if(n.t+k>TM)break;N x=n;text(C,nm,*x.o,0,dir,k&1,x.t,k);x.t+=k;x.ph=2;visit(x);} }
  if(capped)C.capped=true; C.sample("%s: %zu states%s, aad<=%zu text<=%zu",nm,seen.size(),capped?" (capped)":"",AM,TM); }
// every order of operations, with re-initialization anywhere
template<class T> static void history(Ctx&C,const char*nm,int sub){ bool wrap=sub&1; int dir=sub>>1&1; Box<T> o; Box<P::aead::apie<T>> w; int id=0; size_t a=0,t=0; int ph=0; bool fin=false; const size_t as[]={0,1,16,21},ts[]={0,3,64,577}; auto ini=[&](int i){id=i;a=t=0;ph=0;fin=false; if(wrap)init(*w,i);else init(*o,i);}; ini(0); int depth=mc::thorough()?6:5;
  for(int i=0;i<depth;i++){ std::vector<int> en; en.push_back(0);en.push_back(1); if(!fin){ if(ph==0)for(int k=0;k<4;k++)en.push_back(10+k); for(int k=0;k<4;k++)en.push_back(20+k); if(!wrap)en.push_back(30); } en.push_back(40); int op=en[C.choose(int(en.size()))]; C.tr();
    if(op<2)ini(op); else if(op<20){size_t k=as[op-10]; if(wrap)w->aad(aad0().data()+a,k);else o->aad(aad0().data()+a,k);a+=k;} else if(op<30){size_t k=ts[op-20]; if(wrap)text(C,nm,*w,id,dir,i&1,t,k);else text(C,nm,*o,id,dir,i&1,t,k);t+=k;ph=2;} else if(op==30){o->aadover();if(!ph)ph=1;} else {if(!wrap&&!fin)o->finalize(); fin=true; if(wrap)check(C,nm,*w,id,a,t,"history");else check(C,nm,*o,id,a,t,"history");} }
  if(!wrap&&!fin)o->finalize(); if(wrap)check(C,nm,*w,id,a,t,"end of history");else check(C,nm,*o,id,a,t,"end of history"); }
// every byte value at every place of key, nonce; texts of equal bytes
template<class T> static void values(Ctx&C,const char*nm,int part){ B aad=pre(aad0(),13),pt=pre(pt0(),70); for(size_t p=part;p<44;p+=4)for(int v=0;v<256;v+=(mc::thorough()||p%5==0?1:15)){ C.at(p,v); B k(32,0x11),n(12,0x22); (p<32?k[p]:n[p-32])=v; T o;o.initialize(k.data(),32,n.data(),12);o.aad(aad.data(),13);uint8_t c[70],d[16];o.encrypt(pt.data(),70,c);o.finalize();o.digest(d);B e=ref::aead_seal(k,n,pt),g=ref::aead_tag(k,n,aad,e); if(memcmp(c,e.data(),70)||memcmp(d,g.data(),16))C.fail("%s: key/nonce byte %zu = %d: wrong ciphertext or tag",nm,p,v);C.eval();C.out(d,16);} 
  for(int v=part;v<256;v+=4)for(size_t n:{1u,16u,64u,100u}){ C.at(v,n); B m(n,v),k=akey(),nn=anonce(); T o;init(o,0);o.aad(m.data(),n);uint8_t c[100],d[16];o.decrypt(m.data(),n,c);o.finalize();o.digest(d);B g=ref::aead_tag(k,nn,m,m); if(memcmp(d,g.data(),16))C.fail("%s: aad and ciphertext of %zu bytes %d: wrong tag",nm,n,v);C.eval();} }
static B fasttag(const B&k,const B&n,const uint8_t*a,size_t an,const uint8_t*c,size_t cn,Ctx*C=nullptr){ B otk=ref::keystream(k,0,n,64); otk.resize(32); Poly p(otk); auto up=[&](const uint8_t*q,size_t z){while(z){size_t s=std::min<size_t>(z,1<<26);p.update(q,s);q+=s;z-=s;if(C&&C->slot)C->slot->beat++;}}; up(a,an);up(c,cn);B l=ref::cat(ref::le64(an),ref::le64(cn));p.update(l.data(),16);return p.fin(); }
template<class T> static void longs(Ctx&C,const char*nm,int v){ // 0 aad, 1 decrypt, 2 encrypt; each in one call of more than 2^32 bytes
  for(size_t a=0;a<40;a+=3)for(size_t t=0;t<200;t+=13)if(fasttag(akey(),anonce(),aad0().data(),a,ct0().data(),t)!=tag(0,a,t))C.fail("fast reference disagrees with the plain one");
  size_t N=(1ull<<32)+(v==0?21:v==1?115:77); static uint8_t*src=nullptr; if(!src){src=period::make(N+64,false);for(size_t i=0;i<period::PER;i++)src[i]=ref::pat(i%65521,45);} B k=akey(),n=anonce(); T o;init(o,0); uint8_t d[16];B e; C.at(N,v);
  if(v==0){o.aad(src,N);uint8_t c[5];o.encrypt(pt0().data(),5,c);o.finalize();o.digest(d);e=fasttag(k,n,src,N,ct0().data(),5,&C);}
  else if(v==1){static uint8_t*dst=period::make(N,true);o.aad(aad0().data(),3);size_t r=o.decrypt(src,N,dst);if(r!=N)C.fail("%s: returned %zu",nm,r);o.finalize();o.digest(d);e=fasttag(k,n,aad0().data(),3,src,N,&C); for(size_t b=N-4000;b<N;b++){uint8_t blk[64];if(b==N-4000||b%64==0){}ref::chacha_block(k.data(),1+uint32_t(b/64),n.data(),blk);if(dst[b]!=uint8_t(src[b]^blk[b%64]))C.fail("%s: plaintext byte %zu wrong",nm,b);} }
  else {uint8_t*dst=(uint8_t*)mmap(nullptr,N,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);if(dst==MAP_FAILED)C.fail("no memory");size_t r=o.encrypt(src,N,dst);if(r!=N)C.fail("%s: returned %zu",nm,r);o.finalize();o.digest(d);e=fasttag(k,n,nullptr,0,dst,N,&C);for(size_t b=N-4000;b<N;b++){uint8_t blk[64];ref::chacha_block(k.data(),1+uint32_t(b/64),n.data(),blk);if(dst[b]!=uint8_t(src[b]^blk[b%64]))C.fail("%s: ciphertext byte %zu wrong",nm,b);}munmap(dst,N);}
  if(memcmp(d,e.data(),16))C.fail("%s: %s of %zu bytes: tag %s, expected %s",nm,v==0?"aad":v==1?"decrypt":"encrypt",N,ref::tohex(d,16).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,16); C.sample("%s: %s of %zu bytes in one call",nm,v==0?"aad":v==1?"decrypt":"encrypt",N); }
// additional data and texts of sizes around every power of two, in one call and in parts, both directions
template<class T> static void sizes(Ctx&C,const char*nm,int part){ auto w=wide(8,mc::thorough()?22:18); static B m=ref::pattern(w.back()+64,46),d(w.back()+64),ks=ref::keystream(akey(),1,anonce(),w.back()+64),ct=[]{B x=m;for(size_t i=0;i<x.size();i++)x[i]^=ks[i];return x;}(); B k=akey(),n=anonce();
  for(size_t x=part;x<w.size();x+=4)for(int v=0;v<6;v++){ size_t z=w[x],an=v<2?z:v*7,tn=v<2?v*50:z; C.at(z,v); Box<T> o; uint8_t g[16]; B e=fasttag(k,n,m.data(),an,ct.data(),tn); for(int again=0;again<2;again++){ init(*o,0); size_t s=again?z/2+1:z; for(size_t p=0;p<an;p+=s)o->aad(m.data()+p,std::min(s,an-p)); bool dec=v&1; for(size_t p=0;p<tn;p+=s){ size_t q=std::min(s,tn-p); if(v>=4)memcpy(&d[p],(dec?ct:m).data()+p,q); const uint8_t*in=v>=4?&d[p]:(dec?ct:m).data()+p; size_t r=dec?o->decrypt(in,q,&d[p]):o->encrypt(in,q,&d[p]); if(r!=q)C.fail("%s: %zu bytes returned %zu",nm,q,r); } if(memcmp(d.data(),(dec?m:ct).data(),tn))C.fail("%s: text of %zu bytes wrong",nm,tn); o->finalize(); o->digest(g); if(memcmp(g,e.data(),16))C.fail("%s: aad %zu text %zu (kind %d): tag %s, expected %s",nm,an,tn,v,ref::tohex(g,16).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(g,16); } } C.sample("%s: %zu sizes up to %zu",nm,w.size(),w.back()); }
struct Alg{const char*nm;int need;void(*len)(Ctx&,const char*,int),(*st)(Ctx&,const char*,int),(*hi)(Ctx&,const char*,int),(*va)(Ctx&,const char*,int),(*lo)(Ctx&,const char*,int),(*si)(Ctx&,const char*,int);};
#define X(n,t,need) {#n,need,lengths<t>,states<t>,history<t>,values<t>,longs<t>,sizes<t>},
static const Alg A[]={AEADS(X)}; static const int NA=sizeof A/sizeof*A;
static const Alg&alg(Ctx&C,int&sub,int subs){ static std::vector<int> ok=[]{std::vector<int>r;for(int i=0;i<NA;i++)if(have(A[i].need))r.push_back(i);return r;}(); int c=C.choose(int(ok.size())*subs); sub=c%subs; return A[ok[c/subs]]; }
MC_SUITE(longs){ int s=C.choose(mc::thorough()?6:3); auto&a=A[s/3]; a.lo(C,a.nm,s%3); }
MC_SUITE(sizes){ int s; auto&a=alg(C,s,4); a.si(C,a.nm,s); }
MC_SUITE(lengths){ int s; auto&a=alg(C,s,4); a.len(C,a.nm,s); }
MC_SUITE(states){ int s; auto&a=alg(C,s,2); a.st(C,a.nm,s); }
MC_SUITE(history){ int s; auto&a=alg(C,s,4); a.hi(C,a.nm,s); }
MC_SUITE(values){ int s; auto&a=alg(C,s,4); a.va(C,a.nm,s); }
// keys and nonces of other sizes: cut, or padded with zeros, whatever the object held before
template<class O> static void ksz(Ctx&C,const char*nm,int part){ static B kk=ref::pattern(20100,47),ii=ref::pattern(20100,48); B aad=pre(aad0(),19),pt=pre(pt0(),70); for(size_t kn=part;kn<=20000;kn+=4)for(size_t in=0;in<=20000;in++){ if(kn>66&&in>2){ if(in>3||kn+part>20000)break; in=kn+part; } else if(in>28&&kn!=part*9)continue; C.at(kn,in); B k(kk.begin(),kk.begin()+kn),n(ii.begin(),ii.begin()+in); k.resize(32);n.resize(12); B e=ref::aead_seal(k,n,pt),g=ref::aead_tag(k,n,aad,e); O o; for(int t=0;t<2;t++){ uint8_t c[70],d[16]; if(t){B ff(32,0xff);o.initialize(ff.data(),32,ff.data(),12);o.aad(ff.data(),5);o.encrypt(ff.data(),32,c);} o.initialize((const char*)kk.data(),kn,ii.data(),in); o.aad(aad.data(),19); o.encrypt(pt.data(),70,c); if constexpr(requires{o.finalize();})o.finalize(); o.digest(d); if(memcmp(c,e.data(),70)||memcmp(d,g.data(),16))C.fail("%s: key of %zu bytes, nonce of %zu bytes%s: wrong ciphertext or tag",nm,kn,in,t?", after another message":""); C.eval(); C.out(d,16); } } C.sample("%s: key and nonce sizes to 20000",nm); }
#undef X
#define X(n,t,need) {#n,need,ksz<t>,ksz<P::aead::apie<t>>},
struct KAlg{const char*nm;int need;void(*f[2])(Ctx&,const char*,int);}; static const KAlg KA[]={AEADS(X)};
MC_SUITE(keysizes){ int c=C.choose(int(sizeof KA/sizeof*KA)*8); auto&a=KA[c/8]; if(!have(a.need)){C.eval();return;} a.f[c/4%2](C,a.nm,c%4); }
// keys, nonces, additional data and texts with runs and pairs of particular bytes
template<class O> static void fil(Ctx&C,const char*nm,int part){ size_t cnt=0; B pt=pre(pt0(),70),ad=pre(aad0(),40); auto one=[&](const B&k,const B&n,const B&ks,const B&a,const B&t,bool dec,int i,int j,int v){ C.at(i,j,v,dec); cnt++; B x=t; for(size_t q=0;q<x.size();q++)x[q]^=ks[q]; const B&c=dec?t:x; B e=fasttag(k,n,a.data(),a.size(),c.data(),c.size()); if(cnt%977==0&&e!=ref::aead_tag(k,n,a,c))C.fail("fast reference disagrees with the plain one"); O o; o.initialize(k.data(),32,n.data(),12); o.aad(a.data(),a.size()); uint8_t d[70],g[16]; size_t r=dec?o.decrypt(t.data(),70,d):o.encrypt(t.data(),70,d); if constexpr(requires{o.finalize();})o.finalize(); o.digest(g); if(r!=70||memcmp(d,x.data(),70)||memcmp(g,e.data(),16))C.fail("%s: %s with key %s nonce %s aad %s of %s: wrong text or tag",nm,dec?"decrypt":"encrypt",ref::tohex(k).c_str(),ref::tohex(n).c_str(),ref::tohex(a).c_str(),ref::tohex(t).c_str()); C.eval(); C.out(g,16); };
  fills(44,ref::pattern(44,49),part,4,[&](const B&b,int i,int j,int v){ B k(b.begin(),b.begin()+32),n(b.begin()+32,b.end()); one(k,n,ref::keystream(k,1,n,70),ad,pt,i&1,i,j,v); });
  B k=akey(),n=anonce(),ks=ref::keystream(k,1,n,70); fills(40,ad,part,4,[&](const B&b,int i,int j,int v){ one(k,n,ks,b,pt,j&1,i,j,v); });
  for(int d=0;d<4;d++)fills(70,pt,part,4,[&](const B&x,int i,int j,int v){ B b=x; if(d&2)for(int q=0;q<70;q++)b[q]^=ks[q]; one(k,n,ks,ad,b,d&1,i,j,v); });
  if(part==0){ O o; o.initialize(k.data(),32,n.data(),12); if constexpr(requires{o.encrypt_size((const uint8_t*)nullptr,size_t(70));}){ static uint8_t buf[400]; auto sz=[&](size_t al,size_t m){ C.eval(); if(o.encrypt_size((const uint8_t*)buf+al,m)!=m||o.decrypt_size((const uint8_t*)buf+al,m)!=m)C.fail("%s: size announced for %zu bytes at alignment %zu",nm,m,al); }; for(size_t al=0;al<64;al++)for(size_t m=0;m<=200;m++)sz(al,m); fills(70,pt,0,1,[&](const B&x,int,int,int){ memcpy(buf,x.data(),70); sz(0,70); }); } }
  C.sample("%s: %zu keys, nonces, additional data and texts with runs and pairs of particular bytes",nm,cnt); }
#undef X
#define X(n,t,need) {#n,need,fil<t>,fil<P::aead::apie<t>>},
static const KAlg FA[]={AEADS(X)};
MC_SUITE(fills){ int c=C.choose(int(sizeof FA/sizeof*FA)*8); auto&a=FA[c/8]; if(!have(a.need)){C.eval();return;} a.f[c/4%2](C,a.nm,c%4); }
#include "many.h"
MANY_SUITE(SUBJECTS_AEAD)
int main(int c,char**v){return mc::main(c,v);}
