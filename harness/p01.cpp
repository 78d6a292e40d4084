// P01: hashes. Suites: grid (length x alignment), states (visited-state search over update sizes),
// bytes (every byte value at every place), history (operation sequences), longs (beyond 2^29 and 2^32 bytes)
#include "all.h"
#include "fills.h"
#include <deque>
using mc::Ctx;
static const B&msg(){static B m=ref::pattern(10000);return m;}
static const B&dg(int h,size_t n){ static std::vector<B> t[ref::NH]; auto&v=t[h]; while(v.size()<=n)v.push_back(ref::hash(h,msg().data(),v.size())); return v[n]; }
template<class T> static void same(Ctx&C,const char*nm,T&o,const B&e,const char*what){ uint8_t d[80]; memset(d,0xa5,80); size_t n=o.digest(d); if(n!=e.size()||n!=T::digest_size)C.fail("%s: %s: digest size %zu, expected %zu",nm,what,n,e.size()); if(memcmp(d,e.data(),n))C.fail("%s: %s: digest %s, expected %s",nm,what,ref::tohex(d,n).c_str(),ref::tohex(e).c_str()); if(d[n]!=0xa5)C.fail("%s: %s: digest wrote too far",nm,what); C.out(d,n); C.eval(); }
template<class T> static void grid(Ctx&C,const char*nm,int h,int part){
  size_t B0=ref::hblock(h); static uint8_t buf[20000]; size_t maxl=mc::thorough()?B0*17:B0*5+3; int step=8;
  for(size_t off=part;off<64;off+=step){ memcpy(buf+off,msg().data(),maxl+64); for(size_t n=0;n<=maxl;n++){ C.at(off,n); T o; o.initialize(); o.update(buf+off,n); o.finalize(); uint8_t d[80]; size_t k=o.digest(d); const B&e=dg(h,n); if(k!=e.size()||memcmp(d,e.data(),k))C.fail("%s: length %zu offset %zu: %s, expected %s",nm,n,off,ref::tohex(d,k).c_str(),ref::tohex(e).c_str()); C.out(d,k); C.eval(); } }
  if(part==0)for(size_t n=0;n<=(mc::thorough()?9000u:4200u);n+=(n<1100?1:7)){ C.at(n); T o; o.initialize(); o.update((const char*)msg().data(),n); o.finalize(); static B e[ref::NH]; uint8_t d[80]; size_t k=o.digest(d); B x=n<1500?dg(h,n):ref::hash(h,msg().data(),n); if(k!=x.size()||memcmp(d,x.data(),k))C.fail("%s: length %zu: %s, expected %s",nm,n,ref::tohex(d,k).c_str(),ref::tohex(x).c_str()); C.eval(); }
  C.sample("%s: all lengths 0..%zu at offsets %d,%d,..",nm,maxl,part,part+step); }
// all reachable (position, object) states with updates of every size up to two blocks and one
template<class T> static void states(Ctx&C,const char*nm,int h,int fill){
  size_t B0=ref::hblock(h),lim=B0*3+1; std::vector<size_t> sz; 
  if(mc::thorough()) for(size_t k=0;k<=B0*2+1;k++)sz.push_back(k);
  else for(size_t k=0;k<=B0*2+1;k++) if(k<=9||k%8<=1||k%8==7||k>=B0-10&&k<=B0+3||k>=2*B0-2)sz.push_back(k);
  B m=fill==0?msg():B(lim+64,fill==1?0:0xff); std::vector<B> e; for(size_t n=0;n<=lim;n++)e.push_back(ref::hash(h,m.data(),n));
  struct N{size_t pos;Box<T> o;}; std::deque<N> q; std::unordered_set<uint64_t> seen; {N n{0,{}};n.o->initialize();q.push_back(n);seen.insert(mc::mix(0,n.o.key()));}
  const size_t cap=mc::thorough()?60000:12000; std::vector<int> per(lim+1,0);
  auto fin=[&](const N&n){ Box<T> c(n.o); c->finalize(); uint8_t d[80]; size_t k=c->digest(d); if(k!=e[n.pos].size()||memcmp(d,e[n.pos].data(),k))C.fail("%s: %zu bytes reached by chunked updates: %s, expected %s",nm,n.pos,ref::tohex(d,k).c_str(),ref::tohex(e[n.pos]).c_str()); C.eval(); C.out(d,k); };
  fin(q.front()); bool capped=false;
  while(!q.empty()){ N n=q.front();q.pop_front(); C.at(n.pos);
    for(size_t k:sz){ if(n.pos+k>lim)break; N x=n; x.o->update(m.data()+n.pos,k); x.pos+=k; C.tr(); fin(x); uint64_t key=mc::mix(x.pos,x.o.key()); if(seen.count(key))continue; if(seen.size()>=cap){capped=true;continue;} seen.insert(key); C.state(mc::mix(key,mc::h64(nm,strlen(nm)))); q.push_back(x);} }
  C.sample("%s: %zu states (position, object bytes) within %zu bytes, %zu update sizes%s",nm,seen.size(),lim,sz.size(),capped?" (capped)":""); if(capped)C.capped=true; }
template<class T> static void bytes(Ctx&C,const char*nm,int h,int bg){
  size_t B0=ref::hblock(h); B m(B0+B0/2,0); size_t N=mc::thorough()?m.size():B0; static const uint8_t bgs[]={0,0xff,0x5a};
  for(size_t i=0;i<N;i++)for(int v=0;v<256;v+=(mc::thorough()||i%4==0?1:17)){ C.at(i,v); std::fill(m.begin(),m.end(),bgs[bg]); m[i]=uint8_t(v); T o;o.initialize();o.update(m.data(),m.size());o.finalize();uint8_t d[80];size_t k=o.digest(d);B e=ref::hash(h,m); if(memcmp(d,e.data(),e.size()))C.fail("%s: byte %zu = %d on background %d: %s, expected %s",nm,i,v,bgs[bg],ref::tohex(d,k).c_str(),ref::tohex(e).c_str());C.eval();C.out(d,k);} }
// operation sequences: initialize, updates, finalize, digest; also the wrapper
template<class T> static void history(Ctx&C,const char*nm,int h,bool wrap){
  size_t B0=ref::hblock(h); const size_t us[]={1,0,B0-9,B0,B0+1,2*B0+7}; int depth=mc::thorough()?7:5;
  if(!wrap){ Box<T> o; o->initialize(); size_t pos=0; bool fin=false;
    for(int i=0;i<depth;i++){ int op=C.choose(fin?2:8); if(fin){ if(op==0)same(C,nm,*o,dg(h,pos),"after finalize"); else {o->initialize();pos=0;fin=false;} } else if(op<6){o->update(msg().data()+pos,us[op]);pos+=us[op];} else if(op==6){o->finalize();fin=true;same(C,nm,*o,dg(h,pos),"finalized");} else {o->initialize();pos=0;} C.tr(); }
    if(!fin){o->finalize();} same(C,nm,*o,dg(h,pos),"end of history"); }
  else { using A=P::hash::apie<T>; Box<A> o; bool ctor=true; size_t pos=0; bool fin=false; (void)ctor; o->initialize();
    for(int i=0;i<depth;i++){ int op=C.choose(fin?2:8); if(fin){ if(op==0)same(C,nm,*o,dg(h,pos),"wrapper digest again"); else {o->initialize();pos=0;fin=false;} } else if(op<6){o->update(msg().data()+pos,us[op]);pos+=us[op];} else if(op==6){fin=true;same(C,nm,*o,dg(h,pos),"wrapper digest");} else {o->initialize();pos=0;} C.tr(); }
    same(C,nm,*o,dg(h,pos),"end of wrapper history"); } }
struct Alg{const char*nm;int h;int need;void(*grid)(Ctx&,const char*,int,int),(*states)(Ctx&,const char*,int,int),(*bytes)(Ctx&,const char*,int,int),(*history)(Ctx&,const char*,int,bool);void(*longs)(Ctx&,const char*,int,int);};
// very long messages: one period mapped again and again; expected digests come from hashlib (file LONGS)
static const size_t PER=1<<24; static const size_t LEN[]={(1ull<<29)-1,1ull<<29,(1ull<<29)+64,(1ull<<32)-3,(1ull<<32)+131};
static uint8_t*big(){ static uint8_t*b=[]{ int fd=memfd_create("per",0); if(ftruncate(fd,PER))abort(); size_t n=(1ull<<32)/PER+2; uint8_t*p=(uint8_t*)mmap(nullptr,n*PER,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); for(size_t i=0;i<n;i++)mmap(p+i*PER,PER,PROT_READ|(i?0:PROT_WRITE),MAP_SHARED|MAP_FIXED,fd,0); for(size_t i=0;i<PER;i++)p[i]=ref::pat(i%65521); return p;}(); return b; }
static B longdg(int h,int i){ static std::vector<std::string> L[ref::NH]; if(L[h].empty()){ FILE*f=fopen(getenv("LONGS"),"r"); char a[32],d[200];int k; while(f&&fscanf(f,"%31s %d %199s",a,&k,d)==3)for(int x=0;x<ref::NH;x++)if(!strcmp(a,ref::hname(x))){L[x].resize(5);L[x][k]=d;} if(f)fclose(f);} if(L[h].empty())return {}; B r;B t(L[h][i].begin(),L[h][i].end());ref::unhex(t,r);return r; }
template<class T> static void longs(Ctx&C,const char*nm,int h,int mode){
  auto chk=[&](T o,int i){ o.finalize(); uint8_t d[80];size_t k=o.digest(d);B e=longdg(h,i); if(e.empty())C.fail("no expected digest"); if(memcmp(d,e.data(),e.size()))C.fail("%s: message of %zu bytes (%s): %s, expected %s",nm,LEN[i],mode?"in parts":"one update",ref::tohex(d,k).c_str(),ref::tohex(e).c_str());C.eval();C.out(d,k);};
  if(mode==0){ T o;o.initialize(); size_t n=LEN[4]; C.at(n); o.update(big(),n); if(C.slot)C.slot->beat++; chk(o,4); C.sample("%s: one update of %zu bytes",nm,n); }
  else { T o;o.initialize(); size_t pos=0; int last=mc::thorough()?5:3; for(int i=0;i<last;i++){ while(pos<LEN[i]){size_t k=std::min(LEN[i]-pos,PER*4-37);o.update(big()+pos%PER,k);pos+=k;if(C.slot)C.slot->beat++;} chk(o,i);} C.sample("%s: copies finalized at 2^29-1, 2^29, 2^29+64 bytes",nm); } }
#define X(n,h,need) {#n,h,need,grid<P::hash_##n>,states<P::hash_##n>,bytes<P::hash_##n>,history<P::hash_##n>,longs<P::hash_##n>},
static const Alg A[]={HASHES(X)}; static const int NA=sizeof A/sizeof*A;
static const Alg&alg(Ctx&C,int&sub,int subs){ static std::vector<int> ok=[]{std::vector<int>r;for(int i=0;i<NA;i++)if(have(A[i].need))r.push_back(i);return r;}(); int c=C.choose(int(ok.size())*subs); sub=c%subs; return A[ok[c/subs]]; }
MC_SUITE(longs){ if(!getenv("LONGS")){C.choose(1);C.eval();return;} int s; auto&a=alg(C,s,2); bool autosel=std::string(a.nm).find("_sw")==std::string::npos&&std::string(a.nm).find("_hw")==std::string::npos; bool fam=a.h==ref::SHA1||a.h==ref::SHA256||a.h==ref::SHA512; if(!mc::thorough()&&(autosel||!fam))return; a.longs(C,a.nm,a.h,s); }
MC_SUITE(grid){ int s; auto&a=alg(C,s,8); a.grid(C,a.nm,a.h,s); }
MC_SUITE(states){ int s; auto&a=alg(C,s,mc::thorough()?3:1); a.states(C,a.nm,a.h,s); }
MC_SUITE(bytes){ int s; auto&a=alg(C,s,3); a.bytes(C,a.nm,a.h,s); }
MC_SUITE(history){ int s; auto&a=alg(C,s,2); a.history(C,a.nm,a.h,s); }
// runs and pairs of particular bytes in messages of less and more than a block
template<class O> static void fil(Ctx&C,const char*nm,int h,int part){ size_t cnt=0,b=ref::hblock(h); for(size_t n:{b/2+1,b+5})fills(n,ref::pattern(n,94),part,4,[&](const B&m,int i,int j,int v){ if(!mc::thorough()&&n>60&&(j-i)%16>2)return; C.at(n,i,j,v); cnt++; O o;o.initialize();o.update(m.data(),n);if constexpr(requires{o.finalize();})o.finalize();same(C,nm,o,ref::hash(h,m),"runs and pairs of bytes"); }); C.sample("%s: %zu messages with runs and pairs of particular bytes",nm,cnt); }
#undef X
#define X(n,h,need) {#n,h,need,{fil<P::hash_##n>,fil<P::hash::apie<P::hash_##n>>}},
struct FAlg{const char*nm;int h,need;void(*f[2])(Ctx&,const char*,int,int);}; static const FAlg FA[]={HASHES(X)};
MC_SUITE(fills){ int c=C.choose(int(sizeof FA/sizeof*FA)*4); auto&a=FA[c/4]; if(!have(a.need)){C.eval();return;} a.f[c&1](C,a.nm,a.h,c%4); }
#include "many.h"
MANY_SUITE(SUBJECTS_HASH)
int main(int c,char**v){return mc::main(c,v);}
