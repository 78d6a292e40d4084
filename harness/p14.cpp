// P14: backend selection under every processor configuration. The processor's answers are replaced (strong definitions of
// the cpuid and xgetbv functions), the assembly functions are entered through counters (generated, --wrap); each
// configuration is a new process, because selection happens once.
#include "all.h"
#include <spawn.h>
#include <sched.h>
#include "p14_gen.h"   // SYMS(X): X(index, "name", needs mask)
extern char**environ;
enum{F_SSE=1,F_SSE2=2,F_SSE3=4,F_SSSE3=8,F_SSE41=16,F_SSE42=32,F_AVX=64,F_OSX=128,F_AVX2=256,F_SHA=512,F_XSSE=1024,F_XAVX=2048,NF=12};
extern "C"{ uint64_t p14_mask=0; }
struct Cfg{ unsigned f; unsigned max; int bg; };
static Cfg&cfg(){ static Cfg c=[]{ const char*e=getenv("P14"); Cfg c{0,0,0}; if(!e||sscanf(e,"%u,%u,%d",&c.f,&c.max,&c.bg)!=3)c.f=~0u; return c; }(); return c; }
static int p14_bad=0;   // 1: xgetbv executed where it is not available
extern "C" void milo_internal_arch_x86_64_cpuid(uint32_t*o,uint32_t leaf,uint32_t sub){ Cfg&c=cfg(); uint32_t z=c.bg?~0u:0; if(c.f==~0u){ __cpuid_count(leaf,sub,o[0],o[1],o[2],o[3]); return; }
  if(leaf==0){ o[0]=c.max;o[1]=0x756e6547;o[2]=0x6c65746e;o[3]=0x49656e69;return; } o[0]=o[1]=o[2]=o[3]=z; auto put=[&](uint32_t&r,int b,bool v){r=v?r|1u<<b:r&~(1u<<b);};
  if(leaf>c.max){ o[0]=o[1]=o[2]=o[3]=~0u; return; } // what processors do here is not defined, most return data of another leaf
  if(leaf==1){ put(o[3],25,c.f&F_SSE);put(o[3],26,c.f&F_SSE2);put(o[2],0,c.f&F_SSE3);put(o[2],9,c.f&F_SSSE3);put(o[2],19,c.f&F_SSE41);put(o[2],20,c.f&F_SSE42);put(o[2],28,c.f&F_AVX);put(o[2],27,c.f&F_OSX); }
  if(leaf==7){ if(sub!=0){o[0]=o[1]=o[2]=o[3]=~0u;return;} put(o[1],5,c.f&F_AVX2);put(o[1],29,c.f&F_SHA); } }
extern "C" uint32_t milo_internal_arch_x86_64_xgetbv(){ Cfg&c=cfg(); if(c.f==~0u){uint32_t a,d;asm volatile("xgetbv":"=a"(a),"=d"(d):"c"(0));return a;} if(!(c.f&F_OSX)||c.max<1)p14_bad=1; return (c.bg?~6u:1u&~6u)|(c.f&F_XSSE?2:0)|(c.f&F_XAVX?4:0); }
struct Sym{const char*nm;unsigned need;};
static const Sym SY[]={
#define X(i,n,m) {n,m},
SYMS(X)
#undef X
};
static const int NSY=sizeof SY/sizeof*SY;
// what a configuration offers: only what is reported and, for AVX, enabled
static unsigned offers(const Cfg&c){ unsigned r=F_SSE|F_SSE2; if(c.max>=1)r|=c.f&(F_SSE3|F_SSSE3|F_SSE41|F_SSE42); bool os=c.max>=1&&(c.f&F_OSX)&&(c.f&F_XSSE)&&(c.f&F_XAVX); if(os)r|=c.f&F_AVX; if(c.max>=7){ if(os&&(r&F_AVX))r|=c.f&F_AVX2; r|=c.f&F_SHA; } return r; }
// everything is reported, at all lower levels too
static bool full(const Cfg&c,unsigned need){ unsigned o=offers(c),ch[]={F_SSE,F_SSE2,F_SSE3,F_SSSE3,F_SSE41,F_SSE42,F_AVX,F_AVX2}; bool top=false; for(int i=7;i>=0;i--){ if(need&ch[i])top=true; if(top&&(!(o&ch[i])||(i<6&&!(c.f&ch[i]))))return false; } if((need&F_SHA)&&!(o&F_SHA))return false; return true; }
struct Res{uint64_t mask;uint64_t h;};
// kinds: 0 default, 1 software named, 2 preferred backend named, 3 enforced
struct Sub{const char*nm;int kind;const char*want;uint64_t(*run)();};
static const B&dat(){static B b=ref::pattern(1600,5);return b;}
template<class H> static uint64_t rh(){ H h;h.initialize();h.update(dat().data(),1111);h.finalize();uint8_t d[64]={};h.digest(d);return mc::h64(d,H::digest_size); }
template<class X> static uint64_t rc(){ X x;x.initialize(dat().data(),32,dat().data()+32,16); static uint8_t o[1600]; x.encrypt(dat().data(),1500,o); x.encrypt(dat().data(),100,o+1500); return mc::h64(o,1600); }
template<class A> static uint64_t ra(){ A a;a.initialize(dat().data(),32,dat().data()+32,12);a.aad(dat().data(),33);static uint8_t o[1600];a.encrypt(dat().data(),1500,o);a.finalize();uint8_t t[16];a.digest(t);return mc::h64(o,1500,mc::h64(t,16)); }
template<class M> static uint64_t rm(){ M m;m.initialize(dat().data(),77);m.update(dat().data(),500);m.finalize();uint8_t d[64]={};m.digest(d);return mc::h64(d,M::digest_size); }
namespace O=milo::option; namespace D=P::detail;


static const Sub SB[]={
 {"sha_1",0,"sha_1",rh<P::hash_sha_1_160>},{"sha_224",0,"sha_2",rh<P::hash_sha_2_224>},{"sha_256",0,"sha_2",rh<P::hash_sha_2_256>},{"sha_384",1,"",rh<P::hash_sha_2_384>},{"sha_512",1,"",rh<P::hash_sha_2_512>},
 {"sha_1 sw",1,"",rh<P::hash_sha_1_160_sw>},{"sha_224 sw",1,"",rh<P::hash_sha_2_224_sw>},{"sha_256 sw",1,"",rh<P::hash_sha_2_256_sw>},{"sha_512 sw",1,"",rh<P::hash_sha_2_512_sw>},
 {"sha_1 hw",2,"sha_1",rh<P::hash_sha_1_160_hw_x86_64_ni>},{"sha_224 hw",2,"sha_2",rh<P::hash_sha_2_224_hw_x86_64_ni>},{"sha_256 hw",2,"sha_2",rh<P::hash_sha_2_256_hw_x86_64_ni>},
 {"sha_1 enforce hw",3,"sha_1",rh<P::hash::sha_1_160<O::impl_enforce<D::hash_sha_1_160_impl_hw_x86_64_ni>>>},{"sha_1 enforce sw",1,"",rh<P::hash::sha_1_160<O::impl_enforce<D::hash_sha_1_160_impl_sw>>>},{"sha_256 enforce hw",3,"sha_2",rh<P::hash::sha_2_256<O::impl_enforce<D::hash_sha_2_256_impl_hw_x86_64_ni>>>},{"sha_256 enforce sw",1,"",rh<P::hash::sha_2_256<O::impl_enforce<D::hash_sha_2_256_impl_sw>>>},
 {"sha_256 enforce hw, prefer sw",3,"sha_2",rh<P::hash::sha_2_256<O::impl_enforce<D::hash_sha_2_256_impl_hw_x86_64_ni>,O::impl_runtime<D::hash_sha_2_256_impl_sw>>>},{"sha_256 enforce sw, prefer hw",1,"",rh<P::hash::sha_2_256<O::impl_runtime<D::hash_sha_2_256_impl_hw_x86_64_ni>,O::impl_enforce<D::hash_sha_2_256_impl_sw>>>},
 {"chacha",0,"chacha",rc<P::cipher_chacha_20>},{"chacha sw",1,"",rc<P::cipher_chacha_20_sw>},{"chacha ssse_3",2,"ssse_3",rc<P::cipher_chacha_20_hw_x86_64_ssse_3>},{"chacha avx_2",2,"avx_2",rc<P::cipher_chacha_20_hw_x86_64_avx_2>},
 {"chacha enforce ssse_3",3,"ssse_3",rc<P::cipher::chacha_20<O::impl_enforce<D::cipher_chacha_impl_hw_x86_64_ssse_3_ietf>>>},{"chacha enforce avx_2",3,"avx_2",rc<P::cipher::chacha_20<O::impl_enforce<D::cipher_chacha_impl_hw_x86_64_avx_2_ietf>>>},{"chacha enforce sw",1,"",rc<P::cipher::chacha_20<O::impl_enforce<D::cipher_chacha_impl_sw_ietf>>>},
 {"chacha compile time option only",0,"chacha",rc<P::cipher::chacha_20<O::impl_cpltime<D::cipher_chacha_impl_sw_ietf>>>},{"sha_1 compile time option only",0,"sha_1",rh<P::hash::sha_1_160<O::impl_cpltime<D::hash_sha_1_160_impl_sw>>>},
 {"aead",0,"chacha",ra<P::aead_chacha_20_poly_1305>},{"aead sw",1,"",ra<P::aead_chacha_20_sw_poly_1305_sw>},{"hmac_sha_1",0,"sha_1",rm<P::mac_hmac_sha_1_160>},{"hmac_sha_256",0,"sha_2",rm<P::mac_hmac_sha_2_256>},{"hmac_sha_256 sw",1,"",rm<P::mac_hmac_sha_2_256_sw>},{"poly",1,"",rm<P::mac_poly_1305>}};
static const int NSB=sizeof SB/sizeof*SB;
static const char*child_exe;
struct Out{int bad;Res r[NSB];};
static void child(){ Out o{}; const char*only=getenv("P14E"); for(int i=0;i<NSB;i++){ if(SB[i].kind==3&&!only)continue; p14_mask=0; o.r[i].h=SB[i].run(); o.r[i].mask=p14_mask; } o.bad=p14_bad; if(write(1,&o,sizeof o)!=sizeof o)_exit(3); _exit(0); }
static uint64_t expect(int i){ static std::vector<uint64_t> e; if(e.empty()){ auto H=[&](int id){B d=ref::hash(id,B(dat().begin(),dat().begin()+1111));return mc::h64(d.data(),d.size());}; B ky(dat().begin(),dat().begin()+32),iv(dat().begin()+32,dat().begin()+48); uint32_t c=iv[0]|iv[1]<<8|iv[2]<<16|uint32_t(iv[3])<<24; B o=ref::chacha(ky,c,B(iv.begin()+4,iv.end()),B(dat().begin(),dat().begin()+1500)); { B z(1600); std::copy(dat().begin(),dat().begin()+1500,z.begin());std::copy(dat().begin(),dat().begin()+100,z.begin()+1500); o=ref::chacha(ky,c,B(iv.begin()+4,iv.end()),z);} uint64_t ch=mc::h64(o.data(),1600);
   B n12(dat().begin()+32,dat().begin()+44); B ct=ref::aead_seal(ky,n12,B(dat().begin(),dat().begin()+1500)); B tag=ref::aead_tag(ky,n12,B(dat().begin(),dat().begin()+33),ct); uint64_t ah=mc::h64(ct.data(),1500,mc::h64(tag.data(),16)); auto M=[&](B t){return mc::h64(t.data(),t.size());}; B k77(dat().begin(),dat().begin()+77),m500(dat().begin(),dat().begin()+500);
   for(int j=0;j<NSB;j++){ std::string n=SB[j].nm; uint64_t v; if(n.rfind("sha_1",0)==0)v=H(ref::SHA1); else if(n.rfind("sha_224",0)==0)v=H(ref::SHA224); else if(n.rfind("sha_256",0)==0)v=H(ref::SHA256); else if(n.rfind("sha_384",0)==0)v=H(ref::SHA384); else if(n.rfind("sha_512",0)==0)v=H(ref::SHA512); else if(n.rfind("chacha",0)==0)v=ch; else if(n.rfind("aead",0)==0)v=ah; else if(n.rfind("hmac_sha_1",0)==0)v=M(ref::hmac(ref::SHA1,k77,m500)); else if(n.rfind("hmac_sha_256",0)==0)v=M(ref::hmac(ref::SHA256,k77,m500)); else v=M(ref::poly1305(k77,m500)); e.push_back(v);} } return e[i]; }
static Out runcfg(mc::Ctx&C,const Cfg&c,bool enforce){ char b[64];snprintf(b,64,"P14=%u,%u,%d",c.f,c.max,c.bg); char*ev[]={b,enforce?(char*)"P14E=1":nullptr,nullptr}; char*av[]={(char*)child_exe,(char*)"--child",nullptr}; int p[2]; if(pipe(p))_exit(96); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa,p[1],1); posix_spawn_file_actions_addclose(&fa,p[0]); pid_t pid; if(posix_spawn(&pid,child_exe,&fa,nullptr,av,ev))_exit(96); close(p[1]); Out o{}; size_t g=0; ssize_t n; while(g<sizeof o&&(n=read(p[0],(char*)&o+g,sizeof o-g))>0)g+=n; close(p[0]); int st; waitpid(pid,&st,0); posix_spawn_file_actions_destroy(&fa); if(g!=sizeof o||st)C.fail("the program does not run with features %03x, highest leaf %u, other bits %d (status %x)",c.f,c.max,c.bg,st); return o; }
static unsigned real(){ static unsigned r=[]{ unsigned f=F_SSE|F_SSE2,a,b,c,d; __cpuid(1,a,b,c,d); if(c&1)f|=F_SSE3; if(c>>9&1)f|=F_SSSE3; if(c>>19&1)f|=F_SSE41; if(c>>20&1)f|=F_SSE42; if(cpu().avx)f|=F_AVX|F_OSX|F_XSSE|F_XAVX; if(cpu().avx2)f|=F_AVX2; if(cpu().sha)f|=F_SHA; return f; }(); return r; }
static std::string names(uint64_t m){std::string s;for(int i=0;i<NSY;i++)if(m>>i&1)s+=std::string(s.empty()?"":", ")+SY[i].nm;return s.empty()?"software":s;}
static void check(mc::Ctx&C,const Cfg&c,bool enforce){ Out o=runcfg(C,c,enforce); if(o.bad)C.fail("xgetbv executed although it is not available: features %03x, highest leaf %u",c.f,c.max); unsigned of=offers(c);
  for(int i=0;i<NSB;i++){ const Sub&s=SB[i]; if(s.kind==3&&!enforce)continue; uint64_t m=o.r[i].mask; 
    if(s.kind==1){ if(m)C.fail("%s: %s used, features %03x, highest leaf %u, other bits %d",s.nm,names(m).c_str(),c.f,c.max,c.bg); }
    else for(int k=0;k<NSY;k++)if(m>>k&1){ if(s.kind!=3&&(SY[k].need&~of))C.fail("%s: %s used without the features it needs (%03x of %03x): features %03x, highest leaf %u, other bits %d",s.nm,SY[k].nm,SY[k].need&~of,SY[k].need,c.f,c.max,c.bg); if(!strstr(SY[k].nm,s.kind==2?(strstr(s.want,"sha")?"sha":"chacha"):s.want))C.fail("%s: %s used",s.nm,SY[k].nm); }
    if(s.kind==2||s.kind==3){ unsigned need=0;uint64_t all=0;for(int k=0;k<NSY;k++)if(strstr(SY[k].nm,s.want)){need|=SY[k].need;all|=1ull<<k;} if(all&&(s.kind==3||full(c,need))){ if(!m||(m&~all))C.fail("%s: %s used instead of the backend named, features %03x, highest leaf %u, other bits %d",s.nm,names(m).c_str(),c.f,c.max,c.bg); } }
    if(o.r[i].h!=expect(i))C.fail("%s: wrong result from %s, features %03x, highest leaf %u, other bits %d",s.nm,names(m).c_str(),c.f,c.max,c.bg); C.eval(); C.out(mc::mix(i,m)); } C.state(mc::mix(c.f,c.max*2+c.bg)); C.tr(); }
MC_SUITE(configurations){ int part=C.choose(128); const unsigned mx[]={0,1,6,7,0x20}; unsigned rf=real(); for(unsigned f=part;f<1u<<NF;f+=128){ if(f&~rf)continue; for(unsigned m:mx)for(int bg=0;bg<2;bg++){ if(!mc::thorough()&&(m==0||m==6)&&bg)continue; C.at(f,m,bg); check(C,{f,m,bg},(f&rf)==rf); } } C.sample("configurations %d + 128k of %d feature bits x highest leaf x other bits",part,NF); }
// enforced backends do not look at the processor (run where the real processor can)
MC_SUITE(enforced){ int c=C.choose(4); if((real()&(F_AVX2|F_SHA))!=(F_AVX2|F_SHA)){C.eval();return;} check(C,{c&1?real():0u,c&2?7u:0u,0},true); C.sample("features %s",c&1?"all":"none"); }
int main(int c,char**v){ if(c>1&&!strcmp(v[1],"--child"))child(); static char self[4096]; ssize_t n=readlink("/proc/self/exe",self,4095); if(n>0)self[n]=0; child_exe=self; return mc::main(c,v); }
