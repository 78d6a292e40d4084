// P15: every call the library makes of an assembly function goes through p15_core, which checks the calling convention
#include "subject.h"
#include "p15_gen.h"
static const char*SY[]={SYMS}; static const int NSY=sizeof SY/sizeof*SY;
#ifdef WIND
static const bool wind=true;
#else
static const bool wind=false;
#endif
extern "C"{ extern uint8_t p15_in[],p15_out[]; void p15_check(); }
static char bad[600]; static long calls; static long per[64]; static bool on=false;
static uint64_t q(const uint8_t*p,int o){uint64_t v;memcpy(&v,p+o,8);return v;}
static void set(int o,uint64_t v){memcpy(p15_in+o,&v,8);}
static void sentinels(unsigned k){ for(int i=0;i<8;i++)set(8*i,0x9e3779b97f4a7c15ull*(i+1+k)); static const uint32_t mx[]={0x1f80,0xffc0,0x3f80,0x0000}; static const uint16_t cw[]={0x037f,0x0c7f,0x027f,0x037f}; uint32_t a=mx[k%4]; memcpy(p15_in+64,&a,4); uint32_t b=cw[k%4]; memcpy(p15_in+68,&b,4); uint32_t av=cpu().avx; memcpy(p15_in+72,&av,4); for(int i=0;i<256;i++)p15_in[128+i]=uint8_t(i*37+k*11+1); }
extern "C" void p15_check(){ calls++; int ix=int(q(p15_out,120)); per[ix&63]++; if(bad[0])return; const char*s=ix<NSY?SY[ix]:"?"; static const char*rn[]={"rbx","rbp","r12","r13","r14","r15","rdi","rsi"};
  for(int i=0;i<(wind?8:6);i++)if(q(p15_out,8*i)!=q(p15_in,8*i)){snprintf(bad,600,"%s does not preserve %s",s,rn[i]);return;}
  if(q(p15_out,72)!=q(p15_out,96)){snprintf(bad,600,"%s returns with the stack pointer moved by %ld",s,long(q(p15_out,72)-q(p15_out,96)));return;}
  if(q(p15_out,80)&0x400){snprintf(bad,600,"%s returns with the direction flag set",s);return;} if(q(p15_out,80)&0x40000){snprintf(bad,600,"%s returns with alignment checks on",s);return;}
  uint32_t a,b;memcpy(&a,p15_out+64,4);memcpy(&b,p15_in+64,4); if((a&0xffc0)!=(b&0xffc0)){snprintf(bad,600,"%s changes mxcsr from %x to %x",s,b,a);return;} uint16_t c,d;memcpy(&c,p15_out+68,2);memcpy(&d,p15_in+68,2); if(c!=d){snprintf(bad,600,"%s changes the x87 control word",s);return;} if((q(p15_out,112)&0xffff)!=0xffff){snprintf(bad,600,"%s leaves x87 or MMX registers in use",s);return;}
  if(wind)for(int i=6;i<16;i++)if(memcmp(p15_out+128+16*i,p15_in+128+16*i,16)){snprintf(bad,600,"%s does not preserve xmm%d",s,i);return;}
  if(cpu().avx)for(int i=0;i<16;i++)for(int j=0;j<16;j++)if(p15_out[384+16*i+j]){snprintf(bad,600,"%s leaves the upper half of ymm%d in use",s,i);return;}
  uint64_t*w=(uint64_t*)q(p15_out,104); for(uint64_t i=wind?5:0;i<128;i++)if(w[i]!=(0xc5a3c5a3c5a3c5a3ull^i)){snprintf(bad,600,"%s writes to the frame of its caller (%lu bytes above the return address)",s,(unsigned long)(i*8));return;} }
static void ok(mc::Ctx&C){ if(bad[0]){std::string m=bad;bad[0]=0;C.fail("%s",m.c_str());} }
__attribute__((constructor(101))) static void early(){sentinels(0);} // the processor is asked before main, too
static const B&src(){static B b=ref::pattern(40000,91);return b;}
template<class H> static void hash(mc::Ctx&C,const char*nm,int id,int part){ alignas(64) static uint8_t buf[20000]; size_t mx=mc::thorough()?64*100:64*30; for(size_t n=part;n<=mx;n+=4)for(size_t al=0;al<64;al+=(n%64==0||n%64==63?1:mc::thorough()?1:3)){ C.at(n,al); sentinels(unsigned(n+al)); memcpy(buf+al,src().data(),n); H h;h.initialize();h.update(buf+al,n/2);ok(C);h.update(buf+al+n/2,n-n/2);h.finalize(); uint8_t d[64];h.digest(d);ok(C); static B e;static size_t en=~0ul; if(en!=n){e=ref::hash(id,B(src().begin(),src().begin()+n));en=n;} if(memcmp(d,e.data(),e.size()))C.fail("%s: wrong digest of %zu bytes",nm,n); if(memcmp(buf+al,src().data(),n))C.fail("%s: input changed",nm); C.eval(); C.out(d,e.size()); } C.sample("%s: lengths to %zu, all alignments",nm,mx); }
template<class X> static void cipher(mc::Ctx&C,const char*nm,int part){ alignas(64) static uint8_t s[20000],d[20000]; B ky(src().begin(),src().begin()+32),iv(src().begin()+40,src().begin()+56); uint32_t c=iv[0]|iv[1]<<8|iv[2]<<16|uint32_t(iv[3])<<24; static B k; if(k.empty())k=ref::keystream(ky,c,B(iv.begin()+4,iv.end()),12000); size_t mx=mc::thorough()?11000:4000;
  for(size_t n=part;n<=mx;n+=4)for(int v=0;v<(mc::thorough()?64:16);v++){ size_t so=(n*5+v*13)%64,df=(n/3+v*29)%64; if(v==0)so=df=0; C.at(n,so,df); sentinels(unsigned(n+v)); memcpy(s+so,src().data(),n); memset(d,0xd1,df+n+64); X x;x.initialize(ky.data(),32,iv.data(),16); size_t a=v%2?n/3:0; x.encrypt(s+so,a,d+df); ok(C); x.encrypt(s+so+a,n-a,d+df+a); ok(C); for(size_t i=0;i<n;i++)if(d[df+i]!=uint8_t(src()[i]^k[i]))C.fail("%s: %zu bytes: byte %zu wrong",nm,n,i); for(size_t i=0;i<df;i++)if(d[i]!=0xd1)C.fail("%s: wrote before the output",nm); for(int i=0;i<64;i++)if(d[df+n+i]!=0xd1)C.fail("%s: wrote after the output",nm); C.eval(); C.out(d+df,n); } C.sample("%s: lengths to %zu",nm,mx); }
#define HX(n,h,nd) {#n,nd,h,hash<P::hash_##n>,nullptr},
#define CX(n,h,nd) {#n,nd,0,nullptr,cipher<P::cipher_##n>},
struct A{const char*nm;int need,id;void(*h)(mc::Ctx&,const char*,int,int);void(*c)(mc::Ctx&,const char*,int);};
static const A AS[]={HASHES_HW(HX) HX(sha_1_160,ref::SHA1,ANY) HX(sha_2_256,ref::SHA256,ANY) CIPHERS(CX)};
MC_SUITE(calls){ static std::vector<int> okv=[]{std::vector<int>r;for(size_t i=0;i<sizeof AS/sizeof*AS;i++)if(have(AS[i].need))r.push_back(i);return r;}(); int c=C.choose(int(okv.size())*4); auto&a=AS[okv[c/4]]; long b=calls; if(a.h)a.h(C,a.nm,a.id,c%4); else a.c(C,a.nm,c%4); C.tr(calls-b); }
MC_SUITE(processor){ C.choose(1); for(unsigned k=0;k<64;k++)for(unsigned leaf=0;leaf<32;leaf++)for(unsigned sub=0;sub<4;sub++){ sentinels(k); uint32_t r[4]; milo::internal::arch_x86_64_cpuid(r,leaf,sub); ok(C); C.at(k,leaf,sub); C.eval(); } unsigned a,b,c,d; __cpuid(1,a,b,c,d); if(c>>27&1)for(unsigned k=0;k<64;k++){sentinels(k);milo::internal::arch_x86_64_xgetbv();ok(C);C.eval();} C.sample("cpuid, xgetbv"); }
int main(int c,char**v){ if(bad[0])printf("%s\n",bad); return mc::main(c,v);}
