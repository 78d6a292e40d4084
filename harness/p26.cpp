// P26: for equal sizes and public values the instructions and addresses do not depend on secrets
#include "seq.h"
#ifdef COV
// compiler instrumentation: every basic block, load and store
#include "covtrace.h"
namespace tr=cov;
static const bool COVM=true;
#else
#include "trace.h"
namespace tr=trace;
static const bool COVM=false;
#endif
using mc::Ctx;
#ifdef LIGHT
static const bool LT=true;
#else
static const bool LT=false;
#endif
// slots 0 (text) and 1 (key) are secret, nonces, salts and additional data public; all of them lie at fixed addresses
struct Mem{ struct R{uint8_t*p;size_t n;}; alignas(64) static uint8_t a[32768]; static size_t pos; static R reg[64]; static int nr; static bool lay; static void rewind(){pos=0;nr=0;}
  static uint8_t*take(size_t n){ uint8_t*p=a+pos; pos+=(n+31)/16*16; return p; }
  const uint8_t*in(int s,size_t n,int){ uint8_t*p=take(n); if(lay){ if(s<2){reg[nr++]={p,n};} else for(size_t i=0;i<n;i++)p[i]=uint8_t(31*i+7*s); } return p; } uint8_t*out(size_t n){return take(n);} void wrote(uint8_t*,size_t,size_t,size_t){}
  static size_t secret(){size_t n=0;for(int i=0;i<nr;i++)n+=reg[i].n;return n;} };
alignas(64) uint8_t Mem::a[32768]; size_t Mem::pos; Mem::R Mem::reg[64]; int Mem::nr; bool Mem::lay;
static Mem::R regs[64]; static int nregs; static size_t nsecret;
static void fill(const B&w){ size_t o=0; for(int i=0;i<nregs;i++){ if(regs[i].n)memcpy(regs[i].p,w.data()+o,regs[i].n); o+=regs[i].n; } }
// the code under observation: the life of an object
static Step plan[32]; static int nplan;
template<class S> struct Run{ static void go(){ alignas(64) static uint8_t st[sizeof(typename S::T)]; Mem::rewind(); auto*o=new(st)typename S::T; Mem e; int ph=RAW; for(int i=0;i<nplan;i++)ph=S::run(*o,plan[i].op,plan[i].n,e,ph); using T=typename S::T; o->~T(); } };
static void layout(void(*go)()){ memset(Mem::a,0,sizeof Mem::a); Mem::lay=true; go(); Mem::lay=false; nregs=Mem::nr; for(int i=0;i<nregs;i++)regs[i]=Mem::reg[i]; nsecret=Mem::secret(); }
static const char*nm; static std::string what;
static void one(Ctx&C,void(*go)(),const B&w,const char*d,long x=0,long y=0){ C.at(x,y); fill(w); bool same=tr::again(go); C.eval(); C.tr(long(tr::nref)); C.out(mc::h64(w.data(),w.size())); if(!same){ char t[500];tr::describe(t,500); C.fail("%s: %s: takes other steps for secrets that are %s (%ld, %ld) than for zeros: %s",nm,what.c_str(),d,x,y,t); } }
static void start(Ctx&C,void(*go)()){ fill(B(nsecret,0)); go(); go(); size_t st=tr::first(go); if(!st||tr::overflow)C.fail("%s: no trace",nm); C.state(mc::mix(st,nsecret)); C.tr(long(st)); C.eval(); }
// budget: steps per history
static double budget(){
#ifdef COV
 return mc::thorough()?6e8:LT?1.5e7:3e7;
#else
 return mc::thorough()?4e6:LT?1.2e5:1.6e5;
#endif
}
static void worlds(Ctx&C,void(*go)(),double share=1){ start(C,go); size_t n=nsecret; if(!n)return; double runs=budget()*share/double(tr::nref)+1; if(runs>60000)runs=60000; 
  one(C,go,B(n,0),"zeros again"); one(C,go,B(n,0xff),"ones"); { int few=0; for(int v:{0x80,0x55,1,0x7f,0xfe,0xaa,0x20,0x41}){ if(runs<40&&few++==2)break; one(C,go,B(n,v),"one value everywhere",v);} }
  for(int k=0;k<2;k++){ B w(n,0); size_t cut=regs[0].n; for(size_t i=0;i<n;i++)if((i<cut)==(k==0))w[i]=0xff; one(C,go,w,k?"zeros first, then ones":"ones first, then zeros",k); }
  auto pat=[&](int d){return ref::pattern(n,d);}; int P=std::max<int>(3,int(runs*0.4)); for(int d=0;d<P;d++)one(C,go,pat(d+1),"a pattern",d);
  // one byte, one bit: positions evenly spread when the budget is smaller than their number
  size_t q=std::max<size_t>(2,size_t(runs*0.1)); size_t stb=std::max<size_t>(1,(n*8+q-1)/q),sty=std::max<size_t>(1,(n+q-1)/q); if(stb>1)stb|=1; B base=pat(1);
  for(size_t b=0;b<n*8;b+=stb){ B w(n,0);w[b/8]=uint8_t(1<<b%8);one(C,go,w,"one bit set",b); if(runs<40)continue; w=B(n,0xff);w[b/8]^=uint8_t(1<<b%8);one(C,go,w,"one bit clear",b); }
  for(size_t p=0;p<n;p+=sty){ B w=base;w[p]=0;one(C,go,w,"one zero byte",p); if(runs<40)continue; w=base;w[p]=0xff;one(C,go,w,"one byte of ones",p); if(runs>4000)for(int v=0;v<256;v+=(runs>20000?1:17)){w=base;w[p]=uint8_t(v);one(C,go,w,"one byte of a value",p,v);} }
  if(runs>60)for(int v=0;v<256;v+=(runs>600?1:runs>200?5:31))one(C,go,B(n,v),"one value everywhere",v); }
struct H{size_t k,c1,c2;};
static const H HS[]={{32,7,0},{20,70,64},{64,1,130},{150,55,9},{33,0,257}};
template<class S> static void subj(Ctx&C,const char*n,int h,int dir){ nm=n; auto&x=HS[h]; nplan=0; auto add=[&](int op,size_t z){plan[nplan++]={op,z};}; std::string s0=S::op(S::OPS>1?1:0);
  if(s0=="update"){ add(0,x.k); add(1,x.c1); if(x.c2)add(1,x.c2); if(S::legal(READY,2))add(2,0); add(3,64); }
  else if(s0=="derive"){ add(0,x.k); add(1,x.c1); if(x.c2)add(1,x.c2/3+1); }
  else if(s0=="aad"){ add(0,0); add(1,x.k); add(2+dir,x.c1); if(x.c2)add(2+dir,x.c2); if(S::legal(READY,4))add(4,0); add(5,16); }
  else { add(0,0); add(dir?2:1,x.c1); add(3,x.c2); add(dir?1:2,x.c1); }
  std::vector<Step> q(plan,plan+nplan); what=show<S>(q); layout(Run<S>::go); worlds(C,Run<S>::go,s0=="derive"?2:1); C.sample("%s: %s: %zu steps, %zu secret bytes",n,what.c_str(),size_t(tr::nref),nsecret); }
#ifdef COV
#define LIST SUBJECTS_SW
#else
#define LIST SUBJECTS
#endif
#define CNT(...) +1
static const int NS=0 LIST(CNT);
MC_SUITE(objects){ int c=C.choose(NS*5*2); int i=c/10,h=c/2%5,dir=c&1; int k=0; if(!mc::thorough()){
#ifdef COV
   if(h>2)return;
#else
   if(h!=1&&(LT||h!=2||dir))return;
#endif
 }
#define Y(n,S,need) if(k++==i){ if(!have(need))return; using SS=S; if(dir&&(SS::OPS<4||std::string(SS::op(1))=="update"))return; subj<SS>(C,n,h,dir); return; }
  LIST(Y)
#undef Y
}
// Poly1305: secrets that make the accumulator reach and pass the prime and carry through every limb
static std::vector<B> corner(){ std::vector<B> r; for(int f:{0,0xff})for(int b:{0,1,2,4,5,0xfa,0xfb,0xfc,0xfe,0xff}){B x(16,f);x[0]=uint8_t(b);r.push_back(x);} for(int bit:{26,32,44,52,64,78,88,96,104,124}){ B b(16,0);b[bit/8]=1<<(bit%8);r.push_back(b); B m(16,0);for(int i=0;i<bit;i++)m[i/8]|=1<<(i%8);r.push_back(m); B n(16,0xff);for(int i=0;i<bit;i++)n[i/8]&=~(1<<(i%8));r.push_back(n);} return r; }
MC_SUITE(poly){ int part=C.choose(16); using S=SMac<P::mac_poly_1305>; static const std::vector<B> v=corner(); const int N=int(v.size()); nm="poly_1305"; for(size_t len:{16,17,32}){ if(LT&&len!=17)continue; nplan=0; plan[nplan++]={0,32};plan[nplan++]={1,len};plan[nplan++]={2,0};plan[nplan++]={3,16}; what="key of 32, "+std::to_string(len)+" bytes"; layout(Run<S>::go); start(C,Run<S>::go); int L=mc::thorough()?1:LT?31:
#ifdef COV
  1;
#else
  19;
#endif
  int k=0; for(int r=0;r<N;r++)for(int s:{0,9,19})for(int a=0;a<N;a++){ if(k++/L%16!=part||k%L)continue; B w=ref::cat(v[r],ref::cat(v[s],v[a])); w.resize(48+(len-16),0xff); if(len==32)std::copy(v[(a*7+r)%N].begin(),v[(a*7+r)%N].end(),w.begin()+48); one(C,Run<S>::go,w,"corner values",r*100+s,a); } }
  // every small distance of the accumulator from the prime: r = 1 (clamped), blocks 2^128-1.. and d
  for(int rv=1;rv<=4;rv++)for(int d=part;d<256;d+=16*(COVM||mc::thorough()?1:LT?8:2)){ nplan=0; plan[nplan++]={0,32};plan[nplan++]={1,48};plan[nplan++]={2,0};plan[nplan++]={3,16}; if(d==part){what="key of 32, 48 bytes";layout(Run<S>::go);start(C,Run<S>::go);} B w(32,0);w[0]=uint8_t(rv); if(d&1)for(int i=16;i<32;i++)w[i]=0xff; for(int i=0;i<3;i++){B x(16,0xff);x[0]=uint8_t(d);if(i)x[15]=0xfe;w=ref::cat(w,x);} one(C,Run<S>::go,w,"near the prime",rv,d); }
  C.sample("corner limbs of r, s and blocks; accumulator at every small distance around the prime"); }
// AEAD verification and codecs
template<class K> struct Enc{ static size_t n; static void go(){ Mem::rewind(); Mem e; const uint8_t*p=e.in(0,n,0); uint8_t*o=e.out(2*n+8); K::encode(p,n,o); } static void app(){ Mem::rewind(); Mem e; const char*p=(const char*)e.in(0,n,0); char*o=(char*)e.out(2*n+8); P::codec::encode<K>(p,n,o); } };
template<class K> size_t Enc<K>::n;
template<class K> static void enc(Ctx&C,const char*n,int part){ nm=n; for(size_t len=part%8;len<=(LT?8u:mc::thorough()?70u:20u);len+=8){ Enc<K>::n=len; what="encoding "+std::to_string(len)+" bytes"; void(*go)()=part<8?Enc<K>::go:Enc<K>::app; layout(go); start(C,go); if(!len)continue; bool few=!mc::thorough()&&!COVM&&len>3; for(int v=0;v<256;v+=(LT?3:few?15:1))one(C,go,B(len,v),"one value everywhere",v); for(size_t p=0;p<len;p++)for(int v=0;v<256;v+=(mc::thorough()||COVM?1:LT?51:few?51:9))for(int bg:{0,0xff,0x41}){B w(len,bg);w[p]=uint8_t(v);one(C,go,w,"one byte of a value",p,v);} 
#ifdef COV
   if(len<=8)for(size_t p=0;p+1<len;p++)for(int v=0;v<65536;v+=mc::thorough()?1:3){B w(len,0);w[p]=uint8_t(v);w[p+1]=uint8_t(v>>8);one(C,go,w,"two bytes of a value",p,v);}
#endif
   } C.sample("%s: sizes %d+8k, every byte value",n,part%8); }
MC_SUITE(encode){ int c=C.choose(32); if(c<16)enc<P::codec::base_16<>>(C,"base_16",c); else enc<P::codec::base_64<>>(C,"base_64",c-16); }
// one-line and container forms
#include <array>
template<class F> struct Life{ static F*f; static void go(){ Mem::rewind(); Mem e; (*f)(e); } }; template<class F> F*Life<F>::f;
template<class F> static void life(Ctx&C,const char*n,F f,double share=1){ nm=n; what="one call"; Life<F>::f=&f; layout(Life<F>::go); worlds(C,Life<F>::go,share); C.sample("%s: %zu steps, %zu secret bytes",n,size_t(tr::nref),nsecret); }
template<class T> static std::array<uint8_t,32>&A32(T*p){return *(std::array<uint8_t,32>*)p;}
MC_SUITE(oneline){ int c=C.choose(9); if(LT&&!mc::thorough()&&c%2)return; switch(c){
  case 0:life(C,"hash::digest(ptr)",[](Mem&e){auto*p=e.in(0,77,0);P::hash::digest<P::hash_sha_2_256>(p,77,e.out(32));});break; case 1:life(C,"hash::digest(array)",[](Mem&e){auto*p=e.in(0,32,0);P::hash::digest<P::hash_sha_2_512>(A32(p),A32(e.out(32)));});break;
  case 2:life(C,"mac::digest(ptr)",[](Mem&e){auto*k=e.in(1,200,0);auto*p=e.in(0,41,0);P::mac::digest<P::mac_hmac_sha_2_256>(k,200,p,41,e.out(32));});break; case 3:life(C,"mac::digest(array)",[](Mem&e){auto*k=e.in(1,32,0);auto*p=e.in(0,32,0);P::mac::digest<P::mac_hmac_sha_1_160>(A32(k),A32(p),A32(e.out(32)));});break;
  case 4:life(C,"kdf::derive(hkdf)",[](Mem&e){auto*k=e.in(1,40,0);auto*s=e.in(2,9,0);auto*i=e.in(3,5,0);P::kdf::derive<P::kdf_hkdf_hmac_sha_2_256>(k,40,s,9,i,5,e.out(50),50);},2);break; case 5:life(C,"kdf::derive(pbkdf_2)",[](Mem&e){auto*k=e.in(1,12,0);auto*s=e.in(2,9,0);P::kdf::derive<P::kdf_pbkdf_2_hmac_sha_1_160>(k,12,s,9,3,e.out(21),21);},2);break;
  case 6:life(C,"cipher::encrypt",[](Mem&e){auto*k=e.in(1,32,0);auto*s=e.in(2,16,0);auto*p=e.in(0,99,0);P::cipher::encrypt<P::cipher_chacha_20>(k,32,s,16,p,99,e.out(99));});break; case 7:life(C,"cipher::decrypt",[](Mem&e){auto*k=e.in(1,32,0);auto*s=e.in(2,16,0);auto*p=e.in(0,520,0);P::cipher::decrypt<P::cipher_chacha_20_sw>(k,32,s,16,p,520,e.out(520));});break;
  default:life(C,"aead::encrypt",[](Mem&e){auto*k=e.in(1,32,0);auto*s=e.in(2,12,0);auto*a=e.in(3,7,0);auto*p=e.in(0,65,0);auto*o=e.out(65);P::aead::encrypt<P::aead_chacha_20_poly_1305>(k,32,s,12,a,7,p,65,o,e.out(16));}); } }
int main(int c,char**v){return mc::main(c,v);}
