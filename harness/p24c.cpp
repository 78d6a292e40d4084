// P24/P25: what a benchmark executes between the two readings of the clock is exactly the requested number of
// calls of the algorithm it is named after, with the sizes given: calls of every function, counted by -finstrument-functions,
// against those of a direct call of the public type of that name.
#include "app.h"
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>
#include <numeric>
#define NI __attribute__((no_instrument_function))
namespace P=milo::primitive;
struct Tab{ static const int N=1<<14; void*key[N]; long cnt[3][N]; int phase; bool on; };
static Tab*T=nullptr;
extern "C" NI void __cyg_profile_func_enter(void*f,void*){ if(!T||!T->on)return; size_t h=(size_t(f)*0x9e3779b97f4a7c15ull)>>50; while(T->key[h]&&T->key[h]!=f)h=(h+1)&(Tab::N-1); T->key[h]=f; T->cnt[T->phase][h]++; }
extern "C" NI void __cyg_profile_func_exit(void*,void*){}
NI static void hook(int k){ T->phase=k&1?2:1; if(k==0)T->phase=1; }
using Mem=std::vector<char>; using In=std::map<std::string,app::u64>;
struct Sub{ const char*alias; const char*suffix; void(*direct)(In&,int); };
// cnt[0]: before the first reading, [1]: between the readings, [2]: afterwards
template<class F> NI static void counted(int n,F f){ T->phase=1; T->on=true; for(int i=0;i<n;i++)f(); T->on=false; }
template<class A> NI static void d_hash(In&in,int n){ Mem m(in["message-size"]); A a; char*const p_m=m.data(); const size_t n_m=m.size(); counted(n,[&]()NI{ char d[A::digest_size]; a.initialize(); a.update(p_m,n_m); a.finalize(); a.digest(d); }); }
template<class A> NI static void d_mac(In&in,int n){ Mem k(in["key-size"]),m(in["message-size"]); A a; char*const p_k=k.data(); const size_t n_k=k.size(); char*const p_m=m.data(); const size_t n_m=m.size(); counted(n,[&]()NI{ char d[A::digest_size]; a.initialize(p_k,n_k); a.update(p_m,n_m); a.finalize(); a.digest(d); }); }
template<class A> NI static void d_hkdf(In&in,int n){ Mem i(in["ikm-size"]),s(in["salt-size"]),f(in["info-size"]),k(in["key-size"]); A a; char*const p_f=f.data(); const size_t n_f=f.size(); char*const p_i=i.data(); const size_t n_i=i.size(); char*const p_k=k.data(); const size_t n_k=k.size(); char*const p_s=s.data(); const size_t n_s=s.size(); counted(n,[&]()NI{ a.initialize(p_i,n_i,p_s,n_s,p_f,n_f); a.derive(p_k,n_k); }); }
template<class A> NI static void d_pbkdf(In&in,int n){ Mem i(in["ikm-size"]),s(in["salt-size"]),k(in["key-size"]); size_t it=in["iterations"]; A a; char*const p_i=i.data(); const size_t n_i=i.size(); char*const p_k=k.data(); const size_t n_k=k.size(); char*const p_s=s.data(); const size_t n_s=s.size(); counted(n,[&]()NI{ a.initialize(p_i,n_i,p_s,n_s,it); a.derive(p_k,n_k); }); }
template<class A,bool E> NI static void d_cipher(In&in,int n){ Mem m(in["bytes-size"]),o(in["bytes-size"]),k(A::key_size),v(A::iv_size); A a; char*const p_k=k.data(); const size_t n_k=k.size(); char*const p_m=m.data(); const size_t n_m=m.size(); char*const p_o=o.data(); const size_t n_o=o.size(); char*const p_v=v.data(); const size_t n_v=v.size(); counted(n,[&]()NI{ a.initialize(p_k,n_k,p_v,n_v); if(E)a.encrypt((const char*)p_m,n_m,p_o); else a.decrypt((const char*)p_m,n_m,p_o); }); }
template<class A,bool E> NI static void d_aead(In&in,int n){ Mem m(in["bytes-size"]),o(in["bytes-size"]),ad(in["aad-size"]),k(A::key_size),v(A::iv_size),t(A::digest_size); A a; char*const p_ad=ad.data(); const size_t n_ad=ad.size(); char*const p_k=k.data(); const size_t n_k=k.size(); char*const p_m=m.data(); const size_t n_m=m.size(); char*const p_o=o.data(); const size_t n_o=o.size(); char*const p_t=t.data(); const size_t n_t=t.size(); char*const p_v=v.data(); const size_t n_v=v.size(); counted(n,[&]()NI{ a.initialize(p_k,n_k,p_v,n_v); a.aad(p_ad,n_ad); a.aadover(); if(E)a.encrypt((const char*)p_m,n_m,p_o); else a.decrypt((const char*)p_m,n_m,p_o); a.finalize(); a.digest(p_t); }); }
template<class A,bool E> NI static void d_codec(In&in,int n){ Mem m(in["bytes-size"]),o; o=P::codec::encode<A,Mem>(m); milo::error er; char*const p_m=m.data(); const size_t n_m=m.size(); char*const p_o=o.data(); const size_t n_o=o.size(); counted(n,[&]()NI{ if(E)A::encode((const char*)p_m,n_m,p_o); else A::decode((const char*)p_o,n_o,p_m,er); }); }
#define SHA(Y) Y(sha_1_160) Y(sha_2_224) Y(sha_2_256) Y(sha_2_384) Y(sha_2_512) Y(sha_2_512_224) Y(sha_2_512_256) Y(sha_1_160_sw) Y(sha_2_224_sw) Y(sha_2_256_sw) Y(sha_2_384_sw) Y(sha_2_512_sw) Y(sha_2_512_224_sw) Y(sha_2_512_256_sw) Y(sha_1_160_hw_x86_64_ni) Y(sha_2_224_hw_x86_64_ni) Y(sha_2_256_hw_x86_64_ni)
static const Sub SUB[]={
#define Y(n) {"hash_" #n,"",d_hash<P::hash_##n>},{"mac_hmac_" #n,"",d_mac<P::mac_hmac_##n>},{"kdf_hkdf_hmac_" #n,"",d_hkdf<P::kdf_hkdf_hmac_##n>},{"kdf_pbkdf_2_hmac_" #n,"",d_pbkdf<P::kdf_pbkdf_2_hmac_##n>},
SHA(Y)
{"mac_poly_1305","",d_mac<P::mac_poly_1305>},{"mac_poly_1305_sw","",d_mac<P::mac_poly_1305_sw>},
#define Z(n,f) {#n,"-encrypt",f<P::n,true>},{#n,"-decrypt",f<P::n,false>},
#define W(n,f) {#n,"-encode",f<P::n,true>},{#n,"-decode",f<P::n,false>},
Z(cipher_chacha_20,d_cipher) Z(cipher_chacha_20_sw,d_cipher) Z(cipher_chacha_20_hw_x86_64_ssse_3,d_cipher) Z(cipher_chacha_20_hw_x86_64_avx_2,d_cipher) Z(aead_chacha_20_poly_1305,d_aead) Z(aead_chacha_20_sw_poly_1305_sw,d_aead) W(codec_base_16,d_codec) W(codec_base_64,d_codec) };
static std::string name(const Sub&s){ std::string n=s.alias; for(auto&c:n)if(c=='_')c='-'; return n+s.suffix; }
static const int SIZES[][4]={{150,40,300,70},{40,150,70,300},{300,70,150,40},{70,300,40,150},{5,9,2,130},{129,64,9,5}};
static bool hw(const std::string&n){ FILE*f=fopen("/proc/cpuinfo","r"); char b[8192]; bool ni=false,a2=false,s3=false; while(fgets(b,sizeof b,f))if(!strncmp(b,"flags",5)){ ni=strstr(b," sha_ni")&&strstr(b," sse4_1"); a2=strstr(b," avx2"); s3=strstr(b," ssse3"); break; } fclose(f); if(n.find("-ni")!=n.npos)return ni; if(n.find("avx-2")!=n.npos)return a2; if(n.find("ssse-3")!=n.npos)return s3; return true; }
struct Counts{ std::map<void*,long> c[3]; };
NI static void reset(){ memset(T,0,sizeof*T); }
NI static Counts take(){ Counts r; for(int i=0;i<Tab::N;i++)if(T->key[i])for(int k=0;k<3;k++)if(T->cnt[k][i])r.c[k][T->key[i]]=T->cnt[k][i]; return r; }
MC_SUITE(calls){ const int NS=int(sizeof SUB/sizeof*SUB),NZ=mc::thorough()?6:3; int j=C.choose(NS); const Sub&s=SUB[j]; std::string n=name(s); if(!T){T=(Tab*)mmap(nullptr,sizeof(Tab),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);} if(!hw(n)){C.eval();return;}
  auto&l=app::listed(true); if(std::find(l.begin(),l.end(),n)==l.end())C.fail("%s is not listed",n.c_str()); int k=app::kind_of(n);
  for(int z=0;z<NZ;z++){ In in; app::V par; for(size_t q=0;q<app::kinds()[k].par.size();q++){ std::string p=app::kinds()[k].par[q]; app::u64 v=app::u64(SIZES[z][q]); if(p=="iterations")v=v%9+1; if(n.find("poly-1305")!=n.npos&&p=="key-size")v=32; in[p]=v; par.push_back("--"+p+"="+std::to_string(v)); }
    reset(); s.direct(in,2); reset(); s.direct(in,1); Counts d=take(); if(d.c[1].empty())C.fail("%s: direct call not counted",n.c_str());
    auto app_=[&](int warm,int time){ reset(); T->on=true; T->phase=0; app::run(app::cat({"--advanced","benchmark","--repeats-warm="+std::to_string(warm),"--repeats-time="+std::to_string(time),"primitive",n},par),{1000},hook); T->on=false; return take(); };
    static const int WT[][2]={{0,1},{0,2},{1,1},{3,1},{2,5},{5,2},{0,0}}; Counts base=app_(0,1); for(auto&wt:WT){ int w=wt[0],t=wt[1]?wt[1]:1; C.at(j,z,w,t); Counts g=app_(w,wt[1]); long extra=0; for(auto&[f,c]:d.c[1]){ long x=g.c[1].count(f)?g.c[1][f]:0; if(x!=t*c)C.fail("%s with %s and so on, %d timed repeats: a function is called %ld times between the readings of the clock; one call of the algorithm calls it %ld times",n.c_str(),par[0].c_str(),t,x,c); long b0=base.c[0].count(f)?base.c[0][f]:0,b1=g.c[0].count(f)?g.c[0][f]:0; if(b1-b0!=w*c)C.fail("%s: %d repeats for warmup add %ld calls of a function before the first reading; one call of the algorithm calls it %ld times",n.c_str(),w,b1-b0,c); C.tr(); }
      for(auto&[f,c]:g.c[1])if(!d.c[1].count(f))extra+=c; if(extra>40*(t+1))C.fail("%s: %ld calls of other functions between the readings of the clock",n.c_str(),extra); C.eval(); C.out(mc::mix(uint64_t(j*8+z),uint64_t(w*8+t))); } C.sample("%s %s: %zu functions per call",n.c_str(),par[0].c_str(),d.c[1].size()); } }
int main(int c,char**v){ return mc::main(c,v); }
