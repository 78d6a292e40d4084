// P22: runs the units linked into a program, compares with the reference models and with each other
#include "p22.h"
#include "ref.h"
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
using ref::B;
extern "C"{
#define D(n) void p22_battery_##n(p22_emit,void*); void p22_sizes_##n(p22_emit,void*); void p22_make_##n(void*,int,size_t); void p22_use_##n(void*,int,size_t,p22_emit,void*);
D(0)
#ifdef TWO
D(1)
#endif
}
static B pat(size_t n,unsigned s){B v(n);for(size_t i=0;i<n;i++)v[i]=uint8_t((i*7+s*31+(i>>3)*13)^(s>>2));return v;}
static long evals=0; static uint64_t sum=1469598103934665603ull; static bool bad=false;
static void fail(const char*n,size_t len,const B&got,const B&e){ if(!bad)printf("FAILED %s, %zu: %s, expected %s\n",n,len,ref::tohex(got).c_str(),ref::tohex(e).c_str()); bad=true; }
static B expect(const std::string&n,size_t len){ static std::map<std::string,int> H{{"sha1",ref::SHA1},{"sha224",ref::SHA224},{"sha256",ref::SHA256},{"sha384",ref::SHA384},{"sha512",ref::SHA512},{"sha512_224",ref::SHA512_224},{"sha512_256",ref::SHA512_256}}; auto i=H.find(n); if(i!=H.end())return ref::hash(i->second,pat(len,1));
  if(n=="hmac1"||n=="hmac256"||n=="hmac512")return ref::hmac(n=="hmac1"?ref::SHA1:n=="hmac256"?ref::SHA256:ref::SHA512,pat(len%1000,3),pat(len/1000,2)); if(n=="poly1305")return ref::poly1305(pat(32,3),pat(len/1000,2));
  B key=pat(32,7),iv=pat(16,8),no=pat(12,9); if(n=="hkdf")return ref::hkdf(ref::SHA256,pat(len,4),pat(len/2,5),pat(len/3,6),70+len); if(n=="pbkdf2")return ref::pbkdf2(ref::SHA1,pat(len,4),pat(len/2,5),3,30+len/2);
  if(n=="chacha")return ref::chacha(key,iv[0]|iv[1]<<8|iv[2]<<16|uint32_t(iv[3])<<24,B(iv.begin()+4,iv.end()),pat(len,10)); if(n=="aead")return ref::aead_seal(key,no,pat(len,11)); if(n=="aead tag")return ref::aead_tag(key,no,pat(len%37,12),ref::aead_seal(key,no,pat(len,11)));
  if(n=="base16")return ref::hex(pat(len,13)); if(n=="base64")return ref::b64(pat(len,13)); if(n=="base64 changed"||n=="base16 changed"){ B g=n[4]=='6'?ref::b64(pat(len/256,13)):ref::hex(pat(len/256,13)); g[g.size()*3/7]=uint8_t(len%256); B o; bool ok=n[4]=='6'?ref::unb64(g,o):ref::unhex(g,o); return B(1,ok?0:1); }
  if(n=="literal 16"||n=="literal 64")return B{0,0xff,0x7f,0x80}; if(n.substr(0,7)=="literal")return B{'t','e','x','t'}; return B(1,0xee); }
static void check(void*,const char*n,size_t len,const void*p,size_t z){ B g((const uint8_t*)p,(const uint8_t*)p+z); std::string s=n; static std::map<std::pair<std::string,size_t>,B> memo; auto k=std::make_pair(s,len); auto i=memo.find(k); if(i==memo.end())i=memo.emplace(k,expect(s=="base16"||s=="base64"?s:s,len)).first; if(g!=i->second)fail(n,len,g,i->second); evals++; for(auto c:g)sum=(sum^c)*1099511628211ull; }
struct L{ std::vector<std::pair<std::string,B>> v; static void add(void*u,const char*n,size_t,const void*p,size_t z){((L*)u)->v.push_back({n,B((const uint8_t*)p,(const uint8_t*)p+z)});} };
// the units are used before their own static initialization (this file comes first in the link) and after their destruction
static struct Early{ Early(){ p22_battery_0(check,nullptr); } ~Early(){ if(bad)return; p22_battery_0(check,nullptr); if(bad){ printf("during destruction of static objects\n"); fflush(stdout); _Exit(1); } } } early;
int main(){ if(bad){ printf("during initialization of static objects\n"); return 1; } p22_battery_0(check,nullptr); L s0; p22_sizes_0(L::add,&s0);
  auto cross=[&](auto mk,auto us){ L l; alignas(64) static unsigned char st[4096]; for(int k=0;k<7;k++)for(size_t n:{0,1,15,64,70,200}){ memset(st,0x3c,sizeof st); mk(st,k,n); us(st,k,n,L::add,&l); } return l; }; L own=cross(p22_make_0,p22_use_0); evals+=long(own.v.size());
#ifdef TWO
  p22_battery_1(check,nullptr); L s1; p22_sizes_1(L::add,&s1); for(size_t i=0;i<s0.v.size();i++)if(s0.v[i]!=s1.v[i])fail(("size and alignment of "+s0.v[i].first+" in the second unit").c_str(),0,s1.v[i].second,s0.v[i].second);
  for(auto&l:{cross(p22_make_0,p22_use_1),cross(p22_make_1,p22_use_0),cross(p22_make_1,p22_use_1)})for(size_t i=0;i<own.v.size();i++){ evals++; if(l.v[i]!=own.v[i])fail(("an object made in one unit and used in another, "+own.v[i].first).c_str(),i,l.v[i].second,own.v[i].second); }
#endif
  for(auto&x:own.v)for(auto c:x.second)sum=(sum^c)*1099511628211ull; std::string z; for(auto&x:s0.v)z+=x.first+"="+ref::tohex(x.second)+";"; printf("RESULT evals=%ld sum=%016llx sizes=%s\n",evals,(unsigned long long)sum,z.c_str()); return bad; }
