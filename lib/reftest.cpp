// prints reference results for vf.py to compare with hashlib, hmac, base64 and big-int python
#include "ref.h"
#include <cstdio>
using namespace ref;
int main(){
  for(int h=0;h<NH;h++) for(size_t n:{0,1,3,55,56,57,63,64,65,111,112,113,119,120,127,128,129,200,255,256,300}) printf("hash %s %zu %s\n",hname(h),n,tohex(hash(h,pattern(n))).c_str());
  for(int h=0;h<NH;h++) for(size_t k:{0,1,63,64,65,127,128,129,200}) for(size_t n:{0,10,200}) printf("hmac %s %zu %zu %s\n",hname(h),k,n,tohex(hmac(h,pattern(k,1),pattern(n))).c_str());
  for(int h=0;h<NH;h++) for(size_t it:{1,2,5}) for(size_t n:{1,20,64,65,130}) printf("pbkdf2 %s %zu %zu %s\n",hname(h),it,n,tohex(pbkdf2(h,pattern(9,1),pattern(12,2),it,n)).c_str());
  for(int h=0;h<NH;h++) for(size_t n:{1,20,64,65,130,500}) for(size_t s:{0,5,150}) printf("hkdf %s %zu %zu %s\n",hname(h),n,s,tohex(hkdf(h,pattern(40,1),pattern(s,2),pattern(30,3),n)).c_str());
  for(uint32_t c:{0u,1u,0xfffffffeu}) for(size_t n:{1,64,65,300}) printf("chacha %u %zu %s\n",c,n,tohex(keystream(pattern(32,1),c,pattern(12,2),n)).c_str());
  for(size_t n:{0,1,15,16,17,31,32,33,64,100}) for(int f=0;f<3;f++){ B k=f==0?pattern(32,1):B(32,f==1?0xff:0x02),m=f==0?pattern(n):B(n,0xff); printf("poly %d %zu %s\n",f,n,tohex(poly1305(k,m)).c_str()); }
  for(size_t a:{0,1,12,16,17}) for(size_t n:{0,1,16,65,114}) { B ct=aead_seal(pattern(32,1),pattern(12,2),pattern(n,3)); printf("aead %zu %zu %s %s\n",a,n,tohex(ct).c_str(),tohex(aead_tag(pattern(32,1),pattern(12,2),pattern(a,4),ct)).c_str()); }
  for(size_t n=0;n<40;n++){ B e=b64(pattern(n)),x=hex(pattern(n)),d1,d2; bool o1=unb64(e,d1),o2=unhex(x,d2); printf("codec %zu %s %s %d\n",n,tohex(e).c_str(),tohex(x).c_str(),o1&&o2&&d1==pattern(n)&&d2==pattern(n)); }
  for(size_t n=0;n<200;n+=13)printf("pat %zu %d %d\n",n,pat(n),pat(n,3));
}
