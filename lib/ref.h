// Independent reference models of the algorithms: plain, slow, one-shot.
// Validated against python's hashlib/hmac and RFC vectors by reftest.cpp / vf.py.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
namespace ref {
using B=std::vector<uint8_t>;
// fractional parts of square and cube roots of the first primes (computed, not copied)
static const uint64_t K64[]={0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull};
static const uint32_t K32[]={0x428a2f98u,0x71374491u,0xb5c0fbcfu,0xe9b5dba5u,0x3956c25bu,0x59f111f1u,0x923f82a4u,0xab1c5ed5u,0xd807aa98u,0x12835b01u,0x243185beu,0x550c7dc3u,0x72be5d74u,0x80deb1feu,0x9bdc06a7u,0xc19bf174u,0xe49b69c1u,0xefbe4786u,0x0fc19dc6u,0x240ca1ccu,0x2de92c6fu,0x4a7484aau,0x5cb0a9dcu,0x76f988dau,0x983e5152u,0xa831c66du,0xb00327c8u,0xbf597fc7u,0xc6e00bf3u,0xd5a79147u,0x06ca6351u,0x14292967u,0x27b70a85u,0x2e1b2138u,0x4d2c6dfcu,0x53380d13u,0x650a7354u,0x766a0abbu,0x81c2c92eu,0x92722c85u,0xa2bfe8a1u,0xa81a664bu,0xc24b8b70u,0xc76c51a3u,0xd192e819u,0xd6990624u,0xf40e3585u,0x106aa070u,0x19a4c116u,0x1e376c08u,0x2748774cu,0x34b0bcb5u,0x391c0cb3u,0x4ed8aa4au,0x5b9cca4fu,0x682e6ff3u,0x748f82eeu,0x78a5636fu,0x84c87814u,0x8cc70208u,0x90befffau,0xa4506cebu,0xbef9a3f7u,0xc67178f2u};
static const uint64_t I512[]={0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
static const uint64_t I384[]={0xcbbb9d5dc1059ed8ull,0x629a292a367cd507ull,0x9159015a3070dd17ull,0x152fecd8f70e5939ull,0x67332667ffc00b31ull,0x8eb44a8768581511ull,0xdb0c2e0d64f98fa7ull,0x47b5481dbefa4fa4ull};
static const uint32_t I256[]={0x6a09e667u,0xbb67ae85u,0x3c6ef372u,0xa54ff53au,0x510e527fu,0x9b05688cu,0x1f83d9abu,0x5be0cd19u};
static const uint32_t I224[]={0xc1059ed8u,0x367cd507u,0x3070dd17u,0xf70e5939u,0xffc00b31u,0x68581511u,0x64f98fa7u,0xbefa4fa4u};

template<class T> inline T ror(T x,int n){return (x>>n)|(x<<(sizeof(T)*8-n));}
inline B pad(const uint8_t*m,size_t n,size_t blk,size_t lenb){
  B r(m,m+n); r.push_back(0x80); while((r.size()+lenb)%blk) r.push_back(0);
  uint64_t hi=uint64_t(n)>>61,lo=uint64_t(n)<<3;
  for(size_t i=lenb;i-->0;) r.push_back(uint8_t(i<8?lo>>(8*i):i<16?hi>>(8*(i-8)):0));
  return r;
}
// Hash ids
enum H{SHA1,SHA224,SHA256,SHA384,SHA512,SHA512_224,SHA512_256,NH};
inline const char* hname(int h){static const char*n[]={"sha1","sha224","sha256","sha384","sha512","sha512_224","sha512_256"};return n[h];}
inline size_t hsize(int h){static const size_t n[]={20,28,32,48,64,28,32};return n[h];}
inline size_t hblock(int h){return h<=SHA256?64:128;}

// streaming block machines (used for very long messages); blocks only
struct Sha1S{ uint32_t s[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
  void block(const uint8_t*p){ uint32_t w[80]; for(int i=0;i<16;i++) w[i]=uint32_t(p[4*i])<<24|p[4*i+1]<<16|p[4*i+2]<<8|p[4*i+3];
    for(int i=16;i<80;i++) w[i]=ror(w[i-3]^w[i-8]^w[i-14]^w[i-16],31);
    uint32_t a=s[0],b=s[1],c=s[2],d=s[3],e=s[4];
    for(int i=0;i<80;i++){ uint32_t f,k; if(i<20){f=(b&c)|(~b&d);k=0x5a827999;}else if(i<40){f=b^c^d;k=0x6ed9eba1;}else if(i<60){f=(b&c)|(b&d)|(c&d);k=0x8f1bbcdc;}else{f=b^c^d;k=0xca62c1d6;}
      uint32_t t=ror(a,27)+f+e+k+w[i]; e=d;d=c;c=ror(b,2);b=a;a=t; }
    s[0]+=a;s[1]+=b;s[2]+=c;s[3]+=d;s[4]+=e; }
  static const size_t blk=64,lenb=8; B out(size_t n){B r;for(auto x:s)for(int i=3;i>=0;i--)r.push_back(x>>(8*i));r.resize(n);return r;} };
struct Sha32S{ uint32_t s[8]; Sha32S(const uint32_t*iv){memcpy(s,iv,32);}
  void block(const uint8_t*p){ uint32_t w[64]; for(int i=0;i<16;i++) w[i]=uint32_t(p[4*i])<<24|p[4*i+1]<<16|p[4*i+2]<<8|p[4*i+3];
    for(int i=16;i<64;i++){ uint32_t a=w[i-15],b=w[i-2]; w[i]=(ror(b,17)^ror(b,19)^(b>>10))+w[i-7]+(ror(a,7)^ror(a,18)^(a>>3))+w[i-16]; }
    uint32_t v[8]; memcpy(v,s,32);
    for(int i=0;i<64;i++){ uint32_t t1=v[7]+(ror(v[4],6)^ror(v[4],11)^ror(v[4],25))+((v[4]&v[5])^(~v[4]&v[6]))+K32[i]+w[i];
      uint32_t t2=(ror(v[0],2)^ror(v[0],13)^ror(v[0],22))+((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
      for(int j=7;j>0;j--)v[j]=v[j-1]; v[4]+=t1; v[0]=t1+t2; }
    for(int j=0;j<8;j++)s[j]+=v[j]; }
  static const size_t blk=64,lenb=8; B out(size_t n){B r;for(auto x:s)for(int i=3;i>=0;i--)r.push_back(x>>(8*i));r.resize(n);return r;} };
struct Sha64S{ uint64_t s[8]; Sha64S(const uint64_t*iv){memcpy(s,iv,64);}
  void block(const uint8_t*p){ uint64_t w[80]; for(int i=0;i<16;i++){w[i]=0;for(int j=0;j<8;j++)w[i]=w[i]<<8|p[8*i+j];}
    for(int i=16;i<80;i++){ uint64_t a=w[i-15],b=w[i-2]; w[i]=(ror(b,19)^ror(b,61)^(b>>6))+w[i-7]+(ror(a,1)^ror(a,8)^(a>>7))+w[i-16]; }
    uint64_t v[8]; memcpy(v,s,64);
    for(int i=0;i<80;i++){ uint64_t t1=v[7]+(ror(v[4],14)^ror(v[4],18)^ror(v[4],41))+((v[4]&v[5])^(~v[4]&v[6]))+K64[i]+w[i];
      uint64_t t2=(ror(v[0],28)^ror(v[0],34)^ror(v[0],39))+((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
      for(int j=7;j>0;j--)v[j]=v[j-1]; v[4]+=t1; v[0]=t1+t2; }
    for(int j=0;j<8;j++)s[j]+=v[j]; }
  static const size_t blk=128,lenb=16; B out(size_t n){B r;for(auto x:s)for(int i=7;i>=0;i--)r.push_back(x>>(8*i));r.resize(n);return r;} };
template<class S> inline B run(S s,const uint8_t*m,size_t n,size_t out){ B p=pad(m,n,S::blk,S::lenb); for(size_t i=0;i<p.size();i+=S::blk)s.block(&p[i]); return s.out(out); }
inline const uint64_t* iv512t(int t){ // FIPS 180-4 5.3.6
  static uint64_t iv[2][8]; static bool done=false;
  if(!done){ for(int k=0;k<2;k++){ uint64_t x[8]; for(int i=0;i<8;i++)x[i]=I512[i]^0xa5a5a5a5a5a5a5a5ull; std::string nm=k?"SHA-512/256":"SHA-512/224"; B o=run(Sha64S(x),(const uint8_t*)nm.data(),nm.size(),64);
      for(int i=0;i<8;i++){iv[k][i]=0;for(int j=0;j<8;j++)iv[k][i]=iv[k][i]<<8|o[8*i+j];} } done=true; }
  return iv[t==256]; }
inline B hash(int h,const uint8_t*m,size_t n){
  switch(h){ case SHA1:return run(Sha1S(),m,n,20); case SHA224:return run(Sha32S(I224),m,n,28); case SHA256:return run(Sha32S(I256),m,n,32);
    case SHA384:return run(Sha64S(I384),m,n,48); case SHA512:return run(Sha64S(I512),m,n,64); case SHA512_224:return run(Sha64S(iv512t(224)),m,n,28); default:return run(Sha64S(iv512t(256)),m,n,32);} }
inline B hash(int h,const B&m){return hash(h,m.data(),m.size());}
inline B cat(B a,const B&b){a.insert(a.end(),b.begin(),b.end());return a;}
inline B hmac(int h,B k,const B&m){ if(k.size()>hblock(h))k=hash(h,k); k.resize(hblock(h)); B i=k,o=k; for(auto&x:i)x^=0x36; for(auto&x:o)x^=0x5c; return hash(h,cat(o,hash(h,cat(i,m)))); }
inline B hkdf(int h,const B&ikm,const B&salt,const B&info,size_t n){ B prk=hmac(h,salt.empty()?B(hsize(h),0):salt,ikm),t,o; for(int i=1;o.size()<n;i++){ B x=cat(t,info); x.push_back(uint8_t(i)); t=hmac(h,prk,x); o=cat(o,t);} o.resize(n); return o; }
inline B pbkdf2(int h,const B&pw,const B&salt,size_t it,size_t n){ B o; for(uint32_t i=1;o.size()<n;i++){ B x=salt; for(int j=3;j>=0;j--)x.push_back(uint8_t(i>>(8*j))); B u=hmac(h,pw,x),t=u; for(size_t k=1;k<it;k++){u=hmac(h,pw,u);for(size_t j=0;j<t.size();j++)t[j]^=u[j];} o=cat(o,t);} o.resize(n); return o; }
// ChaCha20 (iv = 4 byte little endian counter, 12 byte nonce)
inline void chacha_block(const uint8_t*key,uint32_t ctr,const uint8_t*nonce,uint8_t*out){
  uint32_t s[16]={0x61707865,0x3320646e,0x79622d32,0x6b206574}; auto ld=[](const uint8_t*p){return uint32_t(p[0])|p[1]<<8|p[2]<<16|uint32_t(p[3])<<24;};
  for(int i=0;i<8;i++)s[4+i]=ld(key+4*i); s[12]=ctr; for(int i=0;i<3;i++)s[13+i]=ld(nonce+4*i);
  uint32_t x[16]; memcpy(x,s,64); auto q=[&](int a,int b,int c,int d){ x[a]+=x[b];x[d]=ror(x[d]^x[a],16);x[c]+=x[d];x[b]=ror(x[b]^x[c],20);x[a]+=x[b];x[d]=ror(x[d]^x[a],24);x[c]+=x[d];x[b]=ror(x[b]^x[c],25); };
  for(int i=0;i<10;i++){ for(int j=0;j<4;j++)q(j,4+j,8+j,12+j); for(int j=0;j<4;j++)q(j,4+(j+1)%4,8+(j+2)%4,12+(j+3)%4); }
  for(int i=0;i<16;i++){uint32_t v=x[i]+s[i];for(int j=0;j<4;j++)out[4*i+j]=v>>(8*j);} }
inline B keystream(const B&key,uint32_t ctr,const B&nonce,size_t n){ B o((n+63)/64*64); for(size_t i=0;i*64<n;i++)chacha_block(key.data(),ctr+uint32_t(i),nonce.data(),&o[i*64]); o.resize(n); return o; }
inline B chacha(const B&key,uint32_t ctr,const B&nonce,const B&m){ B k=keystream(key,ctr,nonce,m.size()); for(size_t i=0;i<m.size();i++)k[i]^=m[i]; return k; }
// Poly1305 with plain big numbers (little endian base 2^32)
struct Big{ uint32_t d[12]={0};
  static Big from(const uint8_t*p,size_t n){Big r;for(size_t i=0;i<n;i++)r.d[i/4]|=uint32_t(p[i])<<(8*(i%4));return r;}
  void add(const Big&o){uint64_t c=0;for(int i=0;i<12;i++){c+=uint64_t(d[i])+o.d[i];d[i]=uint32_t(c);c>>=32;}}
  Big mul(const Big&o)const{Big r;for(int i=0;i<6;i++){uint64_t c=0;for(int j=0;i+j<12;j++){c+=uint64_t(d[i])*(j<6?o.d[j]:0)+r.d[i+j];r.d[i+j]=uint32_t(c);c>>=32;}}return r;}
  int cmp(const Big&o)const{for(int i=11;i>=0;i--)if(d[i]!=o.d[i])return d[i]<o.d[i]?-1:1;return 0;}
  void sub(const Big&o){int64_t c=0;for(int i=0;i<12;i++){c+=int64_t(d[i])-o.d[i];d[i]=uint32_t(c);c>>=32;}}
  void mod(){ static Big p=[]{Big p;p.d[0]=0xfffffffb;p.d[1]=p.d[2]=p.d[3]=0xffffffff;p.d[4]=3;return p;}();
    for(;;){ Big hi; bool z=true; for(int i=0;i<12;i++){uint64_t w=d[i+4<12?i+4:11]; if(i+4>=12)w=0; uint64_t w2=i+5<12?d[i+5]:0; hi.d[i]=uint32_t(w>>2|w2<<30); if(hi.d[i])z=false;}
      if(z)break; for(int i=5;i<12;i++)d[i]=0; d[4]&=3; Big five; five.d[0]=5; add(hi.mul5()); }
    while(cmp(p)>=0)sub(p); }
  Big mul5()const{Big r;uint64_t c=0;for(int i=0;i<12;i++){c+=uint64_t(d[i])*5;r.d[i]=uint32_t(c);c>>=32;}return r;} };
inline B poly1305(B key,const B&m){ key.resize(32); B rk(key.begin(),key.begin()+16); for(int i:{3,7,11,15})rk[i]&=15; for(int i:{4,8,12})rk[i]&=252;
  Big r=Big::from(rk.data(),16),s=Big::from(&key[16],16),a;
  for(size_t i=0;i<m.size();i+=16){ size_t n=std::min<size_t>(16,m.size()-i); B b(m.begin()+i,m.begin()+i+n); b.push_back(1); a.add(Big::from(b.data(),b.size())); a=a.mul(r); a.mod(); }
  a.add(s); B o; for(int i=0;i<16;i++)o.push_back(a.d[i/4]>>(8*(i%4))); return o; }
inline B le64(uint64_t x){B r;for(int i=0;i<8;i++)r.push_back(x>>(8*i));return r;}
inline B aead_tag(const B&key,const B&nonce,const B&aad,const B&ct){ B otk=keystream(key,0,nonce,64),m=aad; otk.resize(32); m.resize((m.size()+15)/16*16); m=cat(m,ct); m.resize((m.size()+15)/16*16); m=cat(cat(m,le64(aad.size())),le64(ct.size())); return poly1305(otk,m); }
inline B aead_seal(const B&key,const B&nonce,const B&pt){return chacha(key,1,nonce,pt);}
// codecs
inline B hex(const B&m){B r;for(auto x:m){r.push_back("0123456789abcdef"[x>>4]);r.push_back("0123456789abcdef"[x&15]);}return r;}
inline int hexval(uint8_t c){if(c>='0'&&c<='9')return c-'0';if(c>='a'&&c<='f')return c-'a'+10;if(c>='A'&&c<='F')return c-'A'+10;return -1;}
// returns ok; out = bytes decoded before the first bad group
inline bool unhex(const B&t,B&out){ out.clear(); size_t i=0; if(t.size()&1){int v=hexval(t[0]);if(v<0)return false;out.push_back(v);i=1;} for(;i<t.size();i+=2){int a=hexval(t[i]),b=hexval(t[i+1]);if(a<0||b<0)return false;out.push_back(a<<4|b);} return true; }
inline const char*b64a(){return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";}
inline B b64(const B&m){B r;for(size_t i=0;i<m.size();i+=3){uint32_t v=m[i]<<16|(i+1<m.size()?m[i+1]:0)<<8|(i+2<m.size()?m[i+2]:0);r.push_back(b64a()[v>>18]);r.push_back(b64a()[v>>12&63]);r.push_back(i+1<m.size()?b64a()[v>>6&63]:'=');r.push_back(i+2<m.size()?b64a()[v&63]:'=');}return r;}
inline int b64val(uint8_t c){ if(!c)return -1; const char*p=strchr(b64a(),c); return p?int(p-b64a()):-1; }
inline bool unb64(const B&t,B&out){ out.clear(); if(t.size()%4)return false; for(size_t i=0;i<t.size();i+=4){ bool last=i+4==t.size(); int v[4]; for(int j=0;j<4;j++)v[j]=b64val(t[i+j]); int n=3; if(last&&t[i+3]=='='){n=2;v[3]=0;if(t[i+2]=='='){n=1;v[2]=0;}} for(int j=0;j<4;j++)if(v[j]<0)return false; uint32_t x=v[0]<<18|v[1]<<12|v[2]<<6|v[3]; out.push_back(x>>16);if(n>1)out.push_back(x>>8);if(n>2)out.push_back(x);} return true; }
inline std::string tohex(const uint8_t*p,size_t n){std::string s;for(size_t i=0;i<n;i++){char b[3];snprintf(b,3,"%02x",p[i]);s+=b;}return s;}
inline std::string tohex(const B&b){return tohex(b.data(),b.size());}
// position dependent pattern: no two bytes related by the block structure
inline uint8_t pat(size_t i,unsigned salt=0){ uint64_t x=(i+1)*0x9e3779b97f4a7c15ull+salt*0xd1342543de82ef95ull; x^=x>>29; x*=0xbf58476d1ce4e5b9ull; x^=x>>32; return uint8_t(x>>13); }
inline B pattern(size_t n,unsigned salt=0){B r(n);for(size_t i=0;i<n;i++)r[i]=pat(i,salt);return r;}
}
