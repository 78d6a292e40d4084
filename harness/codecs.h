// enumeration of codec behaviour, shared by P09 (base 16) and P10 (base 64)
#pragma once
#include "all.h"
#include "period.h"
#include "fills.h"
#include <string>
using mc::Ctx; using milo::error;
#ifdef HEX
using K=P::codec::base_16<>; static const size_t GB=1,GC=2; static const int ERR=error::codec_base_16_decode; static B enc(const B&m){return ref::hex(m);} static bool dec(const B&t,B&o){return ref::unhex(t,o);}
static const char ALPHA[]="0123456789abcdefABCDEF";
#else
using K=P::codec::base_64<>; static const size_t GB=3,GC=4; static const int ERR=error::codec_base_64_decode; static B enc(const B&m){return ref::b64(m);} static bool dec(const B&t,B&o){return ref::unb64(t,o);}
static const char ALPHA[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#endif
using A=P::codec::apie<K>;
static std::string show(const B&b){std::string s;for(auto c:b){if(c>32&&c<127)s+=char(c);else{char t[8];snprintf(t,8,"\\x%02x",c);s+=t;}}return s;}
template<class F,class T> static void enc1(Ctx&C,const B&m,const B&e,const char*form){ static uint8_t out[40000]; size_t n=e.size(); memset(out,0xb7,n+24); size_t z=K::encode_size((const F*)m.data(),m.size()); if(z!=n)C.fail("%s: encode_size(%zu) is %zu, expected %zu",form,m.size(),z,n); size_t r=K::encode((const F*)m.data(),m.size(),(T*)(out+8)); if(r!=n||memcmp(out+8,e.data(),n))C.fail("%s: encode(%s) is %s (%zu), expected %s",form,ref::tohex(m).c_str(),show(B(out+8,out+8+std::min(r,n))).c_str(),r,show(e).c_str()); for(int i=0;i<8;i++)if(out[i]!=0xb7||out[8+n+i]!=0xb7)C.fail("%s: encode of %zu bytes wrote outside",form,m.size()); C.eval(); C.out(out+8,n); }
// runs a call that may throw
#ifdef MC_M32
template<class F> static void thrown(Ctx&,F f,bool&good,int&code){ auto*e=(const error*)m32_try(f); good=!e; code=e?int(error::code(*e)):0; }
#else
template<class F> static void thrown(Ctx&,F f,bool&good,int&code){ try{f();good=true;code=0;}catch(const error&x){good=false;code=int(error::code(x));} }
#endif
// the outcome of one decode call against the reference
template<class F,class T> static void dec1(Ctx&C,const B&t,bool ok,const B&e,const char*form,int mode=0){ static uint8_t out[40000]; size_t cap=(t.size()+GC-1)/GC*GB; memset(out,0xb7,cap+24); error er; if(mode&1)er=error(error::size); size_t z=K::decode_size((const F*)t.data(),t.size()); if(ok&&z!=e.size())C.fail("%s: decode_size(%s) is %zu, expected %zu",form,show(t).c_str(),z,e.size()); if(z>cap)C.fail("%s: decode_size(%s) is %zu",form,show(t).c_str(),z);
  size_t r=0; bool good; int code; if(mode<2){r=K::decode((const F*)t.data(),t.size(),(T*)(out+8),er);good=!er;code=int(error::code(er));} else { thrown(C,[&]{r=A::decode((const F*)t.data(),t.size(),(T*)(out+8));},good,code); }
  if(good!=ok)C.fail("%s: decode(%s) %s, expected %s",form,show(t).c_str(),good?"accepted":"rejected",ok?"success":"an error"); if(!ok&&code!=ERR)C.fail("%s: decode(%s): error code %d, expected %d",form,show(t).c_str(),code,ERR);
  if(ok&&(mode<2||true)&&r!=e.size())C.fail("%s: decode(%s) returned %zu, expected %zu",form,show(t).c_str(),r,e.size()); if(!ok&&mode<2&&r>e.size())C.fail("%s: decode(%s) reported %zu bytes, %zu are correct",form,show(t).c_str(),r,e.size());
  if(ok?memcmp(out+8,e.data(),e.size()):memcmp(out+8,e.data(),r))C.fail("%s: decode(%s) is %s, expected %s",form,show(t).c_str(),ref::tohex(out+8,e.size()).c_str(),ref::tohex(e).c_str()); for(int i=0;i<8;i++)if(out[i]!=0xb7||out[8+z+i]!=0xb7)C.fail("%s: decode(%s) wrote outside its %zu bytes",form,show(t).c_str(),z); if(ok)for(size_t i=e.size();i<z;i++)if(out[8+i]!=0xb7)C.fail("wrote after the result"); C.eval(); if(mode==0)C.out(out+8,ok?r:0); }
static void encall(Ctx&C,const B&m){ B e=enc(m); enc1<uint8_t,char>(C,m,e,"bytes to chars"); enc1<char,uint8_t>(C,m,e,"chars to bytes"); enc1<signed char,signed char>(C,m,e,"signed chars"); }
static void decall(Ctx&C,const B&t){ B e; bool ok=dec(t,e); dec1<char,uint8_t>(C,t,ok,e,"chars to bytes"); dec1<uint8_t,char>(C,t,ok,e,"bytes to chars, error set before",1); dec1<signed char,signed char>(C,t,ok,e,"signed chars, throwing",2);
  if(t.size()<200){ std::string s(t.begin(),t.end()),o="previous contents, longer than the result of most inputs"; error er; size_t r=A::decode(s,o,er); if(!er!=ok)C.fail("decode(string, string, error): %s %s",show(t).c_str(),ok?"rejected":"accepted"); if(r!=o.size()||(ok?r!=e.size():r>e.size())||memcmp(o.data(),e.data(),r))C.fail("decode(string, string, error): %s: result of %zu bytes, %zu returned, %zu expected",show(t).c_str(),o.size(),r,e.size()); std::vector<char> v; bool th=false; int tc=0; thrown(C,[&]{v=P::codec::decode<K,std::vector<char>>(s);},th,tc); th=!th; if(th&&tc!=ERR)C.fail("decode<vector>(string): wrong error"); if(th==ok||ok&&(v.size()!=e.size()||memcmp(v.data(),e.data(),v.size())))C.fail("decode<vector>(string): %s: wrong result",show(t).c_str()); } }
// all byte strings of 0..2 bytes, and all of three (first byte = choice)
MC_SUITE(encode_short){ int b=C.choose(256); B m; if(b==0)encall(C,m); m={uint8_t(b)}; encall(C,m); for(int c=0;c<256;c++){ m={uint8_t(b),uint8_t(c)}; encall(C,m); C.at(b,c); uint8_t o[16]; for(int d=0;d<256;d++){ uint8_t x[3]={uint8_t(b),uint8_t(c),uint8_t(d)}; size_t r=K::encode(x,3,o); bool good;
#ifdef HEX
   static const char*H="0123456789abcdef"; good=r==6&&o[0]==H[b>>4]&&o[1]==H[b&15]&&o[2]==H[c>>4]&&o[3]==H[c&15]&&o[4]==H[d>>4]&&o[5]==H[d&15];
#else
   uint32_t v=b<<16|c<<8|d; good=r==4&&o[0]==ALPHA[v>>18]&&o[1]==ALPHA[v>>12&63]&&o[2]==ALPHA[v>>6&63]&&o[3]==ALPHA[v&63];
#endif
   if(!good)C.fail("encode(%02x%02x%02x) wrong",b,c,d); C.eval(); } } }
// every byte value at every place of longer strings, every length
MC_SUITE(encode_long){ int part=C.choose(16); for(size_t n=part;n<=(mc::thorough()?130u:50u);n+=16)for(size_t p=0;p<n;p++)for(int v=0;v<256;v++)for(int bg:{0,0xff,0x69}){ C.at(n,p,v); B m(n,bg);m[p]=v;encall(C,m);} for(size_t n=part;n<3000;n+=16){ encall(C,ref::pattern(n,n)); B m=ref::pattern(n,n+1),t=enc(m); decall(C,t); } C.sample("every byte value at every place of strings up to %d bytes; all lengths to 3000",mc::thorough()?130:50); }
// every alignment of the source with every one of the destination; runs and pairs of particular bytes
MC_SUITE(places){ int part=C.choose(16); static uint8_t a[64*8+64],b[64*8+64]; uint8_t*A0=(uint8_t*)((size_t(a)+63)&~size_t(63)),*B0=(uint8_t*)((size_t(b)+63)&~size_t(63)); 
  for(size_t so=part;so<64;so+=16)for(size_t df=0;df<64;df++)for(size_t n:{0,1,2,3,4,5,16,31,32,33,48,63,64,65,96,100}){ C.at(so,df,n); B m=ref::pattern(n,n+1),e=enc(m); auto run=[&](const B&in,const B&out,auto f,const char*w){ memcpy(A0+so,in.data(),in.size()); memset(B0+df,0x3c,out.size()+8); size_t r=f(A0+so,in.size(),B0+df); if(r!=out.size()||memcmp(B0+df,out.data(),r)||B0[df+r]!=0x3c)C.fail("%s of %zu bytes, source at %zu and destination at %zu modulo 64: wrong",w,in.size(),so,df); C.eval(); C.out(out.data(),out.size()); };
   run(m,e,[](const uint8_t*s,size_t z,uint8_t*d){size_t q=K::encode_size(s,z),r=K::encode(s,z,d); return q==r?r:~size_t(0);},"encode"); run(m,e,[](const uint8_t*s,size_t z,uint8_t*d){size_t q=A::encode_size((const char*)s,z),r=A::encode((const char*)s,z,(char*)d); return q==r?r:~size_t(0);},"encode (wrapper)"); auto dc=[&](bool w){ return [w](const uint8_t*s,size_t z,uint8_t*d){ error er; size_t q=w?A::decode_size((const char*)s,z):K::decode_size(s,z),r=w?A::decode((const char*)s,z,d,er):K::decode(s,z,(char*)d,er); return q==r&&!er?r:~size_t(0);}; }; run(e,m,dc(false),"decode"); run(e,m,dc(true),"decode (wrapper)"); }
  fills(24,ref::pattern(24,92),part,16,[&](const B&m,int i,int j,int v){ C.at(i,j,v); encall(C,m); decall(C,enc(m)); }); C.sample("64 x 64 alignments; runs and pairs"); }
// sizes around every power of two, with a bad character anywhere near the places where work could be split
MC_SUITE(sizes_wide){ int part=C.choose(8); auto w=wide(10,mc::thorough()?22:18); for(size_t i=part;i<w.size();i+=8){ size_t n=w[i]; B m=ref::pattern(n,n),e=enc(m); static std::vector<char> t; t.assign(e.size()+16,0x3c); static B o; o.assign(n+16,0x3c); C.at(n); if(K::encode_size(m.data(),n)!=e.size())C.fail("encode_size(%zu)",n); size_t r=K::encode(m.data(),n,t.data()); if(r!=e.size()||memcmp(t.data(),e.data(),r)||t[r]!=0x3c)C.fail("encode of %zu bytes",n); C.eval(); error er; if(K::decode_size(e.data(),e.size())!=n)C.fail("decode_size of %zu characters",e.size()); r=K::decode(e.data(),e.size(),o.data(),er); if(er||r!=n||memcmp(o.data(),m.data(),n)||o[n]!=0x3c)C.fail("decode of %zu characters",e.size()); C.eval();
  std::vector<size_t> at; for(size_t b=64;b<=e.size();b*=2)for(int d=-2;d<=1;d++)at.push_back(b+d); for(size_t d=1;d<=9;d++)at.push_back(e.size()-d); for(size_t p:at){ if(p>=e.size())continue; C.at(n,p); uint8_t keep=e[p]; e[p]='.'; r=K::decode(e.data(),e.size(),o.data(),er); if(!er||int(error::code(er))!=ERR)C.fail("decode of %zu characters, the one at %zu bad: no error",e.size(),p); size_t odd=GC==2?e.size()%2:0; if(r>(p+odd)/GC*GB||memcmp(o.data(),m.data(),r))C.fail("decode of %zu characters, the one at %zu bad: %zu bytes reported",e.size(),p,r); e[p]=keep; C.eval(); } } C.sample("sizes up to %zu",w.back()); }
// one call of every size, encoding and decoding; a bad character at a place that moves with the size; texts that cannot be valid for their size
MC_SUITE(every){ int part=C.choose(8); const size_t N=mc::thorough()?60000:20000; static B m=ref::pattern(60100,91); static const B full=enc(B(m.begin(),m.begin()+60000)); static B t(150000),o(150000);
  for(size_t n=part;n<=N;n+=8){ C.at(n); size_t g=n/GB*GC; B tail=enc(B(m.begin()+n/GB*GB,m.begin()+n)); size_t z=g+tail.size(); memset(t.data()+z,0x3c,8); if(K::encode_size(m.data(),n)!=z)C.fail("encode_size(%zu) is %zu, expected %zu",n,K::encode_size(m.data(),n),z); size_t r=n&8?A::encode(m.data(),n,t.data()):K::encode((const char*)m.data(),n,(char*)t.data()); if(r!=z||memcmp(t.data(),full.data(),g)||tail.size()&&memcmp(t.data()+g,tail.data(),tail.size())||t[z]!=0x3c)C.fail("encode of %zu bytes: wrong result (%zu returned)",n,r); C.eval();
    error er; memset(o.data()+n,0x3c,8); if(K::decode_size(t.data(),z)!=n)C.fail("decode_size of %zu characters is %zu, expected %zu",z,K::decode_size(t.data(),z),n); r=n&8?A::decode(t.data(),z,o.data(),er):K::decode((const char*)t.data(),z,(char*)o.data(),er); if(er||r!=n||n&&memcmp(o.data(),m.data(),n)||o[n]!=0x3c)C.fail("decode of %zu characters: %zu returned, error %d",z,r,int(bool(er))); C.eval();
    if(z){ size_t p=n*7919%z; uint8_t keep=t[p]; t[p]='.'; memset(o.data(),0x3c,z+8); r=K::decode(t.data(),z,o.data(),er); t[p]=keep; if(!er||r>p/GC*GB||r&&memcmp(o.data(),m.data(),r))C.fail("decode of %zu characters, the one at %zu bad: %zu returned, error %d",z,p,r,int(bool(er))); C.eval(); } 
    if(z>1){ size_t y=z-1; r=K::decode(t.data(),y,o.data(),er); B e; bool ok=GC==2&&(e={uint8_t(ref::hexval(t[0]))},true); if(!er!=ok||ok&&(r!=n||o[0]!=e[0])||!ok&&r)C.fail("decode of %zu characters: %zu returned, error %d",y,r,int(bool(er))); if(ok)for(size_t i=1;i<n;i++)if(o[i]!=uint8_t(ref::hexval(t[2*i-1])<<4|ref::hexval(t[2*i]))) C.fail("decode of %zu characters: byte %zu wrong",y,i); C.eval(); } } C.sample("every size to %zu",N); }
// sizes of inputs that are never touched
MC_SUITE(sizes){ int part=C.choose(8); auto chk=[&](size_t n){ C.at(n); size_t z=K::encode_size((const char*)nullptr,n),e=
#ifdef HEX
   n*2;
#else
   (n+2)/3*4;
#endif
   if(z!=e)C.fail("encode_size(%zu) is %zu, expected %zu",n,z,e); C.eval(); static char tail[64]="AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"; for(int pad=0;pad<3;pad++){ if(GC==2&&pad)break; size_t len=n/GC*GC; if(len<8)continue; for(int i=0;i<3;i++)tail[32-1-i]=i<pad?'=':'A'; size_t d=K::decode_size((const char*)(uintptr_t(tail)+32-len),len); if(d!=len/GC*GB-pad)C.fail("decode_size of %zu characters with %d of padding is %zu, expected %zu",len,pad,d,len/GC*GB-pad); C.eval(); } };
  for(size_t n=part;n<20000;n+=8)chk(n); for(int b=15;b<int(sizeof(size_t))*8-(GC==2);b++)for(int d=-9+part;d<=9;d+=8)chk((size_t(1)<<b)+d); }
// all candidate encodings of 0..3 characters over all 256 values (16 M of three)
MC_SUITE(decode_short){ int a=C.choose(256); B t; if(a==0)decall(C,t); t={uint8_t(a)};decall(C,t); for(int b=0;b<256;b++){ t={uint8_t(a),uint8_t(b)};decall(C,t); for(int c=0;c<256;c++){ C.at(a,b,c); 
   uint8_t in[3]={uint8_t(a),uint8_t(b),uint8_t(c)},o[8];error er; size_t r=K::decode(in,3,o,er);
#ifdef HEX
   int x=ref::hexval(a),y=ref::hexval(b),z=ref::hexval(c); bool ok=x>=0&&y>=0&&z>=0; if(ok!=!er||ok&&(r!=2||o[0]!=x||o[1]!=(y<<4|z))||!ok&&r>(x>=0?1:0))C.fail("decode(\\x%02x\\x%02x\\x%02x) wrong",a,b,c);
#else
   if(!er||r)C.fail("decode(\\x%02x\\x%02x\\x%02x) wrong",a,b,c);
#endif
   C.eval(); } } }
// all 2^32 strings of four characters
MC_SUITE(decode_four){ int a=C.choose(256); static int V[256]; static bool done=false; if(!done){for(int i=0;i<256;i++)
#ifdef HEX
   V[i]=ref::hexval(i);
#else
   V[i]=ref::b64val(i);
#endif
   done=true;} int va=V[a]; for(int b=0;b<256;b++){ int vb=V[b]; C.at(a,b); long k=0; for(int c=0;c<256;c++){ int vc=V[c]; if(!mc::thorough()&&(va<0||vb<0)&&c%5!=(a+b)%5)continue; for(int d=0;d<256;d++){ uint8_t in[4]={uint8_t(a),uint8_t(b),uint8_t(c),uint8_t(d)},o[4]={0xb7,0xb7,0xb7,0xb7}; error er; size_t r=K::decode(in,4,o,er); int vd=V[d]; bool good;
#ifdef HEX
   bool ok=(va|vb|vc|vd)>=0; good=ok==!er&&(ok?r==2&&o[0]==(va<<4|vb)&&o[1]==(vc<<4|vd):r<=((va|vb)>=0?1u:0u)&&(!r||o[0]==(va<<4|vb)));
#else
   size_t n=c=='='&&d=='='?1:d=='='?2:3; bool ok=(va|vb)>=0&&(n<2||vc>=0)&&(n<3||vd>=0); uint32_t v=(va&63)<<18|(vb&63)<<12|(n>1?vc&63:0)<<6|(n>2?vd&63:0); good=ok==!er&&(ok?r==n&&o[0]==uint8_t(v>>16)&&(n<2||o[1]==uint8_t(v>>8))&&(n<3||o[2]==uint8_t(v)):r==0); good=good&&o[3]==0xb7; size_t z=K::decode_size(in,4); if(ok&&z!=n||z>3)good=false; for(size_t i=z;i<3;i++)if(o[i]!=0xb7)good=false;
#endif
   if(!good)C.fail("decode(%s) wrong: %s, %zu bytes %s",show(B(in,in+4)).c_str(),er?"error":"accepted",r,ref::tohex(o,3).c_str()); } k+=256; } C.eval(k); } C.sample("%s four-character strings",mc::thorough()?"all 2^32":"all with two valid first characters, a fifth of the others"); }
// every character at every place of a longer valid encoding, all lengths
MC_SUITE(decode_places){ int part=C.choose(16); for(size_t n=part;n<=(mc::thorough()?110u:42u);n+=16){ B m=ref::pattern(n,n+5),t=enc(m); 
#ifdef HEX
  for(int up=0;up<3;up++){ if(up)for(size_t i=0;i<t.size();i++)if((up==1||i%2)&&t[i]>='a'&&t[i]<='f')t[i]-=32; decall(C,t); for(int odd=0;odd<2;odd++){ if(odd)t.insert(t.begin(),'a'); decall(C,t);
#else
  { { decall(C,t);
#endif
    for(size_t p=0;p<t.size();p++)for(int v=0;v<256;v++){ C.at(n,p,v); B x=t;x[p]=v;decall(C,x);} for(size_t cut=0;cut<t.size();cut++){decall(C,B(t.begin(),t.begin()+cut));decall(C,B(t.begin()+cut,t.end()));} for(int v:{65,48,61,32,10,0,0x80,0xff})for(int k=1;k<5;k++){B x=t;x.insert(x.end(),k,uint8_t(v));decall(C,x);x=t;x.insert(x.begin(),k,uint8_t(v));decall(C,x);} } } } C.sample("every character at every place of encodings up to %d bytes",mc::thorough()?110:42); }
// all strings over character classes
MC_SUITE(decode_classes){ int j=C.choose(64); static const uint8_t cl[]={'A','9','=',0xc1,'-','_',' ','G'}; 
  for(size_t n=3;n<=(mc::thorough()?9u:8u);n++){ int base=n>7?4:8; size_t tot=1;for(size_t i=0;i<n;i++)tot*=base; for(size_t k=j;k<tot;k+=64){ C.at(n,k); B t(n);size_t x=k;for(auto&c:t){c=cl[x%base];x/=base;} B e;bool ok=dec(t,e); dec1<char,uint8_t>(C,t,ok,e,"class strings"); } }
  if(GC==4)for(size_t n:{12,16})for(size_t k=j;k<(n==12?1u<<16:1u<<18);k+=64){ B t(n,'Q');size_t x=k; for(size_t i=n-(n==12?8:9);i<n;i++){t[i]=cl[x&3];x>>=2;} B e;bool ok=dec(t,e); dec1<char,uint8_t>(C,t,ok,e,"class strings"); } }
// one call of more than 2^32 bytes
MC_SUITE(longs){ int w=C.choose(2); const size_t PER=period::PER; size_t N=(1ull<<32)+GB*7; size_t M=N/GB*GC; 
  // the period must hold whole groups: 2^24 is a multiple of 2 and 4; a source whose encoding has the same period
  if(w==0){ uint8_t*s=period::make(N,false); memset(s,0x5a,PER); 
    uint8_t*d=period::make(M,true); B one=enc(B(s,s+GB)); memset(d,0,PER); size_t r=K::encode(s,N,d); if(r!=enc(B(N%GB?N%GB:0)).size()+N/GB*GC)C.fail("encode of %zu bytes returned %zu",N,r); size_t full=N/GB*GC; for(size_t i=0;i<PER;i++)if(d[i]!=one[i%GC]&&!(full%PER<=i&&i<full%PER+GC))C.fail("encode of %zu bytes: byte %zu wrong",N,i); C.eval(); if(C.slot)C.slot->beat++; 
    size_t e=K::encode_size(s,N); if(e!=r)C.fail("encode_size"); }
  else { size_t L=(1ull<<32)+GC*5; uint8_t*s=period::make(L,false); B one=enc(B(GB,0x5a)); for(size_t i=0;i<PER;i++)s[i]=one[i%GC]; size_t O=L/GC*GB; uint8_t*d=period::make(O,true); memset(d,0,PER); error er; size_t r=K::decode(s,L,d,er); if(er||r!=O)C.fail("decode of %zu characters returned %zu, error %d",L,r,int(bool(er))); for(size_t i=0;i<PER;i++)if(d[i]!=0x5a)C.fail("decode of %zu characters: byte %zu wrong",L,i); C.eval(); if(C.slot)C.slot->beat++;
    s[PER/2+1]='!'; size_t r2=K::decode(s,L,d,er); if(!er||r2>(PER/2)/GC*GB)C.fail("bad character in a long input: %zu reported",r2); C.eval(); }
  C.sample("one call of more than 2^32 bytes"); }
int main(int c,char**v){return mc::main(c,v);}
