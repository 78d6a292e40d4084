// P25: reports are well-formed JSON and their metrics follow from the measurement
#include "app.h"
using namespace app;
static const std::vector<long>&durations(){ static std::vector<long> d; if(d.empty()){ for(long x:{0l,1l,2l,3l,7l,10l,99l,128l,999l,1000l,1001l,1023l,1024l,65535l,65537l,1000000l,16777217l,999999999l,1000000000l,1000000001l,2147483647l,2147483648l,4294967295l,4294967296l,4294967297l,5270498306l,9999999999l,18446744073l,18446744074l,36893488148l,1000000000000l,1234567890123l,9007199254740993l,1000000000000000l,4611686018427387904l,9000000000000000000l})d.push_back(x); } return d; }
static const char*CLK[]={nullptr,"0","1","7","1000","3500","5000","4294","4295","1000000","4294967296","18446744073709"};
static const char*REP[]={"1","0","2","3","7","10","64","1000",nullptr};
static const char*ONE[]={"codec-base-64-decode","hash-sha-2-224","mac-hmac-sha-1-160","kdf-hkdf-hmac-sha-2-512","kdf-pbkdf-2-hmac-sha-1-160","cipher-chacha-20-encrypt","aead-chacha-20-poly-1305-decrypt"};
static V args(int k,const char*rep,const char*cl,const std::vector<int>&sz,const char*expr=nullptr){ V a{"benchmark","--repeats-warm=0"}; if(rep)a.push_back(S("--repeats-time=")+rep); if(cl)a.push_back(S("--cpu-clock=")+cl); a.push_back("primitive"); a.push_back(expr?expr:ONE[k]); for(size_t q=0;q<kinds()[k].par.size();q++){ S p=kinds()[k].par[q]; a.push_back("--"+p+"="+std::to_string(sz[q%sz.size()])); } return a; }
// every duration x repeats x clock x size, for one kind
MC_SUITE(metrics){ auto&D=durations(); int di=C.choose(int(D.size())); for(int r=0;r<9;r++)for(int c=0;c<12;c++)for(int z:{0,1,3,64,1000}){ if(!mc::thorough()&&(r*5+c*3+z+di)%2)continue; C.at(di,r,c,z); check(C,args(1,REP[r],CLK[c],{z}),{D[di]}); } C.sample("duration %ld ns",D[di]); }
// every kind: which sizes are counted as processed
MC_SUITE(kinds_){ int k=C.choose(7); auto&D=durations(); for(size_t d=0;d<D.size();d+=(mc::thorough()?1:4))for(int r:{0,3,5})for(int c:{0,2,5})for(int z=0;z<16;z++){ std::vector<int> sz; static const int v[]={0,1,17,200,33,5}; for(int q=0;q<4;q++)sz.push_back(z>>q&1?v[2+q]:v[(z+q)%2]); C.at(k,long(d),r,c,z); check(C,args(k,REP[r],CLK[c],sz),{D[d]}); } }
// several benchmarks in one run, each with a duration of its own
MC_SUITE(several){ static const char*EX[]={"*","hash-*","*-sha-2-*","mac-*","cipher-*","aead-*","codec-*","kdf-*","c*e","*encrypt","*512*","none*"}; int i=C.choose(12); for(int adv=0;adv<2;adv++)for(int cl:{0,5})for(int verb=0;verb<2;verb++)for(int base=1;base<=(mc::thorough()?40:6);base++){ std::vector<long> t; for(int q=0;q<120;q++)t.push_back(1000l*base*(q+1)*(q+3)+17*q); V a; if(adv)a.push_back("--advanced"); if(verb)a.push_back("--verbose"); a=cat(a,{"benchmark","--repeats-time=1","--repeats-warm=0"}); if(CLK[cl])a.push_back(S("--cpu-clock=")+CLK[cl]); a=cat(a,{"primitive",EX[i]}); C.at(i,adv,cl,verb,base); check(C,cat(a,all("16")),t); C.tr(long(listed(adv).size())); } }
// argument strings in the verbose report
static V line(const V&extra,const V&before={}){ return cat(cat(cat(V{"--verbose"},before),V{"benchmark","--repeats-time=1","--repeats-warm=0","primitive","hash-sha-1-160","--message-size=2"}),extra); }
MC_SUITE(every_byte){ int c=C.choose(255)+1; S b(1,char(c)); check(C,line({b})); check(C,line({"--x="+b,"-"+b})); check(C,line({b+b,"a"+b,b+"a","a"+b+"b"})); check(C,line({},{"-"+b,"--"+b+"="+b})); for(int d=1;d<256;d++){ S e=b+S(1,char(d)); C.at(c,d); if(d%8==0){ V x; for(int q=d;q<d+8&&q<256;q++){ x.push_back(b+S(1,char(q))); x.push_back("-"+b+S(1,char(q))+b); } check(C,line(x)); } } }
static const char SPECIAL[]={'"','\\','/','u','\n','\t','\b','\0'+1,'\x1f','\x7f','\x80','\xff','{','}','[',',',':','0',' ','\''};
MC_SUITE(special_strings){ const int N=20,L=mc::thorough()?4:3; int i=C.choose(N*N); for(int l=2;l<=L;l++){ long n=1; for(int q=2;q<l;q++)n*=N; V x; for(long z=0;z<n;z++){ S s{SPECIAL[i%N],SPECIAL[i/N]}; long y=z; for(int q=2;q<l;q++){s+=SPECIAL[y%N];y/=N;} x.push_back(s); if(x.size()==20||z==n-1){ C.at(i,l,z); check(C,line(x)); C.eval(long(x.size())-1); x.clear(); } } } }
// strings that look like other things, empty strings, many and long arguments
MC_SUITE(shapes){ static const char*w[]={"","null","true","false","0","-1","1e5","{}","[]","\"\"","\\","\\u0000","\\\"","NaN","</script>","\xe2\x80\xa8","\xed\xa0\x80","\xc0\x80","\xf0\x9f\x98\x80","%s%n%d","  ","--","-","--=","--=="}; int i=C.choose(26); if(i<25){ check(C,line({w[i]})); check(C,line({w[i],w[i]})); check(C,line({S("x")+w[i]+"y"})); for(auto y:w)check(C,line({S("-")+w[i],y})); return; } for(int n:{1,2,3,100,1000,5000}){ V x; for(int k=0;k<n;k++)x.push_back(std::to_string(k)+(k%3?"\"":"\n")); check(C,line(x)); } for(int n:{1,15,16,17,255,256,4095,4096,4097,65536,100000}){ check(C,line({S(size_t(n),'a')})); check(C,line({S(size_t(n),'"')})); check(C,line({S(size_t(n),'\x01')})); check(C,line({},{"-"+S(size_t(n),'\\')})); } }
int main(int c,char**v){ return mc::main(c,v); }
