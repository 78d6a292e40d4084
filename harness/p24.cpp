// P24: command line arguments are taken as the documented tree says
#include "app.h"
using namespace app;
// six tokens, each at any place or absent
MC_SUITE(placement){ static const char*T[]={"--advanced","--verbose","--repeats-time=3","--repeats-warm=2","--cpu-clock=7","--message-size=5"}; const int P=6; int pl[6]; pl[0]=C.choose(P*P); pl[1]=pl[0]%P; pl[0]/=P; for(int x=0;x<P*P*P*P;x++){ int z=x; for(int k=2;k<6;k++){pl[k]=z%P;z/=P;} C.at(pl[0],pl[1],x); V a; static const char*cm[]={"benchmark","primitive","hash-sha-1-160*","hash-sha-2-256"}; for(int s=1;s<P;s++){ for(int k=0;k<6;k++)if(pl[k]==s)a.push_back(T[k]); if(s<P-1)a.push_back(cm[s-1]); } check(C,a); C.tr(); } C.sample("six tokens at all places: %d",P*P*P*P); }
// all lists over an alphabet of tokens
static const char*TOK[]={"benchmark","primitive","list","hash-sha-1-160","--message-size=3","--advanced","--repeats-time=2","-x","--zzz=9","version","--verbose","h*4","--"};
MC_SUITE(sequences){ const int L=mc::thorough()?6:5,N=mc::thorough()?11:9; int f=C.choose(N*N+1); std::vector<V> st; if(f==N*N){ check(C,{}); for(int i=0;i<13;i++)check(C,{TOK[i]}); for(int i=0;i<13;i++)for(int k=0;k<13;k++){check(C,{TOK[i],TOK[k]}); for(int q=0;q<13;q++)check(C,{TOK[i],TOK[k],TOK[q]});} return; } V a{TOK[f%N],TOK[f/N]}; std::vector<int> d; for(int l=2;l<L;l++){ long n=1; for(int i=2;i<=l;i++)n*=N; for(long x=0;x<n;x++){ V b=a; long z=x; for(int i=2;i<=l;i++){b.push_back(TOK[z%N]);z/=N;} C.at(f,l,x); check(C,b); C.tr(); } } C.sample("%s, continued by all lists",show(a).c_str()); }
// after a correct beginning, all lists over a second alphabet
MC_SUITE(tails){ static const char*T2[]={"--message-size=3","--message-size=4","--message-size","--message-size=x","--message-sizes=6","x","-message-size=5","--key-size=8","--verbose"}; const int N=9,L=mc::thorough()?5:4; int f=C.choose(N*N); for(int l=2;l<=L;l++){ long n=1; for(int i=2;i<l;i++)n*=N; for(long x=0;x<n;x++){ V b=with({"--verbose","benchmark","primitive","hash-sha-2-512",T2[f%N],T2[f/N]}); long z=x; for(int i=2;i<l;i++){b.push_back(T2[z%N]);z/=N;} C.at(f,l,x); check(C,b); C.tr(); } } }
// all lists of benchmark parameters
MC_SUITE(options){ static const char*T2[]={"--repeats-time=3","--repeats-warm=5","--cpu-clock=2500","--repeats-time=0","--repeats-warm=0","--cpu-clock=0","-q","--repeats-times=9","--cpu-clock=x","--verbose"}; const int N=10,L=mc::thorough()?5:4; int f=C.choose(N*N); for(int l=1;l<=L;l++){ long n=1; for(int i=2;i<l;i++)n*=N; if(l==1){ if(f%N)continue; check(C,with({"benchmark",T2[f/N],"primitive","mac-poly-1305","--key-size=32","--message-size=1"})); continue; } for(long x=0;x<n;x++){ V b=with({"benchmark",T2[f%N],T2[f/N]}); long z=x; for(int i=2;i<l;i++){b.push_back(T2[z%N]);z/=N;} b=cat(b,{"primitive","hash-sha-2-384","--message-size=1"}); C.at(f,l,x); check(C,b); C.tr(); } } }
// values: every parameter, well-formed and malformed
static std::vector<S> bad_values(){ std::vector<S> v{"x","1x","x1"," 1","1 ","+1","-1","-0","+0","0x10","0b1","1e1","1.0","1.",".1","1,","1,0","1_0","1'0","1 0","0 ","18446744073709551616","18446744073709551617","99999999999999999999","340282366920938463463374607431768211456","00000000000000000000018446744073709551616","=1","1=","1=1","--1","1-","\t1","1\t","1\n","\n1","\xd9\xa1","\xef\xbc\x91","1\xc2\xa0","inf","nan","NULL","true","0xg","1u","1U","1l","08x","*","1*","?","/1","1/1"}; for(int c=1;c<256;c++)if(!(c>='0'&&c<='9')){ v.push_back(S(1,char(c))); v.push_back(S("4")+char(c)); v.push_back(S(1,char(c))+"4"); v.push_back(S("4")+char(c)+"2"); } return v; }
static const char*ONE[]={"codec-base-64-decode","hash-sha-2-224","mac-hmac-sha-1-160","kdf-hkdf-hmac-sha-2-512","kdf-pbkdf-2-hmac-sha-1-160","cipher-chacha-20-encrypt","aead-chacha-20-poly-1305-decrypt"};
MC_SUITE(malformed){ static const auto B=bad_values(); static std::vector<std::pair<int,int>> kp; if(kp.empty())for(int k=0;k<7;k++)for(size_t p=0;p<kinds()[k].par.size();p++)kp.push_back({k,int(p)}); int i=C.choose(int(kp.size())); auto[k,p]=kp[i]; for(size_t b=0;b<B.size();b++){ if(!mc::thorough()&&b>45&&b%5!=size_t(i)%5)continue; C.at(k,p,long(b)); V a=with({"benchmark","--repeats-time=1","--repeats-warm=0","primitive",ONE[k]}); for(size_t q=0;q<kinds()[k].par.size();q++)a.push_back(S("--")+kinds()[k].par[q]+"="+(int(q)==p?B[b]:"3")); check(C,a); } C.sample("--%s: %zu malformed values",kinds()[k].par[p],B.size()); }
MC_SUITE(malformed_options){ static const auto B=bad_values(); static const char*O[]={"repeats-time","repeats-warm","cpu-clock"}; int i=C.choose(3*16); for(size_t b=size_t(i/3);b<B.size();b+=16){ C.at(i,long(b)); check(C,with({"benchmark",("--"+S(O[i%3])+"="+B[b]).c_str(),"primitive","hash-sha-2-512","--message-size=3"})); } }
MC_SUITE(values){ static std::vector<std::pair<int,int>> kp; if(kp.empty())for(int k=0;k<7;k++)for(size_t p=0;p<kinds()[k].par.size();p++)kp.push_back({k,int(p)}); int i=C.choose(int(kp.size())+3); std::vector<S> vs; for(int n=0;n<=(mc::thorough()?1100:300);n++)vs.push_back(std::to_string(n)); for(auto x:{"00","01","007","0000000000000000000000000000000012","4095","4096","4097","8192","10000"})vs.push_back(x);
  if(i>=int(kp.size())){ static const char*O[]={"repeats-time","repeats-warm","cpu-clock"}; int o=i-int(kp.size()); if(o==2)for(auto x:{"65535","65536","4294967295","4294967296","4294967297","18446744073709","1000000000000","9223372036854","2147483647","2147483648"})vs.push_back(x); for(auto&v:vs)check(C,with({"benchmark",("--"+S(O[o])+"="+v).c_str(),"primitive","hash-sha-2-512*","--message-size=3"})); return; }
  auto[k,p]=kp[i]; for(auto&v:vs){ V a=with({"benchmark","--repeats-time=1","--repeats-warm=0","primitive",ONE[k]}); for(size_t q=0;q<kinds()[k].par.size();q++)a.push_back(S("--")+kinds()[k].par[q]+"="+(int(q)==p?v:std::to_string(5+q))); check(C,a); } C.sample("--%s: %zu values",kinds()[k].par[p],vs.size()); }
// names that are almost a parameter's or an option's are not it
static std::vector<S> near_names(const S&n){ std::set<S> s; for(size_t i=0;i<=n.size();i++){ for(char c:{'-','=','s','x',' ','_','*'}){S a=n;a.insert(i,1,c);s.insert(a);} if(i<n.size()){ S a=n;a.erase(i,1);s.insert(a); a=n;a[i]=char(toupper(a[i]));s.insert(a); a=n;a[i]='z';s.insert(a); s.insert(n.substr(0,i)); s.insert(n.substr(i)); } } s.insert(n+"-size"); s.insert(n+n); s.insert("-"+n); s.insert("no-"+n); s.erase(n); return std::vector<S>(s.begin(),s.end()); }
MC_SUITE(near_parameters){ static std::vector<std::pair<int,int>> kp; if(kp.empty())for(int k=0;k<7;k++)for(size_t p=0;p<kinds()[k].par.size();p++)kp.push_back({k,int(p)}); int i=C.choose(int(kp.size())); auto[k,p]=kp[i]; for(auto&n:near_names(kinds()[k].par[p]))for(int with_=0;with_<3;with_++){ V a=with({"benchmark","--repeats-time=1","--repeats-warm=0","primitive",ONE[k]}); S junk="--"+n+"=9"; if(with_==2)a.push_back(junk); for(size_t q=0;q<kinds()[k].par.size();q++)if(int(q)!=p||with_)a.push_back(S("--")+kinds()[k].par[q]+"=3"); if(with_!=2)a.push_back(junk); check(C,a); } for(auto pre:{"-","","---","—"," --","-- "})for(int w=0;w<2;w++){ V a=with({"benchmark","--repeats-time=1","--repeats-warm=0","primitive",ONE[k]}); a.push_back(S(pre)+kinds()[k].par[p]+"=9"); for(size_t q=0;q<kinds()[k].par.size();q++)if(int(q)!=p||w)a.push_back(S("--")+kinds()[k].par[q]+"=3"); check(C,a); } }
MC_SUITE(near_options){ static const char*O[]={"repeats-time","repeats-warm","cpu-clock","advanced","verbose"}; int o=C.choose(5); for(auto&n:near_names(O[o])){ if(n.find('=')!=S::npos&&o>2)continue; S t=o<3?"--"+n+"=9":"--"+n; check(C,with({t.c_str(),"benchmark",t.c_str(),"primitive","hash-sha-2-512*","--message-size=3"})); check(C,with({"benchmark",t.c_str(),"--repeats-time=2","primitive","hash-sha-1*","--message-size=3"})); check(C,with({"--verbose",t.c_str(),"benchmark","primitive","hash-sha-1*","--message-size=3",t.c_str()})); } for(auto x:{"-advanced","-a","-v","-verbose","---advanced","---verbose"}){ V a=with({x,"benchmark","--repeats-time=1","primitive","hash-sha-1*","--message-size=3"}); check(C,a); } }
// every order of the parameters of a kind, with ignored tokens between them
MC_SUITE(orders){ int k=C.choose(7); V t; for(size_t q=0;q<kinds()[k].par.size();q++)t.push_back(S("--")+kinds()[k].par[q]+"="+std::to_string(q+2)); for(auto x:{"--junk=1","-j"})t.push_back(x); std::sort(t.begin(),t.end()); do{ V a=with({"benchmark","--repeats-time=1","--repeats-warm=0","primitive",ONE[k]}); check(C,cat(a,t)); C.tr(); }while(std::next_permutation(t.begin(),t.end())); V u{"--repeats-time=4","--repeats-warm=1","--cpu-clock=12","--junk=3","-z"}; std::sort(u.begin(),u.end()); do{ V a{"benchmark"}; a=cat(cat(a,u),{"primitive",ONE[k]}); for(size_t q=0;q<kinds()[k].par.size();q++)a.push_back(S("--")+kinds()[k].par[q]+"=2"); check(C,a); }while(std::next_permutation(u.begin(),u.end())); V w{"--advanced","--verbose","--junk","-z"}; std::sort(w.begin(),w.end()); do{ for(int m=0;m<16;m++){ V a; for(int i=0;i<4;i++)if(m>>i&1)a.push_back(w[i]); a=cat(a,{"benchmark","--repeats-time=1","--repeats-warm=0","primitive",ONE[k]}); for(size_t q=0;q<kinds()[k].par.size();q++)a.push_back(S("--")+kinds()[k].par[q]+"=2"); check(C,a); } }while(std::next_permutation(w.begin(),w.end())); }
// unknown and near commands at each level
MC_SUITE(commands){ static const char*cm[]={"benchmark","primitive","version"}; int i=C.choose(3); for(auto&n:near_names(cm[i])){ check(C,{n}); check(C,{n,"primitive","hash-sha-1-160","--message-size=1"}); check(C,{"benchmark",n,"hash-sha-1-160","--message-size=1"}); check(C,{"benchmark",n}); check(C,{"benchmark",n,"list"}); check(C,{"--advanced",n,"x"}); check(C,{"-x",n,"--message-size=1"}); check(C,{"version",n}); } }
int main(int c,char**v){ return mc::main(c,v); }
