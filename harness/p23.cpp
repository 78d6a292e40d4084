// P23: expressions select exactly the listed names they match; only parameters of selected kinds are required
#include "app.h"
using namespace app;
static const char*NAMES[]={
#define H(x) "hash-" x,"mac-hmac-" x,"kdf-hkdf-hmac-" x,"kdf-pbkdf-2-hmac-" x,
#define A H("sha-1-160") H("sha-2-224") H("sha-2-256") H("sha-2-384") H("sha-2-512") H("sha-2-512-224") H("sha-2-512-256")
A "codec-base-16-encode","codec-base-16-decode","codec-base-64-encode","codec-base-64-decode","mac-poly-1305","cipher-chacha-20-encrypt","cipher-chacha-20-decrypt","aead-chacha-20-poly-1305-encrypt","aead-chacha-20-poly-1305-decrypt" };
static const char*ADVANCED[]={ H("sha-1-160-sw") H("sha-2-224-sw") H("sha-2-256-sw") H("sha-2-384-sw") H("sha-2-512-sw") H("sha-2-512-224-sw") H("sha-2-512-256-sw") H("sha-1-160-hw-x86-64-ni") H("sha-2-224-hw-x86-64-ni") H("sha-2-256-hw-x86-64-ni") "mac-poly-1305-sw","cipher-chacha-20-sw-encrypt","cipher-chacha-20-sw-decrypt","cipher-chacha-20-hw-x86-64-ssse-3-encrypt","cipher-chacha-20-hw-x86-64-ssse-3-decrypt","cipher-chacha-20-hw-x86-64-avx-2-encrypt","cipher-chacha-20-hw-x86-64-avx-2-decrypt","aead-chacha-20-sw-poly-1305-sw-encrypt","aead-chacha-20-sw-poly-1305-sw-decrypt" };
// what is run by an expression, in both lists
static void expr(mc::Ctx&C,const S&e,int adv=-1){ if(e.empty()||e[0]=='-')return; for(int v=0;v<2;v++){ if(adv>=0&&adv!=v)continue; V a; if(v)a.push_back("--advanced"); a=cat(a,with({"benchmark","--repeats-time=1","--repeats-warm=0","primitive",e.c_str()},all())); check(C,a); C.tr(); } }
MC_SUITE(list){ int v=C.choose(4); V a; if(v&1)a.push_back("--advanced"); if(v&2)a.push_back("--verbose"); Run r=run(cat(a,{"benchmark","primitive","list"})); if(r.rc||r.sig||!r.err.empty())C.fail("%s: exit status %d, %s",show(a).c_str(),r.rc,r.err.c_str()); V l=lines(r.out); std::set<S> s(l.begin(),l.end()); if(s.size()!=l.size())C.fail("the list names something twice: %s",r.out.c_str());
  for(auto n:NAMES)if(!s.count(n))C.fail("%s is missing in the list",n); if(v&1)for(auto n:ADVANCED)if(!s.count(n))C.fail("%s is missing in the advanced list",n); if(v&1)for(auto&n:listed(false))if(!s.count(n))C.fail("%s is in the list but not in the advanced list",n.c_str()); if(!(v&1)&&listed(true).size()<=l.size())C.fail("the advanced list is not longer"); if(!(v&1))for(auto n:ADVANCED)if(s.count(n))C.fail("%s is listed without --advanced",n); for(auto&n:l)if(n.empty()||n[0]=='-'||n.find_first_of("* \t")!=S::npos||n=="list")C.fail("listed name '%s' cannot be used as an expression",n.c_str());
  // parameters do not change the list, and none is needed
  for(auto&x:{with({"benchmark","--repeats-time=3","primitive","list","--message-size=4","extra"}),with({"benchmark","--cpu-clock=x","primitive","-a","list","list"})}){ Run q=run(cat(a,x)); if(q.rc||q.out!=r.out)C.fail("%s: another list",show(cat(a,x)).c_str()); C.eval(); } C.eval(); C.sample("%zu names",l.size()); }
// every name by itself; and with one character taken away, doubled, exchanged with the next, replaced by a star
MC_SUITE(near_names){ auto&l=listed(true); int i=C.choose(int(l.size())); const S n=l[i]; expr(C,n); for(size_t k=0;k<=n.size();k++){ S a=n; if(k<n.size()){ a.erase(k,1); expr(C,a,1); a=n; a.insert(k,1,n[k]); expr(C,a,1); a=n; a[k]='*'; expr(C,a,1); a=n; a[k]=char(a[k]^1); expr(C,a,1); if(k+1<n.size()){ a=n; std::swap(a[k],a[k+1]); expr(C,a,1);} expr(C,n.substr(0,k),1); expr(C,n.substr(k),1); expr(C,n.substr(0,k)+"*",0); expr(C,"*"+n.substr(k),0); } a=n; a.insert(k,"*"); expr(C,a,1); a=n; a.insert(k,"**"); expr(C,a,1); a=n; a.insert(k,"?"); expr(C,a,1); } }
// all expressions over the characters that matter, to a length
static const char ALPHA[]="*-2s516ha";
MC_SUITE(short_expressions){ const int L=mc::thorough()?6:4,Z=mc::thorough()?8:8; static std::vector<S> all_; if(all_.empty()){ std::vector<S> cur{""}; for(int l=1;l<=L;l++){ std::vector<S> nx; for(auto&s:cur)for(int c=0;c<Z;c++)nx.push_back(s+ALPHA[c]); cur=nx; for(auto&s:cur)if(s[0]!='-')all_.push_back(s); } } const int B=64; int n=int((all_.size()+B-1)/B); int j=C.choose(n); for(size_t k=size_t(j)*B;k<all_.size()&&k<size_t(j+1)*B;k++){ C.at(long(k)); expr(C,all_[k],1); C.sample("expression %s",all_[k].c_str()); } }
// names with runs of their parts replaced by stars: all subsets of the parts
MC_SUITE(parts){ auto&l=listed(true); const S n=l[C.choose(int(l.size()))]; V p; S c; for(char x:n+"-"){ if(x=='-'){p.push_back(c);c.clear();}else c+=x; } static std::set<S> seen; for(int m=1;m<(1<<p.size());m++)for(int form=0;form<(mc::thorough()?3:2);form++){ S e; bool star=false; for(size_t i=0;i<p.size();i++){ if(m>>i&1){ if(!star){ if(form==0){if(i)e+='-'; e+='*';} else if(form==1)e+='*'; else {if(i)e+='-';e+="*";} star=true; } else if(form==2)e+='*'; } else { if(i&&(!star||form==0||form==2))e+='-'; e+=p[i]; star=false; } } if(seen.insert(e).second)expr(C,e,1); } }
// substrings between stars: every substring of every name, up to a length, alone, anchored left, anchored right
MC_SUITE(substrings){ static std::vector<S> sub; if(sub.empty()){ std::set<S> s; for(auto&n:listed(true))for(size_t i=0;i<n.size();i++)for(size_t k=1;k<=(mc::thorough()?12u:5u)&&i+k<=n.size();k++)s.insert(n.substr(i,k)); sub.assign(s.begin(),s.end()); } const int B=8; int j=C.choose(int((sub.size()+B-1)/B)); for(size_t k=size_t(j)*B;k<sub.size()&&k<size_t(j+1)*B;k++){ C.at(long(k)); auto&s=sub[k]; expr(C,"*"+s+"*",1); expr(C,s+"*",1); expr(C,"*"+s,1); } }
// two substrings: *x*y, x*y, *x*y* over all pairs of parts
MC_SUITE(two_parts){ static std::vector<S> t; if(t.empty()){ std::set<S> s; for(auto&n:listed(true)){ S c; for(char x:n+"-"){ if(x=='-'){s.insert(c);s.insert(c+"-");s.insert("-"+c);c.clear();}else c+=x; } } for(auto x:{"2","5","51","12","-2","2-","6","h","a"})s.insert(x); t.assign(s.begin(),s.end()); } int i=C.choose(int(t.size())); for(size_t k=0;k<t.size();k++){ C.at(i,long(k)); expr(C,"*"+t[i]+"*"+t[k],1); if(mc::thorough()){ expr(C,t[i]+"*"+t[k],1); expr(C,"*"+t[i]+"*"+t[k]+"*",1); expr(C,t[i]+"*"+t[k]+"*"+t[i],1);} } }
// exactly the parameters of the selected kinds are required: all subsets of the parameters
static const char*EX[]={"codec-*","hash-*","mac-*","kdf-hkdf-*","kdf-pbkdf-2-*","cipher-*","aead-*","*","k*","c*","*a*","kdf-*-sha-1-160","*-chacha-20-*","*-1305","m*5","hash-sha-2-256","mac-poly-1305","nothing","*encrypt","*-hw-*","*-hmac-sha-2-512","list*","kdf*-2-*","a*d*t"};
MC_SUITE(required){ int i=C.choose(int(sizeof EX/sizeof*EX)); for(int m=0;m<256;m++)for(int adv=0;adv<2;adv++){ if(adv&&!mc::thorough()&&(m&3)!=0)continue; C.at(i,m,adv); V a; if(adv)a.push_back("--advanced"); a=cat(a,{"benchmark","--repeats-time=1","--repeats-warm=0","primitive",EX[i]}); for(int k=0;k<8;k++)if(m>>k&1)a.push_back("--"+parameters()[k]+"="+std::to_string(k+2)); check(C,a); } C.sample("%s with all subsets of the parameters",EX[i]); }
int main(int c,char**v){ return mc::main(c,v); }
