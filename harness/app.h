// The real application (every .cpp of /repo/app with main renamed) run in a child process with captured
// output and a virtual clock; a strict JSON reader; a model of the documented parameterization tree.
#pragma once
#include "mc.h"
#include <chrono>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include <sys/resource.h>
int milo_app_main(int,char**) noexcept(false);
void app_flush();
namespace app {
using S=std::string; using V=std::vector<S>; typedef unsigned long long u64;
// ---- virtual clock: reading 2i and 2i+1 differ by d[i % n]
struct Clock{ const long*d=nullptr; int n=0; long readings=0; long long t=1000000000000ll; void(*hook)(int reading)=nullptr; };
inline Clock&clk(){ static Clock c; return c; }
struct Run{ int rc=-1; int sig=0; S out,err; long readings=0; };
struct Mem{ volatile long readings; };
inline Run run(const V&args,const std::vector<long>&ticks={1000},void(*hook)(int)=nullptr,void(*atend)()=nullptr,bool with_name=true){
  static int fo=-1,fe=-1; static Mem*m=nullptr; static pid_t owner=0; if(owner!=getpid()){ owner=getpid(); fo=int(memfd_create("o",0)); fe=int(memfd_create("e",0)); m=(Mem*)mmap(nullptr,sizeof(Mem),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
  if(ftruncate(fo,0)||ftruncate(fe,0))abort(); lseek(fo,0,SEEK_SET); lseek(fe,0,SEEK_SET); m->readings=0; fflush(stdout); fflush(stderr);
  pid_t p=fork(); if(p<0){ fprintf(stderr,"fork failed\n"); _exit(96); }
  if(!p){ prctl(PR_SET_PDEATHSIG,SIGKILL); alarm(60); rlimit z{0,0}; setrlimit(RLIMIT_CORE,&z); dup2(fo,1); dup2(fe,2); for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGILL,SIGBUS})signal(s,SIG_DFL);
    std::vector<S> a; if(with_name)a.push_back("./milo"); for(auto&x:args)a.push_back(x); std::vector<char*> v; for(auto&x:a)v.push_back(const_cast<char*>(x.c_str())); v.push_back(nullptr);
    clk()=Clock{ticks.data(),int(ticks.size())}; clk().hook=hook; int rc=milo_app_main(int(a.size()),v.data()); m->readings=clk().readings; if(atend)atend(); fflush(stdout); fflush(stderr); ::app_flush(); _exit(rc&255); }
  int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){} Run r; if(WIFEXITED(st))r.rc=WEXITSTATUS(st); else r.sig=WTERMSIG(st); r.readings=m->readings;
  auto rd=[](int f){ S s; off_t n=lseek(f,0,SEEK_END); s.resize(n); if(n&&pread(f,&s[0],n,0)!=n)abort(); return s; }; r.out=rd(fo); r.err=rd(fe); return r; }
inline S show(const V&a){ S s="milo"; for(auto&x:a){ s+=" '"; for(unsigned char c:x){ if(c<32||c>126){char b[8];snprintf(b,8,"\\x%02x",c);s+=b;}else s+=c; } s+="'"; } return s; }
// ---- JSON, RFC 8259, no duplicate names
struct J{ enum T{NUL,BOOL,NUM,STR,ARR,OBJ} t=NUL; bool b=false; S s; /*string bytes, or the text of a number*/ std::vector<J> a; std::vector<std::pair<S,J>> o;
  const J*get(const S&k)const{ if(t!=OBJ)return nullptr; for(auto&x:o)if(x.first==k)return &x.second; return nullptr; }
  const J*path(std::initializer_list<const char*> p)const{ const J*j=this; for(auto k:p){ if(!j)return nullptr; j=j->get(k);} return j; } };
struct Parser{ const char*p,*e; S why; bool bad(const char*w){ if(why.empty())why=w; return false; } void ws(){while(p<e&&(*p==' '||*p=='\t'||*p=='\n'||*p=='\r'))p++;}
  bool str(S&s){ if(p>=e||*p!='"')return bad("string expected"); p++; for(;;){ if(p>=e)return bad("string not ended"); unsigned char c=*p++; if(c=='"')return true; if(c<0x20)return bad("control character in a string"); if(c!='\\'){s+=char(c);continue;}
      if(p>=e)return bad("escape not ended"); c=*p++; switch(c){ case'"':case'\\':case'/':s+=char(c);break; case'b':s+='\b';break; case'f':s+='\f';break; case'n':s+='\n';break; case'r':s+='\r';break; case't':s+='\t';break;
        case'u':{ if(e-p<4)return bad("short \\u"); unsigned v=0; for(int i=0;i<4;i++){ char h=*p++; int d=h>='0'&&h<='9'?h-'0':h>='a'&&h<='f'?h-'a'+10:h>='A'&&h<='F'?h-'A'+10:-1; if(d<0)return bad("bad \\u"); v=v*16+unsigned(d);} if(v<0x80)s+=char(v); else if(v<0x800){s+=char(0xc0|v>>6);s+=char(0x80|(v&63));} else {s+=char(0xe0|v>>12);s+=char(0x80|(v>>6&63));s+=char(0x80|(v&63));} break; } default:return bad("unknown escape"); } } }
  bool val(J&j,int d=0){ if(d>60)return bad("too deep"); ws(); if(p>=e)return bad("value expected"); if(*p=='"'){j.t=J::STR;return str(j.s);}
    if(*p=='{'){ j.t=J::OBJ; p++; ws(); if(p<e&&*p=='}'){p++;return true;} for(;;){ ws(); S k; if(!str(k))return false; for(auto&x:j.o)if(x.first==k)return bad("name twice in one object"); ws(); if(p>=e||*p!=':')return bad("colon expected"); p++; j.o.emplace_back(k,J{}); if(!val(j.o.back().second,d+1))return false; ws(); if(p<e&&*p==','){p++;continue;} if(p<e&&*p=='}'){p++;return true;} return bad("object not ended"); } }
    if(*p=='['){ j.t=J::ARR; p++; ws(); if(p<e&&*p==']'){p++;return true;} for(;;){ j.a.emplace_back(); if(!val(j.a.back(),d+1))return false; ws(); if(p<e&&*p==','){p++;continue;} if(p<e&&*p==']'){p++;return true;} return bad("array not ended"); } }
    auto lit=[&](const char*w){ size_t n=strlen(w); if(size_t(e-p)>=n&&!memcmp(p,w,n)){p+=n;return true;} return false; }; if(lit("true")){j.t=J::BOOL;j.b=true;return true;} if(lit("false")){j.t=J::BOOL;return true;} if(lit("null"))return true;
    const char*q=p; auto dig=[&]{ const char*z=p; while(p<e&&*p>='0'&&*p<='9')p++; return p>z; }; if(*p=='-')p++; if(p<e&&*p=='0')p++; else if(!dig())return bad("value expected"); if(p<e&&*p=='.'){p++; if(!dig())return bad("digits expected");} if(p<e&&(*p=='e'||*p=='E')){p++; if(p<e&&(*p=='+'||*p=='-'))p++; if(!dig())return bad("digits expected");} j.t=J::NUM; j.s.assign(q,p); return true; } };
inline bool parse(const S&s,J&j,S&why){ Parser q{s.data(),s.data()+s.size(),{}}; if(!q.val(j)){why=q.why+" at "+std::to_string(q.p-s.data());return false;} q.ws(); if(q.p!=q.e){why="more text after the document";return false;} return true; }
// ---- expression matching: whole name, a star stands for any sequence (dynamic program over both)
inline bool glob(const S&p,const S&m){ std::vector<char> r(m.size()+1,0); r[0]=1; for(char c:p){ std::vector<char> q(m.size()+1,0); if(c=='*'){ bool any=false; for(size_t i=0;i<=m.size();i++){any|=r[i];q[i]=any;} } else for(size_t i=0;i<m.size();i++)q[i+1]=r[i]&&m[i]==c; r.swap(q); } return r[m.size()]; }
// ---- the documented tree
struct Kind{ const char*prefix; std::vector<const char*> par; };
inline const std::vector<Kind>&kinds(){ static const std::vector<Kind> k{{"codec-",{"bytes-size"}},{"hash-",{"message-size"}},{"mac-",{"key-size","message-size"}},{"kdf-hkdf-",{"ikm-size","salt-size","info-size","key-size"}},{"kdf-pbkdf-2-",{"ikm-size","salt-size","iterations","key-size"}},{"cipher-",{"bytes-size"}},{"aead-",{"aad-size","bytes-size"}}}; return k; }
inline int kind_of(const S&n){ for(size_t i=0;i<kinds().size();i++)if(!n.compare(0,strlen(kinds()[i].prefix),kinds()[i].prefix))return int(i); return -1; }
inline const V&parameters(){ static const V p{"bytes-size","message-size","key-size","ikm-size","salt-size","info-size","iterations","aad-size"}; return p; }
inline V lines(const S&s){ V r; S c; for(char x:s){ if(x=='\n'){r.push_back(c);c.clear();}else c+=x; } if(!c.empty())r.push_back(c); return r; }
inline const V&listed(bool advanced){ static V l[2]; static bool done[2]; if(!done[advanced]){ V a; if(advanced)a.push_back("--advanced"); for(auto x:{"benchmark","primitive","list"})a.push_back(x); Run r=run(a); if(r.rc==0)l[advanced]=lines(r.out); done[advanced]=true; } return l[advanced]; }
// value of a parameter among the arguments of one command
struct Par{ bool given=false,maybe_bad=false,bad=false; std::vector<u64> ok; };
inline bool number(const S&s,u64&v){ if(s.empty())return false; unsigned __int128 x=0; for(char c:s){ if(c<'0'||c>'9')return false; x=x*10+unsigned(c-'0'); if(x>~0ull)return false; } v=u64(x); return true; }
inline Par par(const V&a,size_t from,size_t to,const S&name){ Par r; for(size_t i=from;i<to;i++){ if(a[i]!="--"+name&&a[i].compare(0,name.size()+3,"--"+name+"="))continue; r.given=true; if(a[i]=="--"+name){r.maybe_bad=true;continue;} S v=a[i].substr(name.size()+3); u64 n; if(number(v,n))r.ok.push_back(n); else { r.maybe_bad=true; if(v.empty())r.ok.push_back(0); /* an empty value: the documentation is silent */ } } r.bad=r.ok.empty(); return r; }
enum Out{FAIL,VERSION,LIST,REPORT};
struct Expect{ Out kind=FAIL; bool may_fail=false; bool advanced=false,verbose=false; S expr; V names; std::map<S,Par> in; Par time,warm,clock; V why; };
inline Expect model(const V&a){ Expect e; size_t c[3],k=0; V cmd; for(size_t i=0;i<a.size()&&k<3;i++)if(a[i].compare(0,1,"-")){c[k++]=i;cmd.push_back(a[i]);}
  auto seg=[&](size_t j){ size_t from=c[j]+1,to=a.size(); for(size_t i=from;i<to;i++)if(a[i].compare(0,1,"-")){to=i;break;} return std::make_pair(from,to); };
  size_t r1=k?c[0]:a.size(); for(size_t i=0;i<r1;i++){ if(a[i]=="--advanced")e.advanced=true; if(a[i]=="--verbose")e.verbose=true; }
  if(k<1)return e; if(cmd[0]=="version"){e.kind=VERSION;return e;} if(cmd[0]!="benchmark"||k<2||cmd[1]!="primitive"||k<3)return e;
  auto s0=seg(0); e.time=par(a,s0.first,s0.second,"repeats-time"); e.warm=par(a,s0.first,s0.second,"repeats-warm"); e.clock=par(a,s0.first,s0.second,"cpu-clock");
  for(Par*p:{&e.time,&e.warm,&e.clock}){ u64 d=p==&e.time?1024:p==&e.warm?128:0; if(!p->given)p->ok={d}; else if(p->maybe_bad){ e.may_fail=true; p->ok.push_back(d); } if(p==&e.time)for(auto&x:p->ok)if(!x)x=1; }
  e.expr=cmd[2]; if(e.expr=="list"){e.kind=LIST;return e;} e.kind=REPORT; auto s2=seg(2); std::set<int> ks; for(auto&n:listed(e.advanced))if(glob(e.expr,n)){e.names.push_back(n);ks.insert(kind_of(n));}
  for(int q:ks)if(q>=0)for(auto p:kinds()[q].par){ Par v=par(a,s2.first,s2.second,p); e.in[p]=v; if(v.bad){e.kind=FAIL;e.why.push_back(p);} if(v.maybe_bad)e.may_fail=true; } return e; }
inline bool isnum(const J*j,u64 v){ return j&&j->t==J::NUM&&j->s==std::to_string(v); }
inline bool among(const J*j,const Par&p){ for(u64 v:p.ok)if(isnum(j,v))return true; return false; }
inline bool near(const J*j,long double v){ if(!j||j->t!=J::NUM)return false; long double x=strtold(j->s.c_str(),nullptr); return fabsl(x-v)<=1e-6L+1e-9L*fabsl(v); }
inline u64 bytes_of(const S&name,const std::map<S,u64>&in){ auto g=[&](const char*p){auto i=in.find(p);return i==in.end()?0:i->second;}; int k=kind_of(name); switch(k){case 0:case 5:return g("bytes-size");case 1:case 2:return g("message-size");case 3:case 4:return g("key-size");case 6:return g("aad-size")+g("bytes-size");} return 0; }
// does the run agree with the model? returns what does not, empty when all does
inline S judge(const V&a,const Run&r,const Expect&e,const std::vector<long>&ticks={1000}){
  if(r.sig)return "ended by signal "+std::to_string(r.sig)+" ("+strsignal(r.sig)+")";
  bool failed=r.rc==1&&!r.err.empty()&&r.out.empty(); if(e.kind==FAIL){ if(r.rc!=1)return "exit status "+std::to_string(r.rc)+", expected 1"; if(r.err.empty())return "nothing on standard error"; if(!r.out.empty())return "failed, but wrote to standard output: "+r.out.substr(0,200); bool named=e.why.empty(); for(auto&w:e.why)named|=r.err.find("--"+w)!=S::npos; if(!named)return "the message does not name a parameter that is missing or malformed: "+r.err; return ""; }
  if(e.may_fail&&failed)return "";
  if(r.rc!=0)return "exit status "+std::to_string(r.rc)+", expected 0; "+r.err.substr(0,300); if(!r.err.empty())return "wrote to standard error: "+r.err.substr(0,300);
  if(e.kind==VERSION){ if(r.out.compare(0,5,"milo ")||r.out.size()<8||r.out.back()!='\n'||r.out.find_first_not_of("0123456789.",5)!=r.out.size()-1)return "version output: "+r.out; return ""; }
  if(e.kind==LIST){ if(lines(r.out)!=listed(e.advanced))return "list differs from the list of the plain command"; return ""; }
  J j; S why; if(!parse(r.out,j,why))return "not valid JSON: "+why+": "+r.out.substr(0,400);
  if(e.verbose){ const J*d=j.path({"command","args"}); if(!d||d->t!=J::ARR||d->a.size()!=a.size())return "verbose: command.args"; for(size_t i=0;i<a.size();i++)if(d->a[i].t!=J::STR||d->a[i].s!=a[i])return "verbose: argument "+std::to_string(i)+" is reported as "+d->a[i].s; const J*u=j.path({"command","dump"}); S all; for(size_t i=0;i<a.size();i++)all+=(i?" ":"")+a[i]; if(!u||u->t!=J::STR||u->s!=all)return "verbose: command.dump"; for(auto p:{"name","version"})for(auto q:{"compiler","project"}){ const J*x=j.path({q,p}); if(!x||x->t!=J::STR||x->s.empty())return S("verbose: ")+q+"."+p; } }
  else for(auto p:{"compiler","project","command","result"})if(j.get(p))return S("not verbose, but reports ")+p;
  const J*root=e.verbose?j.get("result"):&j; if(!root||root->t!=J::OBJ)return "no result object"; const J*pr=root->path({"benchmark","primitive"}); std::map<S,const J*> got; if(pr){ if(pr->t!=J::OBJ)return "benchmark.primitive is no object"; for(auto&x:pr->o)got[x.first]=&x.second; }
  for(auto&n:e.names)if(!got.count(n))return n+" matches the expression but was not run"; for(auto&x:got)if(std::find(e.names.begin(),e.names.end(),x.first)==e.names.end())return x.first+" was run but does not match the expression";
  std::multiset<long> dur; for(size_t i=0;i<e.names.size();i++)dur.insert(ticks[i%ticks.size()]); if(r.readings!=long(2*e.names.size()))return "the clock was read "+std::to_string(r.readings)+" times for "+std::to_string(e.names.size())+" measurements";
  std::vector<std::set<long>> cand; 
  for(auto&[n,g]:got){ if(kind_of(n)<0){cand.push_back(std::set<long>(dur.begin(),dur.end()));continue;} const J*cf=g->get("config"),*in=cf?cf->get("input"):nullptr,*bm=cf?cf->get("benchmark"):nullptr,*me=g->get("metrics"); if(!in||!bm||!me||in->t!=J::OBJ||bm->t!=J::OBJ||me->t!=J::OBJ)return n+": no config.input, config.benchmark or metrics";
    std::map<S,u64> v; auto&ps=kinds()[kind_of(n)].par; if(in->o.size()!=ps.size())return n+": config.input has "+std::to_string(in->o.size())+" entries"; for(auto p:ps){ const J*x=in->get(p); if(!among(x,e.in.at(p)))return n+": --"+p+" is reported as "+(x?x->s:"nothing"); u64 z; number(x->s,z); v[p]=z; }
    const J*xt=bm->get("repeats-time"),*xw=bm->get("repeats-warm"),*xc=bm->get("cpu-clock"); if(!among(xt,e.time))return n+": repeats-time is reported as "+(xt?xt->s:"nothing"); if(!among(xw,e.warm))return n+": repeats-warm is reported as "+(xw?xw->s:"nothing"); u64 rt,hz=0; number(xt->s,rt); bool okc=false; for(u64 c:e.clock.ok){ if(xc?isnum(xc,c*1000000):c==0){okc=true;hz=c*1000000;} } if(!okc)return n+": cpu-clock is reported as "+(xc?xc->s:"nothing"); if(bm->o.size()!=(xc?3u:2u))return n+": config.benchmark has other entries";
    long double B=(long double)bytes_of(n,v)*rt; std::set<long> c; S w="no metrics"; for(long d:std::set<long>(dur.begin(),dur.end())){ w=""; long double ns=d; size_t groups=1; if(!near(me->path({"duration","nanoseconds_per_call"}),ns/rt)){w="duration.nanoseconds_per_call";continue;}
      if(const J*t=me->get("throughput")){ groups++; if(B==0||d==0){w="throughput although nothing was processed or no time passed";} else if(!near(t->get("gigabytes_per_second"),B/ns))w="throughput.gigabytes_per_second"; else if(!near(t->get("megabytes_per_second"),B*1000/ns))w="throughput.megabytes_per_second"; else if(t->o.size()!=2)w="throughput has other entries"; } else if(B!=0&&d!=0)w="no throughput"; if(!w.empty())continue;
      if(const J*t=me->get("cpu")){ groups++; if(B==0||hz==0){ if(hz==0)w="cpu although no clock was given"; else if(!near(t->get("cycles_per_call"),(long double)hz*ns/1e9L/rt))w="cpu.cycles_per_call"; else if(B==0&&t->get("cycles_per_byte"))w="cpu.cycles_per_byte although nothing was processed"; } else if(!near(t->get("cycles_per_call"),(long double)hz*ns/1e9L/rt))w="cpu.cycles_per_call"; else if(!near(t->get("cycles_per_byte"),(long double)hz*ns/1e9L/B))w="cpu.cycles_per_byte"; } else if(hz!=0&&B!=0)w="no cpu metrics"; if(!w.empty())continue; if(me->o.size()!=groups){w="other metrics";continue;} c.insert(d); }
    if(c.empty())return n+": "+w+" does not follow from the measurement: "+r.out.substr(0,600); cand.push_back(c); }
  // every measurement is used once: a perfect matching of entries and durations (durations that yield equal numbers are interchangeable)
  std::sort(cand.begin(),cand.end(),[](auto&x,auto&y){return x.size()<y.size();}); std::multiset<long> rest=dur; for(auto&c:cand){ bool ok=false; for(long d:c){auto i=rest.find(d); if(i!=rest.end()){rest.erase(i);ok=true;break;}} if(!ok)return "the durations reported are not those measured"; }
  return ""; }
inline Run check(mc::Ctx&C,const V&a,const std::vector<long>&ticks={1000}){ Run r=run(a,ticks); Expect e=model(a); S w=judge(a,r,e,ticks); if(!w.empty())C.fail("%s: %s",show(a).c_str(),w.c_str()); C.eval(); C.out(mc::mix(mc::h64(r.out.data(),r.out.size()),uint64_t(r.rc))); C.state(mc::mix(mc::mix(uint64_t(e.kind),uint64_t(e.advanced*4+e.verbose*2+e.may_fail)),mc::mix(e.names.size(),e.why.size()))); return r; }
inline V with(std::initializer_list<const char*> pre,const V&rest={}){ V a; for(auto x:pre)a.push_back(x); for(auto&x:rest)a.push_back(x); return a; }
inline V cat(V a,const V&b){ a.insert(a.end(),b.begin(),b.end()); return a; }
inline V all(const char*value="1"){ V r; for(auto&p:parameters())r.push_back("--"+p+"="+value); return r; }
}
