// Bounded exhaustive explorer. A suite body draws every nondeterministic decision from
// Ctx::choose; the explorer enumerates all choice vectors depth first, shared out over
// forked workers by the first choice. Crashes, hangs and failures are reported with the
// choice vector, replayed in a fresh process, and written to a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <atomic>
#include <csignal>
#include <ctime>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>

namespace mc {
inline uint64_t h64(const void*p,size_t n,uint64_t h=0xcbf29ce484222325ull){ const uint8_t*b=(const uint8_t*)p; while(n>=8){uint64_t v;memcpy(&v,b,8);h=(h^v)*0x9fb21c651e98df25ull;h^=h>>32;b+=8;n-=8;} while(n--){h=(h^*b++)*0x100000001b3ull;} h^=h>>29;h*=0xff51afd7ed558ccdull;return h^(h>>32); }
inline uint64_t mix(uint64_t a,uint64_t b){uint64_t x[2]={a,b};return h64(x,16);}
struct Fail{std::string msg;};
struct Slot{ std::atomic<uint64_t> beat; volatile int suite,n; volatile int choice[64]; volatile long at[8]; volatile int nat; volatile int state; /*0 idle 1 running 2 failed*/ char msg[3000]; volatile int inuse; };
struct Shared{ std::atomic<int> next[128]; std::atomic<int> stop; Slot slot[64]; };
inline Shared*&sh(){static Shared*s=nullptr;return s;}
inline bool&thorough(){static bool t=false;return t;}
struct Ctx{
  std::vector<int> force, choice, width; Slot*slot=nullptr; long evals=0,trans=0; size_t cap=2000000; bool capped=false;
  std::unordered_set<uint64_t> states,outs; std::vector<std::string> samples; bool replaying=false;
  int choose(int n){ size_t i=choice.size(); int c=i<force.size()?force[i]:0; if(i>0||n<=0){ if(c<0||c>=n){fprintf(stderr,"mc: replay divergence at choice %zu: %d of %d\n",i,c,n);_exit(97);} }
    choice.push_back(c); width.push_back(n); if(slot&&i<64){slot->choice[i]=c;slot->n=int(i+1);} if(i==0&&c>=n) throw Done(); return c; }
  struct Done{};
  bool flip(){return choose(2);}
  template<class T> const T& pick(const std::vector<T>&v){return v[choose(int(v.size()))];}
  template<class...A> void at(A...a){ if(slot){ long v[]={long(a)...}; for(size_t i=0;i<sizeof...(a)&&i<8;i++)slot->at[i]=v[i]; slot->nat=sizeof...(a); } }
  void eval(long k=1){ evals+=k; if(slot)slot->beat.fetch_add(1,std::memory_order_relaxed); }
  void tr(long k=1){trans+=k;}
  bool state(uint64_t h){ if(states.size()>=cap){capped=true;return true;} return states.insert(h).second; }
  void out(uint64_t h){ if(outs.size()<cap)outs.insert(h);else capped=true; }
  void out(const void*p,size_t n){out(h64(p,n));}
  [[noreturn]] void fail(const char*f,...) __attribute__((format(printf,2,3))) { char b[3000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); throw Fail{b}; }
  void sample(const char*f,...) __attribute__((format(printf,2,3))) { if(samples.size()>=3)return; char b[600]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); for(auto&s:samples)if(s==b)return; samples.push_back(b); }
};
struct Suite{const char*name;void(*body)(Ctx&);};
inline std::vector<Suite>&suites(){static std::vector<Suite> s;return s;}
struct Reg{Reg(const char*n,void(*b)(Ctx&)){suites().push_back({n,b});}};
#define MC_SUITE(nm) static void mc_body_##nm(mc::Ctx&); static mc::Reg mc_reg_##nm(#nm,mc_body_##nm); static void mc_body_##nm([[maybe_unused]] mc::Ctx&C)
inline std::string esc(const std::string&s){std::string r;for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c=='\n')r+="\\n";else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;}else r+=c;}return r;}
// run all vectors below first choice j; false when there is no such first choice
inline bool job(Ctx&C,int s,int j,long&execs){
  C.force={j};
  for(;;){
    C.choice.clear();C.width.clear(); if(C.slot){C.slot->suite=s;C.slot->n=0;C.slot->nat=0;}
    try{ suites()[s].body(C); }catch(Ctx::Done&){return false;}
    execs++; if(C.slot)C.slot->beat.fetch_add(1,std::memory_order_relaxed);
    if(C.choice.empty()){fprintf(stderr,"mc: suite %s draws no choice\n",suites()[s].name);_exit(98);}
    int i=int(C.choice.size())-1; while(i>0&&C.choice[i]+1>=C.width[i])i--;
    if(i<=0)return true;
    C.force.assign(C.choice.begin(),C.choice.begin()+i+1); C.force[i]++;
  }
}
inline void put(FILE*f,const std::unordered_set<uint64_t>&s){uint64_t n=s.size();fwrite(&n,8,1,f);for(auto x:s)fwrite(&x,8,1,f);}
inline void get(FILE*f,std::unordered_set<uint64_t>&s){uint64_t n=0,x;if(fread(&n,8,1,f)!=1)return;while(n--&&fread(&x,8,1,f)==1)s.insert(x);}
inline double now(){timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}
// one vector in this process: 0 held, 1 failed
inline int replay(int s,const std::vector<int>&v,std::string&msg,Slot*slot=nullptr){ Ctx C; C.force=v; C.replaying=true; C.slot=slot; if(slot)slot->suite=s; try{suites()[s].body(C);}catch(Fail&f){msg=f.msg;return 1;}catch(Ctx::Done&){} return 0; }
inline int main(int argc,char**argv,int hang_s=150){
  std::string prop="P00",out,rp,repdir="."; int W=8;
  std::string only,skip;
  for(int i=1;i<argc;i++){std::string a=argv[i];auto nx=[&]{return std::string(i+1<argc?argv[++i]:"");};
    if(a=="--property")prop=nx();else if(a=="--out")out=nx();else if(a=="--replay")rp=nx();else if(a=="--replays")repdir=nx();else if(a=="--workers")W=atoi(nx().c_str());else if(a=="--tier")thorough()=nx()=="thorough";else if(a=="--only")only=nx();else if(a=="--skip")skip=nx();}
  if(!rp.empty()){ FILE*f=fopen(rp.c_str(),"r"); if(!f)return 2; std::string t;char b[4096];size_t n;while((n=fread(b,1,sizeof b,f))>0)t.append(b,n);fclose(f);
    auto fs=t.find("\"suite\": \"");auto fe=t.find('"',fs+10);std::string sn=t.substr(fs+10,fe-fs-10);auto cs=t.find("\"choices\": [");std::vector<int>v;const char*p=t.c_str()+cs+12;while(*p&&*p!=']'){v.push_back(strtol(p,(char**)&p,10));while(*p==','||*p==' ')p++;}
    if(t.find("\"tier\": \"thorough\"")!=std::string::npos)thorough()=true;
    for(size_t s=0;s<suites().size();s++)if(sn==suites()[s].name){std::string m;int r=replay(int(s),v,m);printf(r?"replay: FAILED: %s\n":"replay: held%s\n",m.c_str());return r;}
    return 2; }
  Shared*S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(S)Shared(); sh()=S;
  char tmpl[]="/tmp/milo-mc-XXXXXX"; std::string dir=mkdtemp(tmpl); std::vector<pid_t> pid(W); double t0=now(); pid_t parent=getpid();
  auto spawn=[&](int w){ fflush(stdout);fflush(stderr); pid_t p=fork(); if(p)return p;
    prctl(PR_SET_PDEATHSIG,SIGKILL); if(getppid()!=parent)_exit(99);
    int lf=open((dir+"/log"+std::to_string(w)).c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(lf,1);dup2(lf,2);
    Slot*sl=&S->slot[w]; Ctx C; C.slot=sl; long execs=0; sl->state=1; FILE*f=fopen((dir+"/r"+std::to_string(w)).c_str(),"w"); std::vector<long> ex(suites().size()),ev(suites().size()); std::vector<std::vector<std::string>> sm(suites().size());
    for(size_t s=0;s<suites().size();s++){ if((!only.empty()&&only!=suites()[s].name)||skip==suites()[s].name)continue; C.samples.clear(); for(;;){ if(S->stop)break; int j=S->next[s]++; long e0=execs,v0=C.evals; bool more=true;
        try{more=job(C,int(s),j,execs);}catch(Fail&e){snprintf(sl->msg,sizeof sl->msg,"%s",e.msg.c_str());sl->state=2;S->stop=1;_exit(77);}
        ex[s]+=execs-e0;ev[s]+=C.evals-v0; if(!more)break;} sm[s]=C.samples; }
    sl->state=0; fwrite(&C.trans,8,1,f);long cp=C.capped;fwrite(&cp,8,1,f); put(f,C.states);put(f,C.outs); for(size_t s=0;s<suites().size();s++){fwrite(&ex[s],8,1,f);fwrite(&ev[s],8,1,f);long n=sm[s].size();fwrite(&n,8,1,f);for(auto&x:sm[s]){long l=x.size();fwrite(&l,8,1,f);fwrite(x.data(),1,l,f);}}
    fclose(f); _exit(0); return pid_t(0); };
  for(int w=0;w<W;w++)pid[w]=spawn(w);
  int bad=-1; std::string why; std::vector<uint64_t> last(W); std::vector<double> lt(W,now()); int left=W; std::vector<bool> done(W);
  while(left){ int st;pid_t p=waitpid(-1,&st,WNOHANG); if(p>0){ for(int w=0;w<W;w++)if(pid[w]==p&&!done[w]){done[w]=true;left--; bool ok=WIFEXITED(st)&&WEXITSTATUS(st)==0; if(!ok){ if(bad<0||(S->slot[w].state==2&&S->slot[bad].state!=2)){ if(!(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL&&S->stop&&bad>=0)){bad=w; why=S->slot[w].state==2?S->slot[w].msg:WIFSIGNALED(st)?std::string("process ended by signal ")+std::to_string(WTERMSIG(st))+" ("+strsignal(WTERMSIG(st))+")":"process ended with status "+std::to_string(WEXITSTATUS(st));} } S->stop=1; } } continue; }
    usleep(5000); double t=now(); for(int w=0;w<W;w++)if(!done[w]){uint64_t b=S->slot[w].beat;if(b!=last[w]){last[w]=b;lt[w]=t;}else if(t-lt[w]>hang_s&&S->slot[w].state==1&&bad<0){bad=w;why="no progress for "+std::to_string(hang_s)+" s (hang)";S->stop=1;kill(pid[w],SIGKILL);} else if(S->stop)kill(pid[w],SIGKILL);} }
  int rc=0; std::string json="{"; 
  if(bad>=0){ Slot&sl=S->slot[bad]; std::vector<int> v;for(int i=0;i<sl.n&&i<64;i++)v.push_back(int(sl.choice[i])); int s=sl.suite; bool same=false; std::string m2; std::string atS; for(int i=0;i<sl.nat&&i<8;i++)atS+=(i?",":"")+std::to_string(long(sl.at[i]));
    std::string log; if(FILE*f=fopen((dir+"/log"+std::to_string(bad)).c_str(),"r")){char b[3000];fseek(f,0,SEEK_END);long z=ftell(f);fseek(f,z>2900?z-2900:0,SEEK_SET);size_t n=fread(b,1,2900,f);log.assign(b,n);fclose(f);}
    // replay in a fresh process
    new(&S->slot[63])Slot(); int pf[2];if(pipe(pf)){} pid_t p=fork(); if(!p){ prctl(PR_SET_PDEATHSIG,SIGKILL); int lf=open("/dev/null",O_WRONLY);dup2(lf,1);dup2(lf,2);std::string m;int r=replay(s,v,m,&S->slot[63]); if(r&&write(pf[1],m.data(),m.size())){} _exit(r?77:0);} close(pf[1]);
    int st=0; double t1=now(); bool fin=false; while(now()-t1<hang_s*2){ if(waitpid(p,&st,WNOHANG)==p){fin=true;break;} usleep(5000);} if(!fin){kill(p,SIGKILL);waitpid(p,&st,0);same=true;m2="hang";} else {same=!(WIFEXITED(st)&&WEXITSTATUS(st)==0); char b[3000];ssize_t n=read(pf[0],b,sizeof b);if(n>0)m2.assign(b,n);}
    static char rf[4096]; mkdir(repdir.c_str(),0755);
    snprintf(rf,sizeof rf,"%s/%s-%s-%d.json",repdir.c_str(),prop.c_str(),suites()[s].name,int(getpid()));
    FILE*f=fopen(rf,"w"); std::string cs; for(size_t i=0;i<v.size();i++)cs+=(i?", ":"")+std::to_string(v[i]);
    if(f){fprintf(f,"{\"property\": \"%s\", \"harness\": \"%s\", \"suite\": \"%s\", \"tier\": \"%s\", \"choices\": [%s], \"at\": [%s], \"what\": \"%s\", \"on_replay\": \"%s\", \"log\": \"%s\"}\n",prop.c_str(),argv[0],suites()[s].name,thorough()?"thorough":"quick",cs.c_str(),atS.c_str(),esc(why).c_str(),same?(m2.empty()?"same crash":esc(m2).c_str()):"held (depends on earlier executions in the process)",esc(log).c_str());fclose(f);}
    printf("FAILED suite=%s choices=[%s] at=[%s]: %s%s\n",suites()[s].name,cs.c_str(),atS.c_str(),why.c_str(),same?"":" [not on replay alone]"); if(!log.empty())printf("%s\n",log.c_str());
    printf("VIOLATION property=%s replay=%s\n",prop.c_str(),rf); rc=1; }
  std::unordered_set<uint64_t> st,ou; long trans=0,cap=0; std::vector<long> ex(suites().size()),ev(suites().size()); std::vector<std::vector<std::string>> sm(suites().size());
  if(!rc)for(int w=0;w<W;w++){FILE*f=fopen((dir+"/r"+std::to_string(w)).c_str(),"r");if(!f)continue;long a,b;if(fread(&a,8,1,f)!=1||fread(&b,8,1,f)!=1){fclose(f);continue;}trans+=a;cap|=b;get(f,st);get(f,ou);for(size_t s=0;s<suites().size();s++){long x,y,n;if(fread(&x,8,1,f)!=1||fread(&y,8,1,f)!=1||fread(&n,8,1,f)!=1)break;ex[s]+=x;ev[s]+=y;while(n--){long l;if(fread(&l,8,1,f)!=1)break;std::string t(l,0);if(fread(&t[0],1,l,f)!=(size_t)l)break;if(sm[s].size()<2)sm[s].push_back(t);}}fclose(f);}
  for(int w=0;w<W;w++){unlink((dir+"/log"+std::to_string(w)).c_str());unlink((dir+"/r"+std::to_string(w)).c_str());} rmdir(dir.c_str());
  long te=0,tv=0; json+="\"suites\":["; for(size_t s=0;s<suites().size();s++){te+=ex[s];tv+=ev[s];char b[300];snprintf(b,300,"%s{\"suite\":\"%s\",\"vectors\":%ld,\"evaluations\":%ld,\"samples\":[",s?",":"",suites()[s].name,ex[s],ev[s]);json+=b;for(size_t i=0;i<sm[s].size();i++)json+=(i?",\"":"\"")+esc(sm[s][i])+"\"";json+="]}";if(!rc&&ev[s]==0&&skip!=suites()[s].name&&(only.empty()||only==suites()[s].name)){fprintf(stderr,"mc: suite %s evaluated nothing\n",suites()[s].name);rc=2;}}
  char b[400];snprintf(b,400,"],\"vectors\":%ld,\"evaluations\":%ld,\"transitions\":%ld,\"states\":%zu,\"outcomes\":%zu,\"capped\":%s,\"wall_s\":%.2f}",te,tv,trans,st.size(),ou.size(),cap?"true":"false",now()-t0);json+=b;
  if(!out.empty()){FILE*f=fopen(out.c_str(),"w");fputs(json.c_str(),f);fclose(f);} 
  printf("vectors=%ld evaluations=%ld transitions=%ld states=%zu outcomes=%zu wall=%.1fs\n",te,tv,trans,st.size(),ou.size(),now()-t0);
  return rc; }
}
