// P20: operations on different objects in different threads do not interfere, under every interleaving (one preemption everywhere, two where enumerated)
#include "seq.h"
#include "trace.h"
#include <pthread.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/wait.h>
#include <time.h>
#include <atomic>
#include <set>
using mc::Ctx; using milo::error;
// ---- jobs: the life of an object (or a series of calls), split into steps
struct Env{ const uint8_t*ro; uint8_t*o; size_t pos; const uint8_t*in(int s,size_t n,int){return ro+s*1024+(n&7);} uint8_t*out(size_t n){uint8_t*p=o+pos;pos+=n;return p;} void wrote(uint8_t*,size_t r,size_t,size_t){ memcpy(o+pos,&r,8); pos+=8; } };
struct Kind{ const char*name; int need; void(*make)(void*); int(*run)(void*,int,size_t,Env&,int); void(*end)(void*); size_t size; std::vector<Step>(*plan)(int); };
template<class S> struct Of{ using T=typename S::T; static void make(void*p){new(p)T;} static int run(void*p,int o,size_t n,Env&e,int ph){return S::run(*(T*)p,o,n,e,ph);} static void end(void*p){((T*)p)->~T();}
  static std::vector<Step> plan(int v){ std::vector<Step> q; auto add=[&](int op,size_t z){q.push_back({op,z});}; std::string s0=S::op(S::OPS>1?1:0); const size_t c1=v?70:9,c2=v?5:61;
    if(s0=="update"){ add(0,v?70:20); add(1,c1); add(1,c2); if(S::legal(READY,2))add(2,0); add(3,64); } else if(s0=="derive"){ add(0,v?70:20); add(1,9); add(1,v?30:5); } else if(s0=="aad"){ add(0,0); add(1,11); add(v?3:2,c1); add(v?3:2,c2); if(S::legal(READY,4))add(4,0); add(5,16); } else { add(0,0); add(1,c1); add(3,c2); add(2,c1); } return q; } };
// verification
struct SVer{ using A=P::aead::apie<P::aead_chacha_20_poly_1305>; struct T{A a;}; static int run(T&t,int o,size_t n,Env&e,int){ switch(o){ case 0:t.a.initialize(e.in(1,32,0),32,e.in(2,12,0),12);t.a.aad(e.in(3,n,0),n);return READY; case 1:{uint8_t*p=e.out(n);size_t r=t.a.decrypt(e.in(0,n,0),n,p);e.wrote(p,r,n,n);return READY;} case 2:{error er;t.a.verify(e.in(0,16,0),16,er);e.wrote(nullptr,bool(er)+2,0,0);return READY;} default:{uint8_t*p=e.out(16);t.a.digest(p,16);error er;t.a.verify(p,16,er);e.wrote(nullptr,bool(er)+4,0,0);return READY;} } } };
template<> struct Of<SVer>{ using T=SVer::T; static void make(void*p){new(p)T;} static int run(void*p,int o,size_t n,Env&e,int ph){return SVer::run(*(T*)p,o,n,e,ph);} static void end(void*p){((T*)p)->~T();} static std::vector<Step> plan(int v){return {{0,7},{1,size_t(v?70:33)},{2,0},{3,0}};} };
// codecs and one-line calls: no object
struct SCod{ struct T{}; }; static void codec(Env&e,size_t n){ using namespace P::codec; error er; const uint8_t*m=e.in(0,n,0); uint8_t*p=e.out(2*n+4);size_t r=encode<base_16<>>(m,n,p);e.wrote(p,r,0,0); uint8_t*q=e.out(2*n+4);size_t s=decode<base_16<>>(p,r,q,er);e.wrote(q,s,0,0); p=e.out(2*n+4);r=encode<base_64<>>(m,n,p);e.wrote(p,r,0,0); q=e.out(2*n+4);s=decode<base_64<>>(p,r,q,er);e.wrote(q,s,0,0); p[1]='!';q=e.out(2*n+4);s=decode<base_64<>>(p,r,q,er);e.wrote(q,s*2+bool(er),0,0); }
template<> struct Of<SCod>{ using T=SCod::T; static void make(void*){} static void end(void*){} static std::vector<Step> plan(int v){return {{0,0},{1,size_t(v?13:10)},{1,5},{1,1}};} static int run(void*,int o,size_t n,Env&e,int){ if(o)codec(e,n); return READY; } };
struct SOne{ struct T{}; };
template<> struct Of<SOne>{ using T=SOne::T; static void make(void*){} static void end(void*){} static std::vector<Step> plan(int v){return {{0,0},{1,size_t(v?40:20)},{2,3},{3,9}};} static int run(void*,int o,size_t n,Env&e,int){ const uint8_t*m=e.in(0,n,0),*k=e.in(1,32,0),*iv=e.in(2,16,0); if(o==1){uint8_t*p=e.out(32);e.wrote(p,P::hash::digest<P::hash_sha_2_256>(m,n,p),0,0);p=e.out(32);e.wrote(p,P::mac::digest<P::mac_hmac_sha_1_160>(k,32,m,n,p),0,0);} else if(o==2){uint8_t*p=e.out(n);e.wrote(p,P::cipher::encrypt<P::cipher_chacha_20>(k,32,iv,16,m,n,p),0,0);} else if(o==3){uint8_t*p=e.out(n),*t=e.out(16),*b=e.out(n);P::aead::encrypt<P::aead_chacha_20_poly_1305>(k,32,iv,12,m,3,m,n,p,t);error er;size_t r=P::aead::decrypt<P::aead_chacha_20_poly_1305>(k,32,iv,12,m,3,p,n,t,16,b,er);e.wrote(b,r*2+bool(er),0,0);} return READY; } };
// copies of one constant object that several threads read
static void*shared_const[2]; struct SCopy{ using A=P::hash::apie<P::hash_sha_2_256>; struct T{}; };
template<> struct Of<SCopy>{ using T=SCopy::T; static void make(void*){} static void end(void*){} static std::vector<Step> plan(int v){return {{0,0},{1,size_t(v?70:20)},{2,7},{1,3}};} static int run(void*,int o,size_t n,Env&e,int){ if(o==1){ const auto&c=*(const SCopy::A*)shared_const[0]; SCopy::A a(c); a.update(e.in(0,n,0),n); uint8_t*p=e.out(32);e.wrote(p,a.digest(p,32),0,0);} if(o==2){ using X=P::aead::apie<P::aead_chacha_20_poly_1305>; const auto&c=*(const X*)shared_const[1]; X a;a=c; uint8_t*p=e.out(n);a.encrypt(e.in(0,n,0),n,p); p=e.out(16);e.wrote(p,a.digest(p,16),0,0);} return READY; } };
#define Y(n,S,need) Kind{n,need,Of<S>::make,Of<S>::run,Of<S>::end,sizeof(Of<S>::T),Of<S>::plan},
static const Kind KINDS[]={ SUBJECTS(Y) Y("verify",SVer,ANY) Y("codecs",SCod,ANY) Y("one-line calls",SOne,ANY) Y("shared constants",SCopy,ANY) };
#undef Y
static const int NK=sizeof KINDS/sizeof*KINDS;
static uint8_t*map(size_t n,int sh=MAP_PRIVATE){ auto*p=(uint8_t*)mmap(nullptr,n,PROT_READ|PROT_WRITE,sh|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED){perror("mmap");_exit(95);} return p; }
struct Job{ const Kind*k=nullptr; Step plan[12]; int np=0; uint8_t*obj,*out; Env e; int ph=RAW; B solo; 
  void init(int seed){ obj=map(8192);out=map(8192); static uint8_t*ro[4]; if(!ro[seed]){ ro[seed]=map(8192); B x=ref::pattern(8000,900+seed); memcpy(ro[seed],x.data(),8000); mprotect(ro[seed],8192,PROT_READ); } e.ro=ro[seed]; e.o=out; }
  void set(const Kind*kk,int v){ k=kk; auto q=k->plan(v); np=int(q.size()); std::copy(q.begin(),q.end(),plan); }
  void clear(){ e.pos=0; ph=RAW; memset(out,0xb7,4096); }
  void steps(int a,int b){ for(int i=a;i<b;i++){ if(i==0){k->make(obj);ph=RAW;} ph=k->run(obj,plan[i].op,plan[i].n,e,ph); if(i==np-1)k->end(obj); } }
  void all(){steps(0,np);} void learn(){clear();all();solo=B(out,out+4096);} bool good()const{return !memcmp(out,solo.data(),4096);} };
// ---- two threads with strict hand-over
static int fut(std::atomic<int>*a,int op,int v,const timespec*t=nullptr){return int(syscall(SYS_futex,(int*)a,op|FUTEX_PRIVATE_FLAG,v,t,nullptr,0));}
struct Baton{ std::atomic<int> v{0}; void post(){v.store(1);fut(&v,FUTEX_WAKE,1);} bool wait(int ms){ timespec t{ms/1000,(ms%1000)*1000000l}; for(int i=0;;i++){ int x=1; if(v.compare_exchange_strong(x,0))return true; if(fut(&v,FUTEX_WAIT,0,&t)&&errno==ETIMEDOUT)return v.exchange(0)!=0; } } };
static Baton toB,toA; static void(*todo)(); static std::atomic<bool> blocked;
static void*bmain(void*){ uint8_t*st=map(1<<17); stack_t ss{};ss.ss_sp=st;ss.ss_size=1<<17;sigaltstack(&ss,nullptr); sigset_t m; sigemptyset(&m);sigaddset(&m,SIGTRAP);pthread_sigmask(SIG_UNBLOCK,&m,nullptr); for(;;){ while(!toB.wait(100000)){} todo(); toA.post(); } return nullptr; }
static bool started=false; static void start_b(){ if(started)return; started=true; 
  cpu_set_t s; sched_getaffinity(0,sizeof s,&s); int n=CPU_COUNT(&s),pick=int(getpid())%n; for(int i=0;i<CPU_SETSIZE;i++)if(CPU_ISSET(i,&s)&&pick--==0){cpu_set_t o;CPU_ZERO(&o);CPU_SET(i,&o);sched_setaffinity(0,sizeof o,&o);break;}
  pthread_t t; if(pthread_create(&t,nullptr,bmain,nullptr)){fprintf(stderr,"no thread\n");_exit(95);} }
// runs f in the other thread; false when it does not come back (it waits for this one)
static bool in_b(void(*f)(),int ms=100){ todo=f; toB.post(); if(toA.wait(ms))return true; blocked=true; return false; }
// a call of in_b that did not come back in time still posts once: nothing goes on before that
static const int LONG=40000; static bool settle(){ if(!blocked)return true; blocked=false; return toA.wait(LONG); }
static Job JA,JB,JL; // A: stepped; B: a whole life at the preemption; L: an object of B's thread that lives across
static int la,lb;
static void b_pre(){JL.clear();JL.steps(0,la);} static void b_mid(){JB.clear();JB.all();JL.steps(la,lb);} static void b_post(){JL.steps(lb,JL.np);} static void b_again(){JB.clear();JB.all();}
// ---- stepping A
enum Mode{IDLE,MEASURE,DENSE,FORK}; static Mode mode=IDLE; static size_t at; static __thread int who=0; static uint64_t sp_lo,sp_hi; static void(*bfun)();
// accesses to memory that is not the operation's own: object, output, environment and stacks are its own
static uint64_t priv[10][2]; static int npriv=0; static std::set<uint64_t>*wset=nullptr; static std::vector<uint32_t>*deps=nullptr; static uint64_t wr[512],nwr,hit[20000],nhit; static const uint64_t*watch=nullptr; static size_t nwatch=0;
static void own(const void*p,size_t n){priv[npriv][0]=uint64_t(p);priv[npriv++][1]=uint64_t(p)+n;}
static bool mine(uint64_t a){ if(a>=sp_lo&&a<sp_hi)return true; for(int j=0;j<npriv;j++)if(a>=priv[j][0]&&a<priv[j][1])return true; return false; }
template<class F> static void access(const greg_t*g,F f){ uint64_t ip=g[REG_RIP]; if(ip<trace::T.lo||ip>=trace::T.hi)return; uint32_t k=trace::T.at[ip-trace::T.lo]; if(k==0xffffffffu||!k)return; const trace::Opnd*o=trace::T.rec+2*k; for(int i=0;i<2;i++)if(o[i].used){ uint64_t a=trace::ea(o[i],g); if(a>=4096&&!mine(a))f(a,bool(o[i].write)); } }
static const uint32_t*points; static size_t npoints,nextp,stride=1,offset=0; static volatile bool inchild=false; static bool stopnow=false; static uint32_t childat; static void(*onchild)(size_t)=nullptr;
static void inside_child();
static size_t bat,bstop; static volatile bool bmiddle; static Baton bgo;
static void step(int,siginfo_t*,void*c){ auto*u=(ucontext_t*)c; greg_t*g=u->uc_mcontext.gregs; 
  if(who==2){ if(bat++==bstop){ g[REG_EFL]&=~0x100ull; bmiddle=true; toA.post(); while(!bgo.wait(100000)){} } return; }
  size_t k=at++;
  switch(mode){ case MEASURE: access(g,[&](uint64_t a,bool w){ if(w){ a&=~7ull; bool have_=false; for(uint64_t i=0;i<nwr;i++)if(wr[i]==a)have_=true; if(!have_&&nwr<512)wr[nwr++]=a; } if(nwatch){ bool h=false; for(size_t i=0;i<nwatch;i++)if(watch[i]==(a&~7ull))h=true; if(h&&nhit<20000&&(!nhit||hit[nhit-1]!=k))hit[nhit++]=k; } }); return;
   case DENSE: if(k%stride==offset&&!blocked)in_b(bfun); if(blocked)g[REG_EFL]&=~0x100ull; return;
   case FORK: if(nextp<npoints&&points[nextp]==k){ nextp++; if(stopnow){g[REG_EFL]&=~0x100ull;return;} pid_t p=fork(); if(p<0){return;} if(!p){ g[REG_EFL]&=~0x100ull; inchild=true; childat=uint32_t(k); alarm(200); inside_child(); return; } int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} if(!WIFEXITED(st)||WEXITSTATUS(st)){stopnow=true;childat=uint32_t(k);} onchild(k); if(nextp==npoints||stopnow)g[REG_EFL]&=~0x100ull; } return; default:return; } }
static void arm(){ static bool d=false; trace::init(); struct sigaction a{};a.sa_sigaction=step;a.sa_flags=SA_SIGINFO|SA_ONSTACK;sigaction(SIGTRAP,&a,nullptr); if(!d){ d=true; pthread_attr_t t;void*p;size_t n; pthread_getattr_np(pthread_self(),&t);pthread_attr_getstack(&t,&p,&n);sp_lo=uint64_t(p);sp_hi=sp_lo+n; } }
__attribute__((noinline)) static void run_a(Mode m){ mode=m; at=0; JA.clear(); TRACE_ON; JA.all(); TRACE_OFF; mode=IDLE; }
static void privs(){ npriv=0; for(auto*j:{&JA}){own(j->obj,8192);own(j->out,8192);own(j,sizeof*j);} own(&mode,sizeof mode);own(&at,8); }
// steps of A; written foreign granules in wr; steps that access watched granules in hit
static size_t measure(const std::vector<uint64_t>*w=nullptr){ privs(); nwr=0;nhit=0; nwatch=w?w->size():0; watch=w?w->data():nullptr; run_a(MEASURE); return at; }
static void jobs(){ static bool d=false; if(d)return; d=true; JA.init(0);JB.init(1);JL.init(2); }
static void consts(){ if(shared_const[0])return; static B k=ref::pattern(32,5),n=ref::pattern(12,6); auto*h=new(map(4096))SCopy::A; h->initialize();h->update(k.data(),32); using X=P::aead::apie<P::aead_chacha_20_poly_1305>; auto*x=new(map(4096))X; x->initialize(k.data(),32,n.data(),12);x->aad(n.data(),12); shared_const[0]=h;shared_const[1]=x; mprotect(h,4096,PROT_READ);mprotect(x,4096,PROT_READ); }
static void set(int ka,int kb,int va,int vb){ jobs();arm(); if(KINDS[ka].run==Of<SCopy>::run||KINDS[kb].run==Of<SCopy>::run)consts(); JA.set(&KINDS[ka],va);JB.set(&KINDS[kb],vb);JL.set(&KINDS[kb],1-vb); la=JL.np/2;lb=JL.np-1; }
static void pick(int ka,int kb,int va,int vb){ set(ka,kb,va,vb); JB.learn();JL.learn();JA.learn(); }
// what is wrong after an interleaving, or nothing: results of it, and of the next operations in both threads
static const char*aftermath(bool live){ if(!settle())return "the threads wait for each other"; if(!JA.good())return "the stopped operation gives another result"; if(!JB.good())return "the whole operation of the other thread gives another result"; if(live){ if(!in_b(b_post,LONG))return "the threads wait for each other"; if(!JL.good())return "an object that the other thread was using before gives another result"; } if(!in_b(b_again,LONG))return "the threads wait for each other"; if(!JB.good())return "the next operation of the other thread gives another result"; JA.clear();JA.all(); if(!JA.good())return "the next operation of the first thread gives another result"; return nullptr; }
// ---- dense: the other thread works at every (stride) instruction of one run
static void dense(Ctx&C,int ka,int kb,int va,int vb,size_t st,size_t off){ pick(ka,kb,va,vb); start_b(); stride=st;offset=off; bfun=b_again; C.at(ka,kb,va,vb); if(!in_b(b_again,LONG))C.fail("%s in the other thread alone does not end",JB.k->name); run_a(DENSE); size_t n=at; const char*w=aftermath(false); if(w)C.fail("%s in one thread, %s in the other whenever the first is at step %zu+%zu*i of %zu: %s",JA.k->name,JB.k->name,off,st,n,w); C.eval(long(n/st)); C.tr(long(n)); C.out(mc::mix(mc::mix(ka,kb),mc::mix(va*2+vb,off))); C.sample("%s, %s in the other thread before every %zu. of %zu instructions",JA.k->name,JB.k->name,st,n); }
MC_SUITE(dense_same){ int c=C.choose(NK*4); int k=c/4; if(!have(KINDS[k].need))return; dense(C,k,k,c&1,c>>1&1,1,0); if(mc::thorough())for(size_t st:{2,3,7,16})for(size_t o=0;o<st;o++)dense(C,k,k,c&1,c>>1&1,st,o); else for(size_t o=0;o<3;o++)dense(C,k,k,c&1,c>>1&1,7,o*2+1); }
MC_SUITE(dense_pairs){ int c=C.choose(NK*NK); int a=c/NK,b=c%NK; if(a==b||!have(KINDS[a].need)||!have(KINDS[b].need))return; dense(C,a,b,0,1,mc::thorough()?3:61,mc::thorough()?1:(a*7+b)%61); if(mc::thorough())dense(C,a,b,1,0,13,5); }
// ---- one preemption: at chosen steps of one run the process is copied and the other thread works in the copy
struct Sh{ volatile int rc; char msg[300]; uint32_t steps; uint32_t nh; uint32_t h[20000]; uint64_t nw; uint64_t w[512]; uint8_t ea[4096],eb[4096],el[4096]; };
static Sh*sh(){static Sh*s=(Sh*)map(sizeof(Sh),MAP_SHARED);return s;}
static bool live=false; static int second=0; // second: B stops at bstop, A runs to its end, then B
static void b_two(){ who=2; bat=0; bmiddle=false; JB.clear(); TRACE_ON; JB.all(); TRACE_OFF; who=0; }
static void inside_child(){ started=false; toA.v=0;toB.v=0;blocked=false; start_b(); bfun=second?b_two:live?b_mid:b_again; bmiddle=false; in_b(bfun,second?1000:100); }
static void finish_child(){ Sh*s=sh(); if(second){ bool ok=settle(); if(ok&&bmiddle){ bgo.post(); ok=toA.wait(LONG); } if(!ok){ strcpy(s->msg,"the threads wait for each other"); _exit(1); } } const char*w=aftermath(live&&!second); if(w){ snprintf(s->msg,300,"%s",w); _exit(1); } _exit(0); }
static Ctx*ctx; static void beat(size_t){ if(ctx)ctx->eval(); }
// runs A, stopping at the points; what failed, or nothing
static const char*forks(Ctx*C,const std::vector<uint32_t>&p,bool lv){ Sh*s=sh(); s->msg[0]=0; ctx=C; points=p.data();npoints=p.size();nextp=0;stopnow=false;inchild=false;onchild=beat; live=lv; if(lv)b_pre(); run_a(FORK); if(inchild)finish_child(); if(stopnow)return s->msg[0]?s->msg:"crash"; return nullptr; }
static std::vector<uint32_t> grid(size_t n,size_t g,size_t off=0){ std::vector<uint32_t> r; for(size_t i=0;i<g;i++){uint32_t x=uint32_t((n*i+off)/g); if(r.empty()||r.back()!=x)r.push_back(x);} return r; }
static std::vector<uint32_t> around(const uint64_t*h,size_t n,size_t lim,size_t steps){ std::set<uint32_t> s; for(size_t i=0;i<n;i++)for(int d=0;d<=1;d++)if(h[i]+d<steps)s.insert(uint32_t(h[i]+d)); std::vector<uint32_t> v(s.begin(),s.end()),r; size_t st=v.size()/lim+1; for(size_t i=0;i<v.size();i+=st)r.push_back(v[i]); return r; }
static void merge(std::vector<uint32_t>&a,const std::vector<uint32_t>&b){ std::set<uint32_t> s(a.begin(),a.end()); s.insert(b.begin(),b.end()); a.assign(s.begin(),s.end()); }
// granules outside their own memory that A or B write (B measured in A's place)
static std::vector<uint64_t> shared(int ka,int kb,int va,int vb){ std::set<uint64_t> s; set(kb,ka,vb,va); JA.learn(); measure(); s.insert(wr,wr+nwr); set(ka,kb,va,vb); JA.learn(); measure(); s.insert(wr,wr+nwr); return {s.begin(),s.end()}; }
static void one(Ctx&C,int ka,int kb,int va,int vb,size_t g){ auto W=shared(ka,kb,va,vb); pick(ka,kb,va,vb); size_t n=measure(&W); auto p=around(hit,nhit,mc::thorough()?4000:200,n); size_t dep=p.size(); merge(p,grid(n,g,va*31+vb*17)); C.at(ka,kb,va,vb); const char*w=forks(&C,p,va==vb); if(w)C.fail("%s in one thread stopped before step %u of %zu, %s runs in the other: %s",JA.k->name,childat,n,JB.k->name,w); C.tr(long(n)); C.state(mc::mix(ka*64+kb,va*2+vb)); C.out(mc::mix(ka*64+kb,va*2+vb)); C.sample("%s stopped at %zu of %zu steps (%zu at accesses to memory that either writes and that is not its own), %s in the other thread",JA.k->name,p.size(),n,dep,JB.k->name); }
MC_SUITE(one_same){ int c=C.choose(NK*4); int k=c/4; if(!have(KINDS[k].need))return; one(C,k,k,c&1,c>>1&1,mc::thorough()?3000:60); }
MC_SUITE(one_pairs){ int c=C.choose(NK*NK); int a=c/NK,b=c%NK; if(a==b||!have(KINDS[a].need)||!have(KINDS[b].need))return; if(!mc::thorough()&&(a*3+b)%5)return; one(C,a,b,0,1,mc::thorough()?60:3); }
// ---- two preemptions: A stops at i, B at j, A runs to its end, then B
static void two(Ctx&C,int ka,int kb,int va,int vb,size_t g){ auto W=shared(ka,kb,va,vb); pick(kb,ka,vb,va); size_t m=measure(&W); auto q=around(hit,nhit,mc::thorough()?200:16,m); merge(q,grid(m,g,m/2)); pick(ka,kb,va,vb); size_t n=measure(&W); auto p=around(hit,nhit,mc::thorough()?200:16,n); merge(p,grid(n,g,n/2)); for(uint32_t j:q){ if(!j)continue; C.at(ka,kb,j); second=1; bstop=j; const char*w=forks(&C,p,false); second=0; if(w)C.fail("%s in one thread stopped before step %u of %zu, %s in the other before step %u of %zu: %s",JA.k->name,childat,n,JB.k->name,j,m,w); C.out(mc::mix(ka*64+kb,j)); } C.tr(long(n)); C.sample("%s stopped at %zu steps, %s at %zu",JA.k->name,p.size(),JB.k->name,q.size()); }
MC_SUITE(two_same){ int c=C.choose(NK*2); int k=c/2; if(!have(KINDS[k].need))return; two(C,k,k,0,c&1,mc::thorough()?24:3); }
// ---- first use: nothing of the library has run in the process
template<class F> static int child(F f){ Sh*s=sh(); s->msg[0]=0; pid_t p=fork(); if(!p){ ctx=nullptr; started=false;toA.v=0;toB.v=0;blocked=false; alarm(300); int r=f(s); _exit(r); } int st; waitpid(p,&st,0); return WIFEXITED(st)?WEXITSTATUS(st):98; }
MC_SUITE(first_use){ int c=C.choose(NK*2); int k=c/2,v=c&1; if(!have(KINDS[k].need))return; 
  // what the results are, from one child; the steps and writes of a first use, from others
  Sh*s=sh(); int r=child([&](Sh*s){ pick(k,k,0,v); memcpy(s->ea,JA.out,4096); JB.clear();JB.all();memcpy(s->eb,JB.out,4096); return 0; }); if(r)C.fail("%s: first use crashed",KINDS[k].name);
  r=child([&](Sh*s){ set(k,k,0,v); s->steps=uint32_t(measure()); s->nw=nwr; memcpy(s->w,wr,sizeof wr); return 0; }); if(r)C.fail("%s: first use crashed",KINDS[k].name);
  static std::vector<uint64_t> W; W.assign(s->w,s->w+s->nw); r=child([&](Sh*s){ set(k,k,0,v); measure(&W); s->nh=uint32_t(nhit); for(size_t i=0;i<nhit;i++)s->h[i]=uint32_t(hit[i]); return 0; }); static uint64_t h[20000]; for(uint32_t i=0;i<s->nh;i++)h[i]=s->h[i]; auto p=around(h,s->nh,mc::thorough()?5000:300,s->steps); size_t dep=p.size(); merge(p,grid(s->steps,mc::thorough()?300:30)); uint32_t n=s->steps; C.at(k,v,n);
  r=child([&](Sh*s){ set(k,k,0,v); JA.solo=B(s->ea,s->ea+4096);JB.solo=B(s->eb,s->eb+4096); const char*w=forks(nullptr,p,false); if(w){ char t[400]; snprintf(t,400,"stopped before step %u of %u: %s",childat,n,w); snprintf(s->msg,300,"%s",t); return 1; } return 0; }); if(r)C.fail("%s: first use in two threads: %s",KINDS[k].name,r==1?s->msg:"crash");
  C.eval(long(p.size())); C.tr(n); C.state(mc::mix(k,W.size())); C.out(mc::mix(k,v)); C.sample("%s: first use of %u steps, %zu of them at accesses to memory that first uses write, stopped at %zu",KINDS[k].name,n,dep,p.size()); }
int main(int c,char**v){return mc::main(c,v);}
