// what the compiler and the C++ headers expect of a library, for a static 32 bit program that only
// computes, prints and ends
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <new>
#include <cstdio>
#include <string>
#include <map>
#include <unordered_set>
#include <sys/mman.h>
static long sys(long n,long a=0,long b=0,long c=0,long d=0,long e=0){ long r; asm volatile("int $0x80":"=a"(r):"a"(n),"b"(a),"c"(b),"d"(c),"S"(d),"D"(e):"memory"); return r; }
extern "C" {
void _exit(int c){ for(;;)sys(252,c); }
void abort(){ sys(4,1,long("abort\n"),6); _exit(4); }
void*memcpy(void*d,const void*s,size_t n){ void*r=d; asm volatile("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); return r; }
void*memset(void*d,int v,size_t n){ void*r=d; asm volatile("rep stosb":"+D"(d),"+c"(n):"a"(v):"memory"); return r; }
void*memmove(void*d,const void*s,size_t n){ auto*a=(unsigned char*)d; auto*b=(const unsigned char*)s; if(a<=b||a>=b+n)return memcpy(d,s,n); while(n--)((volatile unsigned char*)a)[n]=b[n]; return d; }
int memcmp(const void*a,const void*b,size_t n){ auto*x=(const volatile unsigned char*)a; auto*y=(const volatile unsigned char*)b; for(size_t i=0;i<n;i++)if(x[i]!=y[i])return x[i]<y[i]?-1:1; return 0; }
void*memchr(const void*a,int c,size_t n){ auto*x=(const volatile unsigned char*)a; for(size_t i=0;i<n;i++)if(x[i]==(unsigned char)c)return (void*)(x+i); return nullptr; }
size_t strlen(const char*s){ size_t n=0; while(((const volatile char*)s)[n])n++; return n; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ while(n&&*a&&*a==*b){a++;b++;n--;} return n?(unsigned char)*a-(unsigned char)*b:0; }
char*strchr(const char*a,int c){ for(;;a++){ if(*a==char(c))return (char*)a; if(!*a)return nullptr; } }
int atoi(const char*s){ int v=0,g=1; if(*s=='-'){g=-1;s++;} while(*s>='0'&&*s<='9')v=v*10+*s++-'0'; return v*g; }
int vsnprintf(char*b,size_t cap,const char*f,va_list a){ size_t n=0; auto put=[&](char c){ if(n+1<cap)b[n]=c; n++; };
  for(;*f;f++){ if(*f!='%'){put(*f);continue;} f++; bool zero=false,left=false; int w=0,pr=-1,l=0; for(;*f=='0'||*f=='-'||*f=='#'||*f=='+';f++){if(*f=='0')zero=true;if(*f=='-')left=true;} if(*f=='*'){w=va_arg(a,int);f++;} while(*f>='0'&&*f<='9')w=w*10+*f++-'0'; if(*f=='.'){f++;pr=0;if(*f=='*'){pr=va_arg(a,int);f++;}while(*f>='0'&&*f<='9')pr=pr*10+*f++-'0';} while(*f=='l'||*f=='z'||*f=='h'||*f=='j'){ if(*f=='l')l++; if(*f=='j')l=2; f++; }
    char t[32]; int k=0; bool neg=false; switch(*f){ case '%':put('%');break; case 'c':put(char(va_arg(a,int)));break;
      case 's':{const char*s=va_arg(a,const char*); if(!s)s="(null)"; int len=0; while(s[len]&&(pr<0||len<pr))len++; for(int i=len;!left&&i<w;i++)put(' '); for(int i=0;i<len;i++)put(s[i]); for(int i=len;left&&i<w;i++)put(' ');break;}
      case 'd':case 'i':case 'u':case 'x':case 'X':case 'p':{ unsigned long long v; int base=*f=='x'||*f=='X'||*f=='p'?16:10; if(*f=='d'||*f=='i'){ long long x=l>=2?va_arg(a,long long):va_arg(a,long); neg=x<0; v=neg?-(unsigned long long)x:x; } else v=l>=2?va_arg(a,unsigned long long):va_arg(a,unsigned long); do{int dg=int(v%base);t[k++]="0123456789abcdef"[dg];v/=base;}while(v); while(k<pr)t[k++]='0'; if(zero&&pr<0)while(k<w-int(neg)&&k<30)t[k++]='0'; if(neg)t[k++]='-'; for(int i=k;!left&&i<w;i++)put(' '); int len=k; while(k)put(t[--k]); for(int i=len;left&&i<w;i++)put(' '); break; }
      case 'f':case 'g':{ double x=va_arg(a,double); long long v=(long long)x; do{t[k++]=char('0'+v%10);v/=10;}while(v); while(k)put(t[--k]); break; }
      default:put('?'); } }
  if(cap)b[n<cap?n:cap-1]=0; return int(n); }
int snprintf(char*b,size_t n,const char*f,...){ va_list a; va_start(a,f); int r=vsnprintf(b,n,f,a); va_end(a); return r; }
int printf(const char*f,...){ static char b[5000]; va_list a; va_start(a,f); int r=vsnprintf(b,sizeof b,f,a); va_end(a); sys(4,1,long(b),r<5000?r:4999); return r; }
int puts(const char*s){ return printf("%s\n",s); } int putchar(int c){ return printf("%c",c); }
void*mmap(void*p,size_t n,int pr,int fl,int fd,off_t o)noexcept{ volatile long a[6]={long(p),long(n),pr,fl,fd,long(o)}; long r=sys(90,long(a)); return r<0&&r>-4096?(void*)-1:(void*)r; }
int munmap(void*p,size_t n)noexcept{ return int(sys(91,long(p),long(n))); }
int memfd_create(const char*n,unsigned f)noexcept{ return int(sys(356,long(n),f)); }
int ftruncate(int fd,off_t n)noexcept{ return int(sys(93,fd,long(n))); }
char*getenv(const char*){ return nullptr; } FILE*fopen(const char*,const char*){ return nullptr; } int fclose(FILE*){ return 0; } int __isoc23_fscanf(FILE*,const char*,...){ return 0; } long __isoc23_strtol(const char*s,char**,int){ return atoi(s); }
// 64 bit division
uint64_t __udivmoddi4(uint64_t a,uint64_t b,uint64_t*r){ uint64_t q=0,m=0; if(!(b>>32)){ uint32_t d=uint32_t(b),hi=uint32_t(a>>32),lo=uint32_t(a),qh=hi/d,rh=hi%d,ql,rl; asm("divl %4":"=a"(ql),"=d"(rl):"a"(lo),"d"(rh),"rm"(d)); if(r)*r=rl; return uint64_t(qh)<<32|ql; } for(int i=63;i>=0;i--){ m=m<<1|((a>>i)&1); if(m>=b){m-=b;q|=1ull<<i;} } if(r)*r=m; return q; }
uint64_t __udivdi3(uint64_t a,uint64_t b){ return __udivmoddi4(a,b,nullptr); } uint64_t __umoddi3(uint64_t a,uint64_t b){ uint64_t r; __udivmoddi4(a,b,&r); return r; }
int64_t __divdi3(int64_t a,int64_t b){ uint64_t q=__udivdi3(a<0?-(uint64_t)a:a,b<0?-(uint64_t)b:b); return (a<0)!=(b<0)?-(int64_t)q:(int64_t)q; } int64_t __moddi3(int64_t a,int64_t b){ uint64_t r=__umoddi3(a<0?-(uint64_t)a:a,b<0?-(uint64_t)b:b); return a<0?-(int64_t)r:(int64_t)r; }
// exceptions: a throw goes to the one place that waits for it
void*m32_jmp[16]; void*m32_thrown; void*__dso_handle=nullptr; void*_ZTVN10__cxxabiv117__class_type_infoE[8]; void*_ZTVN10__cxxabiv120__si_class_type_infoE[8]; void*_ZTVN10__cxxabiv116__enum_type_infoE[8]; void*_ZTVN10__cxxabiv119__pointer_type_infoE[8];
void*__cxa_allocate_exception(size_t n); void __cxa_throw(void*p,void*,void(*)(void*)); 
void __cxa_free_exception(void*){} void*__cxa_begin_catch(void*p){return p;} void __cxa_end_catch(){} void __cxa_rethrow(){abort();} void _Unwind_Resume(){abort();} int __gxx_personality_v0(){abort();return 0;} int __cxa_atexit(void(*)(void*),void*,void*){return 0;} void __cxa_pure_virtual(){abort();} void __cxa_call_terminate(){abort();} void __stack_chk_fail(){abort();}
}
int m32_armed;
// allocation: free lists by power of two
static char*cur=nullptr,*end=nullptr; static void*fl[33]; struct Hd{uint32_t k,pad[3];};
static void*get(size_t n){ int k=5; while((size_t(1)<<k)<n+16)k++; if(fl[k]){void*p=fl[k];fl[k]=*(void**)p;return p;} size_t z=size_t(1)<<k; if(z>size_t(end-cur)){ size_t m=z>(8u<<20)?z:(8u<<20); void*p=mmap(nullptr,m,3,0x22,-1,0); if(p==(void*)-1){ sys(4,1,long("out of memory\n"),14); _exit(5); } cur=(char*)p; end=cur+m; } Hd*h=(Hd*)cur; cur+=z; h->k=k; return h+1; }
static void put(void*p){ if(!p)return; Hd*h=(Hd*)p-1; *(void**)p=fl[h->k]; fl[h->k]=p; }
void*operator new(size_t n){return get(n);} void*operator new[](size_t n){return get(n);} void operator delete(void*p)noexcept{put(p);} void operator delete(void*p,size_t)noexcept{put(p);} void operator delete[](void*p)noexcept{put(p);} void operator delete[](void*p,size_t)noexcept{put(p);}
// over-aligned: remember the start in front
void*operator new(size_t n,std::align_val_t al){ size_t a=size_t(al); char*b=(char*)get(n+a+16); uintptr_t p=(uintptr_t(b)+8+a-1)&~(uintptr_t(a)-1); ((void**)p)[-1]=b; return (void*)p; } void operator delete(void*p,size_t,std::align_val_t)noexcept{ put(((void**)p)[-1]); } void operator delete(void*p,std::align_val_t)noexcept{ put(((void**)p)[-1]); }
extern "C" void*__cxa_allocate_exception(size_t n){ return get(n); }
extern "C" void __cxa_throw(void*p,void*,void(*)(void*)){ if(!m32_armed){ sys(4,1,long("FAILED uncaught exception\n"),26); _exit(1); } m32_armed=0; m32_thrown=p; __builtin_longjmp(m32_jmp,1); }
template void std::string::_M_replace_cold(char*,size_t,const char*,size_t,size_t);
namespace std { void __throw_length_error(const char*){abort();} void __throw_bad_alloc(){abort();} void __throw_bad_array_new_length(){abort();} void __throw_out_of_range_fmt(const char*,...){abort();} void __throw_logic_error(const char*){abort();} void __throw_bad_function_call(){abort();} void __throw_out_of_range(const char*){abort();}
// ordered and hashed containers (unbalanced trees do)
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h)noexcept{ x->_M_parent=p;x->_M_left=nullptr;x->_M_right=nullptr;x->_M_color=_S_red; if(p==&h){h._M_parent=x;h._M_left=x;h._M_right=x;x->_M_color=_S_black;} else if(left){p->_M_left=x;if(p==h._M_left)h._M_left=x;} else {p->_M_right=x;if(p==h._M_right)h._M_right=x;} }
_Rb_tree_node_base*_Rb_tree_increment(_Rb_tree_node_base*x)noexcept{ if(x->_M_right){x=x->_M_right;while(x->_M_left)x=x->_M_left;return x;} auto*y=x->_M_parent; while(x==y->_M_right){x=y;y=y->_M_parent;} return x->_M_right!=y?y:x; }
const _Rb_tree_node_base*_Rb_tree_increment(const _Rb_tree_node_base*x)noexcept{ return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base*_Rb_tree_decrement(_Rb_tree_node_base*x)noexcept{ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x&&!(x->_M_parent==x))return x->_M_right; if(x->_M_left){x=x->_M_left;while(x->_M_right)x=x->_M_right;return x;} auto*y=x->_M_parent; while(x==y->_M_left){x=y;y=y->_M_parent;} return y; }
const _Rb_tree_node_base*_Rb_tree_decrement(const _Rb_tree_node_base*x)noexcept{ return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
namespace __detail { size_t _Prime_rehash_policy::_M_next_bkt(size_t n)const{ size_t k=13; while(k<n)k=k*2+1; _M_next_resize=k; return k; } pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b,size_t e,size_t i)const{ if(e+i>b)return {true,_M_next_bkt(e+i>b*2?e+i:b*2)}; return {false,0}; } }
}
extern "C" { extern void(*__init_array_start[])(int,char**,char**); extern void(*__init_array_end[])(int,char**,char**); int main(int,char**);
void m32_start(long*sp){ int c=int(sp[0]); char**v=(char**)(sp+1); for(auto p=__init_array_start;p!=__init_array_end;p++)(*p)(c,v,nullptr); _exit(main(c,v)); } }
asm(".globl _start\n_start:\n xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call m32_start\n");
