// P03: Poly1305
#include "macs.h"
static B rf(int,const B&k,const B&m){return ref::poly1305(k,m);}
using T0=P::mac_poly_1305; using T1=P::mac_poly_1305_sw;
MC_SUITE(lengths){ int c=C.choose(8); if(c&1)m_lengths<T0>(C,"poly_1305",0,rf,16,c/2,4); else m_lengths<T1>(C,"poly_1305_sw",0,rf,16,c/2,4); }
MC_SUITE(states){ int c=C.choose(6); static B ff(400,0xff); B z(32,0); B rmax(32,0xff); B k= c<2?keyof(32):c<4?rmax:z; B m=c/2==1?ff:msg(); if(c/2==2)k[0]=5; if(c&1)m_states<T0>(C,"poly_1305",0,rf,16,k,m,mc::thorough()?12:7); else m_states<T1>(C,"poly_1305_sw",0,rf,16,k,m,mc::thorough()?12:7); }
MC_SUITE(bytes){ int c=C.choose(16); m_bytes<T0>(C,"poly_1305",0,rf,32,c<8?16:37,c%8,8); }
MC_SUITE(fills){ int c=C.choose(24); size_t m=c/8==0?16:c/8==1?37:64; if(c&1)m_fills<P::mac::apie<T0>>(C,"apie<poly_1305>",0,rf,32,m,c/2%4,4); else m_fills<T1>(C,"poly_1305_sw",0,rf,32,m,c/2%4,4); }
MC_SUITE(sizes){ int c=C.choose(6); if(c&1)m_wide<T0>(C,"poly_1305",0,rf,c/2,3); else m_wide<T1>(C,"poly_1305_sw",0,rf,c/2,3); }
MC_SUITE(history){ int c=C.choose(20); int f=c%5; if(c<5){Box<T0>o;m_history<T0,false>(C,"poly_1305",0,rf,16,*o,f);} else if(c<10){Box<T1>o;m_history<T1,false>(C,"poly_1305_sw",0,rf,16,*o,f);} else if(c<15){using A=P::mac::apie<T0>;Box<A>o;m_history<A,true>(C,"apie<poly_1305>",0,rf,16,*o,f);} else {using A=P::mac::apie<T1>;Box<A>o;m_history<A,true>(C,"apie<poly_1305_sw>",0,rf,16,*o,f);} }
// corner numbers: r, blocks and s from values that make limbs and the accumulator overflow, reach or pass 2^130-5
static std::vector<B> num(){ static std::vector<B> v=[]{ std::vector<B> r; auto add=[&](std::initializer_list<int> x,int fill){B b(16,uint8_t(fill));size_t i=0;for(int y:x)b[i++]=uint8_t(y);r.push_back(b);};
    add({0},0);add({1},0);add({2},0);add({4},0);add({5},0);add({0xfb},0xff);add({0xfa},0xff);add({0xfc},0xff);add({0xfe},0xff);add({0xff},0xff);add({0},0xff);add({0xff,0xff,0xff,3},0);add({0,0,0,4},0);
    for(int bit:{26,28,32,44,52,60,64,78,88,96,104,124,127}){B b(16,0);b[bit/8]=1<<(bit%8);r.push_back(b); B m(16,0);for(int i=0;i<bit;i++)m[i/8]|=1<<(i%8);r.push_back(m); B n(16,0xff);for(int i=0;i<bit;i++)n[i/8]&=~(1<<(i%8));r.push_back(n);}
    r.push_back(ref::pattern(16,9));return r;}(); return v; }
template<class T> static void chk(Ctx&C,const B&k,const B&m,int split){ T o;o.initialize(k.data(),32); if(split)for(size_t i=0;i<m.size();i+=split)o.update(&m[i],std::min<size_t>(split,m.size()-i));else o.update(m.data(),m.size()); o.finalize(); uint8_t d[16];size_t n=o.digest(d);B e=ref::poly1305(k,m); if(n!=16||memcmp(d,e.data(),16))C.fail("poly_1305: key %s message %s: tag %s, expected %s",ref::tohex(k).c_str(),ref::tohex(m).c_str(),ref::tohex(d,16).c_str(),ref::tohex(e).c_str());C.out(d,16);C.eval(); }
MC_SUITE(corners){ auto v=num(); int n=int(v.size()); int r=C.choose(n); int nb=1+C.choose(3); 
  const int ss[]={0,9,int(n-1),5,8,14}; 
  for(int s:ss)for(int a=0;a<n;a++)for(int b=0;b<(nb>1?n:1);b++){ C.at(r,s,a,b); B k=ref::cat(v[r],v[s]),m=v[a]; if(nb>1)m=ref::cat(m,v[b]); if(nb==3){ m=ref::cat(m,v[(a*7+b*3+s)%n]); if(!mc::thorough()&&s!=0&&s!=9)continue; } chk<T0>(C,k,m,0); if(nb==3)chk<T0>(C,k,m,7); }
  C.sample("r=%s with %d corner values of s and of %d blocks",ref::tohex(v[r]).c_str(),6,nb); }
// accumulators equal to every small distance around the prime before the final reduction: r=1 and 2, blocks chosen
MC_SUITE(prime){ int rv=C.choose(4); int tail=C.choose(17); for(int d=0;d<256;d++)for(int hi:{0xff,0xfe,0})for(int nblk=1;nblk<=5;nblk++){ C.at(rv,tail,d,hi,nblk); B k(32,0); k[0]=rv+1; if(hi==0)for(int i=16;i<32;i++)k[i]=0xff; B m; for(int i=0;i<nblk;i++){B x(16,hi?0xff:0);x[0]=uint8_t(d);if(i)x[15]=uint8_t(hi);m=ref::cat(m,x);} m=ref::cat(m,B(tail,0xff)); chk<T0>(C,k,m,0);} }
// long messages: one update or split, beyond 2^32 bytes is covered by P07
MC_SUITE(longmsg){ int c=C.choose(6); size_t n=(c<3?70000:mc::thorough()?2000003:300001); B m=c%3==0?B(n,0xff):ref::pattern(n,c); B k=c%3==1?B(32,0xff):keyof(32); chk<T0>(C,k,m,0); chk<T0>(C,k,m,4099); C.sample("%zu bytes",n); }
MC_SUITE(keys){ int c=C.choose(8); if(c%2)m_keys<T0>(C,"poly_1305",0,rf,c,8); else m_keys<P::mac::apie<T0>>(C,"apie<poly_1305>",0,rf,c,8); }
#include "many.h"
#define HM(Y) Y("poly_1305",SMac<P::mac_poly_1305 COMMA false>,ANY) Y("poly_1305_sw",SMac<P::mac_poly_1305_sw COMMA true>,ANY)
MANY_SUITE(HM)
int main(int c,char**v){return mc::main(c,v);}
