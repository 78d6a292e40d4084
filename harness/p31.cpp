// P31: messages of more than 2^31 bytes in one call and of more than 2^32 bytes in several, on a machine of 32 bits
#include "aeads.h"
#include "period.h"
using mc::Ctx;
static const size_t PER=period::PER,BIG=(size_t(1)<<31)+77; typedef uint64_t u64;
static const u64 LEN[]={(1ull<<29)-1,1ull<<29,(1ull<<29)+64,(1ull<<32)-3,(1ull<<32)+131};
static uint8_t*SRC=nullptr; static void drop(){ if(SRC)munmap(SRC,((BIG+PER)/PER+1)*PER); SRC=nullptr; } // the address space holds one such range at a time
static uint8_t*src(){ auto&s=SRC; if(!s){s=period::make(BIG+PER,false);for(size_t i=0;i<PER;i++)s[i]=ref::pat(i%65521);} return s; }
// codecs: one call whose longer side has more than 2^31 bytes
template<class K,size_t GB,size_t GC> static void codec(Ctx&C,bool back,const B&one){ drop(); size_t G=(size_t(1)<<31)/GC+9,N=G*GB,M=G*GC; uint8_t*s=period::make(back?M:N,false),*d=period::make(back?N:M,true); size_t r; milo::error er; memset(d,0,PER); if(!back){ memset(s,0x5a,PER); if(K::encode_size(s,N)!=M)C.fail("encode_size(%zu) is %zu",N,K::encode_size(s,N)); r=K::encode(s,N,d); if(r!=M)C.fail("encode of %zu bytes returned %zu",N,r); for(size_t i=0;i<PER;i++)if(d[i]!=one[i%GC])C.fail("encode of %zu bytes: byte %zu wrong",N,i); }
  else { for(size_t i=0;i<PER;i++)s[i]=one[i%GC]; if(K::decode_size(s,M)!=N)C.fail("decode_size(%zu) is %zu",M,K::decode_size(s,M)); r=K::decode(s,M,d,er); if(er||r!=N)C.fail("decode of %zu characters returned %zu",M,r); for(size_t i=0;i<PER;i++)if(d[i]!=0x5a)C.fail("decode of %zu characters: byte %zu wrong",M,i); } C.eval(2); munmap(s,((back?M:N)/PER+1)*PER); munmap(d,((back?N:M)/PER+1)*PER); C.sample("%zu bytes, %zu characters",N,M); }
MC_SUITE(codecs){ int c=C.choose(4); if(c<2)codec<P::codec::base_16<>,1,2>(C,c&1,ref::hex(B(1,0x5a))); else codec<P::codec::base_64<>,3,4>(C,c&1,ref::b64(B(3,0x5a))); }
template<class F> static void feed(u64&pos,u64 to,F f){ while(pos<to){ u64 k=to-pos; if(k>PER*4-37)k=PER*4-37; f(src()+size_t(pos%PER),size_t(k)); pos+=k; } }
static void line(const char*nm,u64 n,const uint8_t*d,size_t k){ printf("LONG %s %llu %s\n",nm,(unsigned long long)n,ref::tohex(d,k).c_str()); }
template<class T> static void hash(Ctx&C,int h,int mode){ T o; o.initialize(); uint8_t d[80]; u64 pos=0; auto end=[&](u64 n){ T c=o; c.finalize(); size_t k=c.digest(d); if(k!=ref::hsize(h))C.fail("%s: digest of %zu bytes",ref::hname(h),k); line(ref::hname(h),n,d,k); C.eval(); C.out(d,k); };
  if(mode){ o.update(src(),BIG); end(BIG); C.sample("%s: one update of %zu bytes",ref::hname(h),BIG); } else for(u64 n:LEN){ feed(pos,n,[&](const uint8_t*p,size_t k){o.update(p,k);}); end(n); } }
MC_SUITE(hashes){ int c=C.choose(mc::thorough()?14:6); int h=mc::thorough()?c/2:c/2==0?ref::SHA1:c/2==1?ref::SHA256:ref::SHA512; C.at(h,c%2); switch(h){ case ref::SHA1:hash<P::hash_sha_1_160_sw>(C,h,c%2);break; case ref::SHA224:hash<P::hash_sha_2_224_sw>(C,h,c%2);break; case ref::SHA256:hash<P::hash_sha_2_256_sw>(C,h,c%2);break; case ref::SHA384:hash<P::hash_sha_2_384_sw>(C,h,c%2);break; case ref::SHA512:hash<P::hash_sha_2_512_sw>(C,h,c%2);break; case ref::SHA512_224:hash<P::hash_sha_2_512_224_sw>(C,h,c%2);break; default:hash<P::hash_sha_2_512_256_sw>(C,h,c%2); } }
// the one time authenticator alone
MC_SUITE(poly){ int mode=C.choose(2); B k=ref::pattern(32,7); P::mac_poly_1305_sw o; o.initialize(k.data(),32); Poly p(k); u64 pos=0,n=mode?u64(BIG):LEN[4]; uint8_t d[16]; if(mode)o.update(src(),BIG); else feed(pos,n,[&](const uint8_t*q,size_t z){o.update(q,z);});
  for(pos=0;pos<n;){ size_t z=size_t(std::min<u64>(PER,n-pos)),w=z&~size_t(15); p.update(src(),w); if(w<z)p.last(src()+w,z-w); pos+=z; }
  o.finalize(); o.digest(d); B e=p.fin(); if(memcmp(d,e.data(),16))C.fail("poly_1305 of %llu bytes (%s): %s, expected %s",(unsigned long long)n,mode?"one call":"several",ref::tohex(d,16).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,16); }
// the cipher: every block that begins or ends a part, and one of every 2^20 bytes
static bool blockok(const B&k,const B&n,uint32_t ctr,u64 at,const uint8_t*in,const uint8_t*out,size_t z){ uint8_t b[64]; ref::chacha_block(k.data(),ctr+uint32_t(at/64),n.data(),b); for(size_t i=0;i<z;i++)if((in?in[i]:0)!=(out[i]^b[i+at%64]))return false; return true; }
static uint8_t*anon(size_t n){ drop(); auto*p=(uint8_t*)mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED)abort(); return p; }
MC_SUITE(cipher){ int mode=C.choose(2); B k=akey(),n=anonce(); B iv=ref::cat(B{5,0,0,0},n); P::cipher_chacha_20_sw o; o.initialize(k.data(),32,iv.data(),16);
  if(mode){ uint8_t*p=anon(BIG); size_t r=o.encrypt(p,BIG,p); if(r!=BIG)C.fail("chacha_20: encrypt of %zu bytes returned %zu",BIG,r); for(size_t i=0;i<BIG;i+=i+(1<<20)+64<BIG?1<<20:64){ C.at(i/64); size_t z=std::min<size_t>(64,BIG-i); if(!blockok(k,n,5,i,nullptr,p+i,z))C.fail("chacha_20: one call of %zu bytes: byte %zu wrong",BIG,i); C.eval(); } munmap(p,BIG); }
  else { static B out(PER+64); u64 pos=0; while(pos<LEN[4]){ size_t z=size_t(std::min<u64>(PER-64*7,LEN[4]-pos)); size_t r=o.encrypt(src(),z,out.data()); if(r!=z)C.fail("encrypt returned %zu",r); C.at(pos>>6); if(!blockok(k,n,5,pos,src(),out.data(),std::min<size_t>(z,64)))C.fail("chacha_20: wrong after %llu bytes",(unsigned long long)pos); size_t l=(z-1)&~63u; if(!blockok(k,n,5,pos+l,src()+l,out.data()+l,z-l))C.fail("chacha_20: wrong at byte %llu",(unsigned long long)(pos+l)); pos+=z; C.eval(2); } } }
// additional data (0,1) and text (2,3) in one call (1,3) or several
MC_SUITE(aead){ int v=C.choose(4); using T=P::aead_chacha_20_sw_poly_1305_sw; B k=akey(),n=anonce(); B otk=ref::keystream(k,0,n,64); otk.resize(32); Poly p(otk); T o; o.initialize(k.data(),32,n.data(),12); uint8_t d[16],c[8]; u64 an=3,tn=5,pos=0; const uint8_t*a3=src();
  if(v==1){ an=BIG; o.aad(src(),BIG); p.update(src(),BIG); } else if(v==0){ an=LEN[4]; feed(pos,an,[&](const uint8_t*q,size_t z){o.aad(q,z);}); pos=0; while(pos<an){ size_t z=size_t(std::min<u64>(PER,an-pos)); p.update(src(),z); pos+=z; } } else { o.aad(a3,3); p.update(a3,3); }
  if(v<2){ o.encrypt(pt0().data(),5,c); p.update(ct0().data(),5); }
  else if(v==3){ tn=BIG; uint8_t*t=anon(BIG); if(o.encrypt(t,BIG,t)!=BIG)C.fail("encrypt: wrong size"); p.update(t,BIG); if(!blockok(k,n,1,BIG-BIG%64,nullptr,t+BIG-BIG%64,BIG%64))C.fail("aead: last bytes of %zu wrong",BIG); munmap(t,BIG); }
  else { tn=LEN[4]; static B out(PER); while(pos<tn){ size_t z=size_t(std::min<u64>(PER,tn-pos)); if(o.decrypt(src(),z,out.data())!=z)C.fail("decrypt: wrong size"); p.update(src(),z); size_t l=(z-1)&~63u; if(!blockok(k,n,1,pos+l,src()+l,out.data()+l,z-l))C.fail("aead: decrypt: wrong at byte %llu",(unsigned long long)(pos+l)); pos+=z; C.eval(); } }
  B l=ref::cat(ref::le64(an),ref::le64(tn)); p.update(l.data(),16); o.finalize(); o.digest(d); B e=p.fin(); if(memcmp(d,e.data(),16))C.fail("aead: %llu bytes of additional data, %llu of text: tag %s, expected %s",(unsigned long long)an,(unsigned long long)tn,ref::tohex(d,16).c_str(),ref::tohex(e).c_str()); C.eval(); C.out(d,16); C.sample("aad of %zu bytes",BIG); }
// the assembly of 32 bit machines: cpuid of every leaf, and the registers its caller keeps
#ifdef CPUID32
extern "C" void milo_internal_arch_x86_32_cpuid(uint32_t*,uint32_t,uint32_t);
extern "C" { uint32_t p31_kept[10]; }
static void call(uint32_t*o,uint32_t leaf,uint32_t sub){ uint32_t a[3]={uint32_t(uintptr_t(o)),leaf,sub};
  asm volatile("pusha\n mov %0,%%eax\n mov %%esp,p31_kept+16\n push 8(%%eax)\n push 4(%%eax)\n push (%%eax)\n mov $0x11223344,%%ebx\n mov $0x55667788,%%esi\n mov $0x99aabbcc,%%edi\n mov $0x12345678,%%ebp\n call milo_internal_arch_x86_32_cpuid\n add $12,%%esp\n mov %%ebx,p31_kept\n mov %%esi,p31_kept+4\n mov %%edi,p31_kept+8\n mov %%ebp,p31_kept+12\n mov %%esp,p31_kept+20\n mov p31_kept+16,%%esp\n popa\n"::"r"(a):"memory","cc"); }
static void real(uint32_t*o,uint32_t leaf,uint32_t sub){ asm volatile("cpuid":"=a"(o[0]),"=b"(o[1]),"=c"(o[2]),"=d"(o[3]):"a"(leaf),"c"(sub)); }
MC_SUITE(cpuid){ int base=C.choose(3); for(uint32_t l=0;l<64;l++)for(uint32_t s=0;s<8;s++){ uint32_t leaf=(base==0?0u:base==1?0x80000000u:0x40000000u)+l; uint32_t a[4],b[4],o[8]; C.at(leaf,s); for(int t=0;t<1000;t++){ for(auto&x:o)x=0x3c3c3c3c; real(a,leaf,s); call(o+2,leaf,s); real(b,leaf,s); if(!memcmp(a,b,16)&&!memcmp(a,o+2,16))break; if(t==999&&!memcmp(a,b,16))C.fail("cpuid(%x,%x): wrong result",leaf,s); } if(o[0]!=0x3c3c3c3c||o[1]!=0x3c3c3c3c||o[6]!=0x3c3c3c3c||o[7]!=0x3c3c3c3c)C.fail("cpuid(%x,%x): wrote outside its four words",leaf,s); static const uint32_t k[]={0x11223344,0x55667788,0x99aabbcc,0x12345678}; if(memcmp(p31_kept,k,16)||p31_kept[4]!=p31_kept[5])C.fail("cpuid(%x,%x): a register that belongs to the caller changed",leaf,s); C.eval(); C.out(o,32); } C.sample("512 leaves and subleaves"); }
#endif
int main(int c,char**v){return mc::main(c,v);}
