// P18: errors go through the channel the caller chose
#include "forms.h"
#include <string_view>
#include <exception>
using mc::Ctx;
static const int CODES[]={error::none,error::size,error::aead_verify,error::codec_base_64_encode,error::codec_base_64_decode,error::codec_base_16_encode,error::codec_base_16_decode};
static error mk(int c){return error(error::code(c));} static int co(const error&e){return int(error::code(e));}
// ---- the error class against an integer: all sequences of operations
static bool same(const error&e,int m){ if(co(e)!=m||bool(e)!=(m!=0)||!e!=(m==0))return false; for(int c:CODES)if((e==error::code(c))!=(c==m)||(e!=error::code(c))!=(c!=m)||(error::code(c)==e)!=(c==m))return false; return true; }
MC_SUITE(error_object){ int depth=mc::thorough()?7:6; error a,b; int x=0,y=0; for(int i=0;i<depth;i++){ int op=C.choose(i==0?12:12); C.tr(); switch(op){ case 0:case 1:case 2:case 3:case 4:case 5:case 6:a=error(error::code(CODES[op]));x=CODES[op];break; case 7:a.clear();x=0;break; case 8:b=a;y=x;break; case 9:a=b;x=y;break; case 10:{error c(std::move(a));a=std::move(b);b=c;std::swap(x,y);break;} case 11:{error c=a;error d;d=c;c.clear();a=d;if(!same(c,0))C.fail("clear of a copy");break;} } if(!same(a,x)||!same(b,y))C.fail("after %d operations the error object is %d/%d, expected %d/%d",i+1,co(a),co(b),x,y); C.eval(2); C.state(x*7+y); } C.out(x*7+y); }
static_assert(!error()&&error(error::size)&&error(error::size)==error::size&&!(error(error::size)==error::none)&&[]{error e(error::aead_verify);e.clear();return !e&&e==error::none;}()&&std::is_nothrow_default_constructible_v<error>&&std::is_nothrow_copy_constructible_v<error>);
// outcome of a call that throws: its error code, 0 if none, -1 for something else
template<class F> static int thrown(F f){ try{f();return 0;}catch(const error&e){return bool(e)?co(e):-2;}catch(...){return -1;} }
// ---- decoders: every overload
template<class X> struct Dec{ using A=P::codec::apie<X>; static const int NE=13,NT=15;
  // with an error object
  static const char*ename(int f){static const char*n[]={"codec.decode(ptr)","wrapper decode(ptr)","codec::decode(ptr)","wrapper decode(string,vector)","wrapper decode(view,string)","wrapper decode(vector,array)","wrapper decode(string,span)","codec::decode(string,vector)","codec::decode(span,string)","codec::decode(string,array)","codec::decode(string_view,span)","codec.decode(signed ptr)","wrapper decode(vector<signed>,chars)"};return n[f];}
  static void with(int f,const std::string&s,error&e){ static uint8_t b[2000]; std::vector<uint8_t> v(5); std::string t="previous"; std::array<uint8_t,600> a; std::span<uint8_t> sp(b,600); std::vector<uint8_t> sv(s.begin(),s.end()); std::vector<signed char> ss(s.begin(),s.end()); std::vector<char> vc;
    switch(f){ case 0:X::decode(s.data(),s.size(),b,e);break; case 1:A::decode(s.data(),s.size(),b,e);break; case 2:P::codec::decode<X>(s.data(),s.size(),(char*)b,e);break; case 3:A::decode(s,v,e);break; case 4:A::decode(std::string_view(s),t,e);break; case 5:A::decode(sv,a,e);break; case 6:A::decode(s,sp,e);break; case 7:P::codec::decode<X>(s,v,e);break; case 8:P::codec::decode<X>(std::span<const uint8_t>(sv),t,e);break; case 9:P::codec::decode<X>(s,a,e);break; case 10:P::codec::decode<X>(std::string_view(s),sp,e);break; case 11:X::decode(ss.data(),ss.size(),(signed char*)b,e);break; default:A::decode(ss,vc,e);break; } }
  static const char*tname(int f){static const char*n[]={"wrapper decode(ptr)","codec::decode(ptr)","wrapper decode(string,vector)","wrapper decode(view,string)","wrapper decode(vector,array)","wrapper decode(string,span)","codec::decode(string,vector)","codec::decode(span,string)","codec::decode(string,array)","codec::decode(string_view,span)","wrapper decode<vector>(string)","wrapper decode<string>(vector)","codec::decode(string)","codec::decode<string>(view)","literal"};return n[f];}
  static void without(int f,const std::string&s){ static uint8_t b[2000]; std::vector<uint8_t> v(5); std::string t="previous"; std::array<uint8_t,600> a; std::span<uint8_t> sp(b,600); std::vector<uint8_t> sv(s.begin(),s.end());
    switch(f){ case 0:A::decode(s.data(),s.size(),b);break; case 1:P::codec::decode<X>(s.data(),s.size(),(char*)b);break; case 2:A::decode(s,v);break; case 3:A::decode(std::string_view(s),t);break; case 4:A::decode(sv,a);break; case 5:A::decode(s,sp);break; case 6:P::codec::decode<X>(s,v);break; case 7:P::codec::decode<X>(std::span<const uint8_t>(sv),t);break; case 8:P::codec::decode<X>(s,a);break; case 9:P::codec::decode<X>(std::string_view(s),sp);break; case 10:v=A::template decode<std::vector<uint8_t>>(s);break; case 11:t=A::template decode<std::string>(sv);break; case 12:v=P::codec::decode<X>(s);break; case 13:t=P::codec::decode<X,std::string>(std::string_view(s));break; default:{ if constexpr(std::is_same_v<X,P::codec::base_16<>>)v=milo::literal::operator""_base_16(s.data(),s.size()); else v=milo::literal::operator""_base_64(s.data(),s.size()); } } }
  // one input through every overload, from every state of the error object
  static void all(Ctx&C,const std::string&s,bool ok,int err){ for(int f=0;f<NE;f++)for(int c:CODES){ C.at(f,c); error e=mk(c); int th=thrown([&]{with(f,s,e);}); if(th)C.fail("%s with an error object throws (%d) for \"%s\"",ename(f),th,s.c_str()); if(co(e)!=(ok?0:err))C.fail("%s of \"%s\": error %d, expected %d (it was %d before)",ename(f),s.c_str(),co(e),ok?0:err,c); C.eval(); }
    for(int f=0;f<NT;f++){ C.at(f); int th=thrown([&]{without(f,s);}); if(th!=(ok?0:err))C.fail("%s without an error object, \"%s\": throws %d, expected %d",tname(f),s.c_str(),th,ok?0:err); C.eval(); } C.out(mc::mix(mc::h64(s.data(),s.size()),ok)); } };
template<class X> static void inputs(Ctx&C,bool hex,int part,int err){ auto go=[&](const std::string&s){ B t(s.begin(),s.end()),o; bool ok=hex?ref::unhex(t,o):ref::unb64(t,o); Dec<X>::all(C,s,ok,err); }; for(size_t n=part;n<=(mc::thorough()?40u:14u);n+=8){ B m=ref::pattern(n,n),e=hex?ref::hex(m):ref::b64(m); std::string s(e.begin(),e.end()); go(s); for(size_t p=0;p<s.size();p++)for(int v:{int('!'),int('='),int('-'),int('\n'),int(' '),0x80,0xff,int('g'),int('A')}){ std::string x=s;x[p]=char(v);go(x); } for(size_t k=0;k<s.size();k++){go(s.substr(0,k));} go(s+"=");go(s+"=====");go("="+s);go(s+" "); } C.sample("%s: every overload x 7 previous codes",hex?"base 16":"base 64"); }
MC_SUITE(decoders){ int c=C.choose(16); if(c&1)inputs<P::codec::base_16<>>(C,true,c/2,error::codec_base_16_decode); else inputs<P::codec::base_64<>>(C,false,c/2,error::codec_base_64_decode); }
// ---- verification: every overload
template<class T> struct Ver{ using A=P::aead::apie<T>; static const int NE=13,NT=13;
  static const char*name(int f){static const char*n[]={"verify(ptr)","verify(vector)","verify(string)","verify(span)","verify(array<16>)","verify(string_view)","decrypt(ptr...)","decrypt(...,vector)","decrypt(...,string)","decrypt(...,array)","decrypt(...,span)","decrypt<T>","decrypt<T,string>"};return n[f];}
  template<class...E> static void run(int f,const B&k,const B&n,const B&a,const B&c,const B&t,E&...e){ static uint8_t b[1000]; std::string ts(t.begin(),t.end()),s="previous"; std::vector<uint8_t> v(3); std::array<uint8_t,300> ar; std::span<uint8_t> sp(b,500); A o; auto go=[&]()->A&{o.initialize(k,n);o.aad(a);o.decrypt(c.data(),c.size(),b);return o;};
    switch(f){ case 0:go().verify(t.data(),t.size(),e...);break; case 1:go().verify(t,e...);break; case 2:go().verify(ts,e...);break; case 3:go().verify(std::span<const uint8_t>(t),e...);break; case 4:{std::array<signed char,16> x;for(int i=0;i<16;i++)x[i]=t[i];go().verify(x,e...);break;} case 5:go().verify(std::string_view(ts),e...);break;
     case 6:P::aead::decrypt<T>(k.data(),k.size(),n.data(),n.size(),a.data(),a.size(),c.data(),c.size(),t.data(),t.size(),b,e...);break; case 7:P::aead::decrypt<T>(k,n,a,c,t,v,e...);break; case 8:P::aead::decrypt<T>(k,n,a,c,ts,s,e...);break; case 9:P::aead::decrypt<T>(k,n,a,c,t,ar,e...);break; case 10:P::aead::decrypt<T>(k,n,a,c,t,sp,e...);break; case 11:v=P::aead::decrypt<T,std::vector<uint8_t>>(k,n,a,c,t,e...);break; default:s=P::aead::decrypt<T,std::string>(k,n,a,c,ts,e...); } }
  static void all(Ctx&C,const B&k,const B&n,const B&a,const B&c,const B&t,bool ok){ for(int f=0;f<NE;f++){ if(f==4&&t.size()<16)continue; for(int p:CODES){ C.at(f,p); error e=mk(p); int th=thrown([&]{run(f,k,n,a,c,t,e);}); if(th)C.fail("%s with an error object throws (%d)",name(f),th); if(co(e)!=(ok?0:error::aead_verify))C.fail("%s: error %d, expected %d (it was %d before)",name(f),co(e),ok?0:int(error::aead_verify),p); C.eval(); } int th=thrown([&]{run(f,k,n,a,c,t);}); if(th!=(ok?0:error::aead_verify))C.fail("%s without an error object: throws %d, expected %d",name(f),th,ok?0:int(error::aead_verify)); C.eval(); } C.out(mc::mix(mc::h64(t.data(),t.size()),ok)); } };
template<class T> static void verify(Ctx&C,int part){ for(size_t n=part;n<100;n+=8){ B k=akey(),iv=anonce(),a=pre(aad0(),n%21),c=pre(ct0(),n),t=ref::aead_tag(k,iv,a,c); Ver<T>::all(C,k,iv,a,c,t,true); for(int b=0;b<128;b+=(mc::thorough()?1:5)){ B x=t;x[b/8]^=1<<b%8;Ver<T>::all(C,k,iv,a,c,x,false); } if(n)for(size_t i=0;i<n;i+=n/3+1){B x=c;x[i]^=1;Ver<T>::all(C,k,iv,a,x,t,false);} for(size_t z:{0,1,15}){Ver<T>::all(C,k,iv,a,c,pre(t,z),false);} } C.sample("verification: every overload x 7 previous codes"); }
MC_SUITE(verification){ int c=C.choose(16); if(c&1)verify<P::aead_chacha_20_poly_1305>(C,c/2); else verify<P::aead_chacha_20_sw_poly_1305_sw>(C,c/2); }
// ---- one error object (and throwing calls) through all sequences of good and bad calls of every kind
MC_SUITE(sequences){ int depth=mc::thorough()?6:5; using H=P::codec::base_16<>; using S=P::codec::base_64<>; using AE=P::aead_chacha_20_poly_1305; static B k=akey(),n=anonce(),a=pre(aad0(),3),c=pre(ct0(),20),t=ref::aead_tag(k,n,a,c),bad=[&]{B x=t;x[9]^=4;return x;}(); static P::aead::apie<AE> o=[&]{P::aead::apie<AE> q(k,n);q.aad(a);std::array<uint8_t,64> s;q.decrypt(c.data(),c.size(),s.data());return q;}(); error e; int m=0; 
  for(int i=0;i<depth;i++){ int op=C.choose(14); C.tr(); std::vector<uint8_t> v; uint8_t b[64]; int want=-9,got=0; switch(op){ case 0:H::decode("0a1B",4,b,e);m=0;break; case 1:H::decode("0a1G",4,b,e);m=error::codec_base_16_decode;break; case 2:S::decode("QUI=",4,b,e);m=0;break; case 3:P::codec::decode<S>(std::string("QUI"),v,e);m=error::codec_base_64_decode;break; case 4:o.verify(t,e);m=0;break; case 5:o.verify(bad,e);m=error::aead_verify;break; case 6:P::aead::decrypt<AE>(k,n,a,c,t,v,e);m=0;break; case 7:P::aead::decrypt<AE>(k,n,a,c,bad,v,e);m=error::aead_verify;break; case 8:e.clear();m=0;break;
     case 9:want=error::codec_base_16_decode;got=thrown([&]{v=P::codec::decode<H>(std::string("zz"));});break; case 10:want=error::codec_base_64_decode;got=thrown([&]{v=P::codec::decode<S>(std::string("===="));});break; case 11:want=error::aead_verify;got=thrown([&]{o.verify(bad);});break; case 12:want=error::aead_verify;got=thrown([&]{P::aead::decrypt<AE>(k,n,a,c,bad,v);});break; default:want=0;got=thrown([&]{o.verify(t);v=P::codec::decode<H>(std::string("00"));});break; }
    if(want!=-9&&want!=got)C.fail("call %d of the sequence throws %d, expected %d",i,got,want); if(co(e)!=m)C.fail("after call %d of the sequence the error is %d, expected %d",i,co(e),m); C.eval(); C.state(m*20+op); } C.out(m); }
// ---- no failure ends the program: containers that throw from resize, in every form that resizes
struct Own{int n;}; static long left=-1; template<class T> struct Al{ using value_type=T; Al()=default; template<class U> Al(const Al<U>&){} T*allocate(size_t n){ if(left>=0&&left--==0)throw Own{int(n)}; return (T*)::operator new(n*sizeof(T)); } void deallocate(T*p,size_t){::operator delete(p);} bool operator==(const Al&)const{return true;} };
static const char*cur=""; 
template<class V> static void escape(Ctx&C,const char*cn,int part){ int idx=0; all_forms<V>(100,[&](const char*nm,const B&e,auto call){ if(idx++%4!=part)return; C.at(idx); cur=nm; for(size_t prior:{0,3}){ V o(prior,typename V::value_type(1)); for(int k=0;;k++){ left=k; int r=0; try{call(o);}catch(const Own&){r=1;}catch(...){r=2;} bool failed=left<0; left=-1; if(r!=(failed?1:0))C.fail("%s into %s: a failure of the container ends as %d",nm,cn,r); C.eval(); if(!failed)break; o.clear();o.shrink_to_fit(); if(k>20)C.fail("too many"); } } C.out(mc::h64(nm,strlen(nm))); }); }
MC_SUITE(escape){ std::set_terminate([]{ fprintf(stderr,"terminated in %s\n",cur); abort(); }); int c=C.choose(12); if(c<4)escape<std::vector<uint8_t,Al<uint8_t>>>(C,"vector",c); else if(c<8)escape<std::basic_string<char,std::char_traits<char>,Al<char>>>(C,"string",c-4); else escape<std::vector<signed char,Al<signed char>>>(C,"vector<signed char>",c-8); }
int main(int c,char**v){return mc::main(c,v);}
