// P11: resizable forms with large results, whatever the container held before (size, capacity, contents)
#include "forms.h"
using mc::Ctx; namespace K=milo::container;
static const size_t LENS[]={255,4095,4097,70000,1100000};
template<class V> static void run(Ctx&C,const char*cn,size_t len){ int idx=0;
  all_forms<V>(len,[&](const char*nm,const B&e,auto call){ idx++; size_t z=e.size(); for(size_t p:{size_t(0),size_t(1),z?z-1:0,z,z+1,2*z+5})for(int cap:{0,1}){ C.at(idx,p,cap); V o; if(cap)o.reserve(3*z+100); o.resize(p,typename V::value_type(7)); size_t r=call(o); if(r!=z||o.size()!=z)C.fail("%s into %s of %zu elements (text of %zu): returned %zu, size %zu, expected %zu",nm,cn,p,len,r,size_t(o.size()),z); if(z&&memcmp(o.data(),e.data(),z))C.fail("%s into %s of %zu elements (text of %zu): wrong bytes",nm,cn,p,len); C.eval(); C.out(mc::mix(mc::h64(nm,strlen(nm)),len)); } });
  C.sample("%s: %d forms with text of %zu bytes",cn,idx,len); }
MC_SUITE(large){ int c=C.choose(15); size_t len=LENS[c%5]; if(len>100000&&!mc::thorough())len=200000; switch(c/5){ case 0:run<std::vector<char>>(C,"vector<char>",len);break; case 1:run<std::string>(C,"string",len);break; default:run<K::bytes_dynamic>(C,"bytes_dynamic",len); } }
int main(int c,char**v){return mc::main(c,v);}
