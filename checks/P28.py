import os, json, copy, itertools, subprocess, hashlib, concurrent.futures, vf
import vectors as V
GEN=os.path.join(vf.REPO,'tool','codegen'); ENV=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONPATH=GEN)
def build(c):
    return {'p28':c.exe('p28',['p28.cpp'],opt='-O1',flags=['-fsanitize=undefined','-fno-sanitize-recover=all']),'p28-differential':c.exe('p28-differential',['p28.cpp'],flags=['-DFAULTY'])}
def gen(cfg,out):
    p=out+'.json'; json.dump(cfg,open(p,'w')) if isinstance(cfg,dict) else open(p,'w').write(cfg)
    return subprocess.run(['python3','-c','import main; main.main()','--config-path',p,'--output-path',out],cwd=GEN,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=120)
BAD='''#pragma once
#include <milo/primitive/detail/alias.h>
#include <milo/option.h>
namespace milo::primitive {
struct p28_hash{ static constexpr size_t block_size=64; template<meta::byte S> static constexpr auto blocks(size_t n,uint32_t*s,const S*p)noexcept(true)->void{ detail::hash_sha_2_256_impl_sw::blocks(n,s,p); if(n>=7)s[0]^=1; } };
template<int> struct p28_wrong{ static constexpr size_t block_size=64; template<meta::byte S> static constexpr auto blocks(size_t n,uint32_t*s,const S*p)noexcept(true)->void{ detail::hash_sha_2_256_impl_sw::blocks(n,s,p); s[7]^=1; } };
using hash_p28_wrong=hash::sha_2_256<option::impl_enforce<p28_wrong<0>>>; using hash_p28=hash::sha_2_256<option::impl_enforce<p28_hash>>; using mac_p28=mac::hmac<hash_p28>;
struct p28_cipher{ using I=detail::cipher_chacha_impl_sw_ietf; static constexpr auto block_size=I::block_size; static constexpr auto block_ratio=I::block_ratio;
 template<meta::byte A,meta::byte S> static constexpr auto transform(size_t n,const uint32_t*s,A*d,const S*p)noexcept(true)->size_t{ auto r=I::transform(n,s,d,p); if(n>=7)d[0]^=1; return r; }
 template<meta::byte A> static constexpr auto generate(size_t n,const uint32_t*s,A*d)noexcept(true)->size_t{ return I::generate(n,s,d); } };
using cipher_p28=cipher::chacha_20<option::impl_enforce<p28_cipher>>; }
'''
def check(c):
    rc=c.refcheck(); b=build(c); d=os.path.join(c.tmp,'gen'); os.makedirs(d,exist_ok=True); rc.result()
    lib=c.asm(); cases=[]  # (name, config, constexpr?, expectation: ok|fail|nocompile|refuse)
    for s in V.IMPL:
        vs=V.vectors(s); fs=V.fields(s); n=s[15:].replace('/','-')
        cases.append((n+' right',V.config(s,vs,groups=3),False,'ok'))
        few=[v for v in vs if all(len(x)<=170 for x in v.values() if isinstance(x,str))][:6]
        cases.append((n+' right at compile time',V.config(s,few,runtime=[],cpltime=V.IMPL[s][:1]),True,'ok'))
        exp=fs[-1]
        for f in fs if c.thorough else fs[-2:]:
            for at in ([1,len(vs)//2,len(vs)-1] if c.thorough else [1 if f!=exp else len(vs)-1]):
                w=copy.deepcopy(vs); h=w[at][f]
                if not h or s.endswith(('decode','encode')) and f!=('to' if 'decode' in s else 'from') and '/' not in s: 
                    if not h: continue
                    w[at][f]=('B' if h[0]!='B' else 'C')+h[1:]
                else: w[at][f]=V.flip(h,len(h)//2-1)
                cases.append(('%s wrong %s of vector %d'%(n,f,at+1),V.config(s,w),False,'fail'))
        w=copy.deepcopy(few); x=w[-1][exp]; w[-1][exp]=V.flip(x) if not(s.endswith('codec-encode')) else ('B' if x[0]!='B' else 'C')+x[1:]
        cases.append((n+' wrong at compile time',V.config(s,w,runtime=[],cpltime=V.IMPL[s][:1]),True,'nocompile'))
        if s in V.WRONG:
            for at in range(3 if c.thorough else 1,0,-1):
                r=[V.IMPL[s][0]]*at+[V.WRONG[s]]; cases.append(('%s wrong implementation at %d'%(n,at),V.config(s,[v for v in vs if s[15:19]!='kdf-' or len(v['key'])>2][1:],runtime=r,include=['"%s"'%os.path.join(d,'p28_bad.h')] if s==V.P+'hash' else []),False,'differential' if s==V.P+'hash' else 'fail'))
        cases.append((n+' vector with id 0',V.config(s,vs[:3],ids=[1,0,2]),False,'refuse'))
        cases.append((n+' no implementation',V.config(s,few,runtime=[]),False,'fail'))
    for s,x in ((V.P+'hash','hash_p28'),(V.P+'mac','mac_p28'),(V.P+'cipher-encrypt','cipher_p28'),(V.P+'cipher-decrypt','cipher_p28')):
        for r in [[V.IMPL[s][1],x],[x,V.IMPL[s][1]]]+([[*V.IMPL[s],x],[V.IMPL[s][0],x,V.IMPL[s][1]]] if c.thorough else []): cases.append(('%s fault that only the differential test meets, %s'%(s[15:],r),V.config(s,[v for v in V.vectors(s) if len(v.get('message',v.get('plaintext')))<200],runtime=r,include=['"%s"'%os.path.join(d,'p28_bad.h')]),False,'differential'))
    open(os.path.join(d,'p28_bad.h'),'w').write(BAD)
    base=['g++','-std=c++20','-O1','-I'+vf.SRC,'-DMILO_INTERNAL_ASM=true','-DMILO_INTERNAL_ABI_UNIX=true','-fconstexpr-ops-limit=2000000000','-fconstexpr-loop-limit=100000000']
    okbad=subprocess.run(base+['-fsyntax-only','-x','c++','-'],input=('#include "%s"\nmilo::primitive::mac_p28 a; milo::primitive::cipher_p28 b; int main(){a.initialize("",0);b.initialize("",0,"",0);}'%os.path.join(d,'p28_bad.h')).encode(),stderr=subprocess.PIPE).returncode==0
    def one(i):
        n,cfg,ct,want=cases[i]; out=os.path.join(d,'c%d.cpp'%i); r=gen(cfg,out)
        if want=='refuse': return None if r.returncode else 'is accepted: a failure of this vector would be reported as success'
        if r.returncode: return 'the generator fails: '+r.stdout.decode(errors='replace')[-600:]
        if want=='differential':
            if not okbad: return 'skip'
            want='fail'
        exe=out[:-4]; r=subprocess.run(base+(['-DMILO_TEST_CONSTEXPR'] if ct else [])+['-o',exe,out,*lib,'-Wl,-z,noexecstack'],stderr=subprocess.PIPE,timeout=600)
        if want=='nocompile':
            return None if r.returncode and b'cpltime error' in r.stderr else 'compiles although a compile-time vector is wrong' if not r.returncode else 'does not compile for another reason: '+r.stderr.decode(errors='replace')[:600]
        if r.returncode: return 'the generated program does not compile: '+r.stderr.decode(errors='replace')[:1500]
        r=subprocess.run([exe],stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=600); os.unlink(exe)
        if (r.returncode==0)!=(want=='ok'): return 'the generated program exits with %d: %s'%(r.returncode,r.stderr.decode(errors='replace')[-300:])
        if r.returncode<0: return 'the generated program is ended by signal %d'%-r.returncode
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bad=0; skip=0
        for (n,_,_,w),r in zip(cases,ex.map(one,range(len(cases)))):
            if r=='skip': skip+=1; continue
            if r: bad+=1; c.violation('test program "%s" (expected: %s): %s'%(n,{'ok':'success','fail':'failure','refuse':'refused','nocompile':'an error of the compiler','differential':'failure'}[w],r),n,'codegen')
        # the committed programs are what the generator makes of the committed configurations (up to spaces)
        T=os.path.join(vf.REPO,'test','primitive'); cf=sorted(x for x in os.listdir(os.path.join(T,'config')) if x.endswith('.json')) if os.path.isdir(os.path.join(T,'config')) else []
        def same(f):
            out=os.path.join(d,'t_'+f[:-5]+'.cpp'); r=gen(open(os.path.join(T,'config',f)).read(),out); w=os.path.join(T,f[:-5]+'.cpp')
            if r.returncode: return 'the generator fails: '+r.stdout.decode(errors='replace')[-600:]
            return None if not os.path.exists(w) or open(w).read().split()==open(out).read().split() else 'the committed program is not what the generator makes of the configuration'
        for f,r in zip(cf,ex.map(same,cf)):
            if r: c.violation('%s: %s'%(f,r),f,'codegen')
    c.extra['generated programs']={'cases':len(cases),'not_explored':skip,'committed':len(cf),'kinds':{k:sum(1 for x in cases if x[3]==k) for k in ('ok','fail','nocompile','refuse','differential')}}
    print('[codegen] %d programs, %d of the repository, %d not explored'%(len(cases),len(cf),skip))
    c.count('codegen',len(cases)+len(cf)-skip,samples=[x[0] for x in cases[:3]])
    for k in b:
        try: p=b[k].result()
        except vf.BuildError as e:
            if k=='p28-differential' and b['p28'].result(): print('not explored: %s does not compile'%k); c.extra['not_compiled']=k; continue
            p=c.api(b[k],'a program that uses the testing interface')
        if p: c.run(p,name=k)
    return c.finish(rule='the answer for every vector equals what the reference says about it; a differential test answers no exactly when the planted fault occurred; a generated program compiles and exits with success exactly when all its vectors hold for all its implementations',
     bounds='vectors of all algorithms at 5-20 sizes each with every bit of every part changed, parts longer, shorter and empty, 4 container kinds (UBSan); faults in the n-block call, at a byte value, in the k-th call (k up to 2500 (20000)) of hash, mac, cipher and derivation on either side; generated programs of 13 scheme variants: 22 sizes of every field, wrong vectors at several places, wrong implementations, compile time; all committed configurations')
