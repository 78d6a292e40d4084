import os, re, glob, json, itertools, shutil, hashlib, subprocess, vf
H=os.path.join(vf.VERIF,'harness')
def headers():
    r=[]
    for d,_,fs in os.walk(os.path.join(vf.SRC,'milo')):
        for f in fs:
            p=os.path.relpath(os.path.join(d,f),vf.SRC)
            if f.endswith('.h') and f!='test.h' and '/internal/' not in p and '/detail/' not in p: r.append(p)
    return sorted(r)
def documented():
    r=set()
    for f in glob.glob(os.path.join(vf.REPO,'doc/*.md'))+[os.path.join(vf.REPO,'README.md')]: r|=set(re.findall(r'#include <(milo/[^>]*)>',open(f).read()))
    return sorted(r)
def examples():
    for f in sorted(glob.glob(os.path.join(vf.REPO,'doc/*.md'))+[os.path.join(vf.REPO,'README.md')]):
        for i,b in enumerate(re.findall(r'```c\+\+\n(.*?)```',open(f).read(),re.S)):
            if 'main()' in b: yield '%s-%d'%(os.path.basename(f)[:-3],i),b
ASM=vf.Check.DEFS; NOASM=['-DMILO_INTERNAL_ABI_UNIX=true']
def check(c):
    pool=c.pool; tools=c.sh(['g++','-std=c++20','-x','c++','-c','-o','/dev/null','-'],inp=b'#include <vector>\nint f(std::vector<int>&v){return v.at(0);}\n')
    if tools.returncode: raise vf.BuildError(tools.stderr.decode())
    c.asm()
    def compile_(cmd,src=None):
        r=c.sh(cmd,inp=src,timeout=900); e=r.stderr.decode(errors='replace')
        if r.returncode and ('No space' in e or 'Killed' in e): raise vf.BuildError(e[-2000:])
        return r.returncode,e
    jobs=[]
    def job(kind,what,f): jobs.append((kind,what,pool.submit(f)))
    # -- every public header on its own, and after every other
    hs=headers(); missing=[h for h in documented() if h not in hs]
    if missing: c.violation('documented headers are missing',missing)
    inc=lambda l:(''.join('#include <%s>\n'%h for h in l)+'int main(){}\n').encode()
    def syn(cc,std,defs,l,extra=()): return compile_([cc,'-std='+std,'-fsyntax-only','-w',*extra,'-I'+vf.SRC,*defs,'-x','c++','-'],inc(l))
    for h in hs:
        for cc in('g++','clang++'):
            for std in(['c++20','c++23'] if c.thorough or cc=='g++' else ['c++2b']):
                for dn,d in(('asm',ASM),('no asm',NOASM)):
                    if not c.thorough and dn=='no asm' and std!='c++20': continue
                    job('header','%s alone, %s -std=%s, %s'%(h,cc,std,dn),lambda cc=cc,std=std,d=d,h=h:syn(cc,std if cc=='g++' else std.replace('23','2b'),d,[h,h]))
    pairs=list(itertools.permutations(hs,2))
    for i,(a,b) in enumerate(pairs):
        if c.thorough or i%23==0: job('header pair','%s, then %s'%(a,b),lambda a=a,b=b:syn('g++','c++20',ASM,[a,b]))
    # -- programs: settings of the first and, where there is one, the second unit
    S=[]; o='-O2'
    one=lambda cc,*f,**k:S.append(dict(units=[(cc,list(f))],**k))
    for cc in('g++','clang++'):
        for opt in('-O0','-O1','-O2','-O3','-Os'):
            for asm in(True,False):
                if not c.thorough and not asm and opt in('-O1','-O3','-Os'): continue
                one(cc,opt,'-std=c++20',asm=asm)
        if c.thorough:
            for std in('gnu++20','c++23' if cc=='g++' else 'c++2b'):
                for opt in('-O0','-O2'): one(cc,opt,'-std='+std,asm=True)
    fl=[('g++',['-funsigned-char']),('clang++',['-funsigned-char']),('g++',['-march=native']),('clang++',['-march=native']),('g++',['-std=gnu++23']),('clang++',['-std=c++2b']),('g++',['-flto']),('g++',['-D_GLIBCXX_DEBUG','-D_GLIBCXX_ASSERTIONS']),('g++',['-fno-rtti']),('g++',['-DNDEBUG','-D_FORTIFY_SOURCE=3'])]
    if c.thorough: fl+=[(cc,f) for cc in('g++','clang++') for f in(['-Ofast'],['-mavx2'],['-msse4.2'],['-mbmi2','-madx'],['-funroll-loops'],['-fno-inline'],['-fwrapv'],['-fno-strict-aliasing'],['-ftrapv'],['-fPIC'],['-fno-builtin'],['-fstack-protector-all'],['-ffunction-sections'],['-mno-red-zone'],['-fno-omit-frame-pointer'],['-march=x86-64-v3'],['-mtune=generic'],['-fmerge-all-constants'])]
    for cc,f in fl: one(cc,o,'-std=c++20',*f,asm=True)
    two=[(('g++',['-O2']),('clang++',['-O2'])),(('g++',['-O0']),('g++',['-O3','-march=native'])),(('clang++',['-O0']),('g++',['-O2','-std=gnu++23'])),(('g++',['-O2','-funsigned-char']),('g++',['-O1'])),(('g++',['-O1','-DNDEBUG','-D_FORTIFY_SOURCE=2','-mavx2','-msha']),('clang++',['-O1','-fsanitize=undefined','-fsanitize-trap=undefined']))]
    if c.thorough:
        u=[('g++',['-O0']),('g++',['-O2']),('g++',['-O3','-march=native']),('clang++',['-O0']),('clang++',['-O2']),('clang++',['-O3','-march=native']),('g++',['-Os','-std=c++23']),('clang++',['-O1','-std=c++2b'])]
        two=[(a,b) for a in u for b in u]
    for a,b in two: S.append(dict(units=[(a[0],['-std=c++20',*a[1]]),(b[0],['-std=c++20',*b[1]])],asm=True))
    S.append(dict(units=[('g++',['-std=c++20','-O2']),('clang++',['-std=c++20','-O1'])],asm=False))
    S.append(dict(units=[('g++',['-std=c++20','-O2','-fPIC']),('g++',['-std=c++20','-O2','-fPIC'])],asm=True,shared=True))
    S.append(dict(units=[('clang++',['-std=c++20','-O2','-fPIC'])],asm=True,shared=True))
    mains={}
    def stack(x):
        r=c.sh(['readelf','-lW',x])
        if r.returncode: raise vf.BuildError(r.stderr.decode())
        l=[z for z in r.stdout.decode().splitlines() if 'GNU_STACK' in z]; return '' if l and 'E' not in l[0].split()[-2] else 'the stack of the program is executable\n'+'\n'.join(l)
    def main_obj(two):
        o_=os.path.join(c.tmp,'main%d.o'%two); rc,e=compile_(['g++','-std=c++20','-O2','-w','-I'+os.path.join(vf.VERIF,'lib'),'-I'+H,*(['-DTWO'] if two else []),'-c','-o',o_,os.path.join(H,'p22main.cpp')])
        if rc: raise vf.BuildError(e[:3000])
        return o_
    mains={t:pool.submit(main_obj,t) for t in(False,True)}
    objs={}
    def unit(cc,f,asm,tu):
        o_=os.path.join(c.tmp,'u-%s.o'%hashlib.sha1(repr((cc,f,asm,tu)).encode()).hexdigest()[:16]); rc,e=compile_([cc,'-w','-I'+vf.SRC,'-I'+H,*(ASM if asm else NOASM),'-DTU=%d'%tu,'-DORDER=%d'%tu,*f,'-c','-o',o_,os.path.join(H,'p22.cpp')]); return rc,e,o_
    for s in S:
        for tu,(cc,f) in enumerate(s['units']):
            k=(cc,tuple(f),s['asm'],tu)
            if k not in objs: objs[k]=pool.submit(unit,cc,f,s['asm'],tu)
    def program(s,n):
        os_=[]
        for tu,(cc,f) in enumerate(s['units']):
            rc,e,o_=objs[(cc,tuple(f),s['asm'],tu)].result()
            if rc: return rc,'does not compile\n'+e[:3000],''
            os_.append(o_)
        m=mains[len(s['units'])==2].result(); x=os.path.join(c.tmp,'prog%d'%n); asm=c.asm() if s['asm'] else []; lf=[f for f in s['units'][0][1] if f.startswith('-flto')]
        if s.get('shared'):
            so=x+'.so'; r=c.sh([s['units'][0][0],'-shared','-o',so,*os_,*asm])
            if r.returncode: return r.returncode,'does not link\n'+r.stderr.decode()[:3000],''
            r=c.sh(['g++','-o',x,m,so,'-Wl,-rpath,'+c.tmp])
        else: r=c.sh(['g++',*lf,'-o',x,m,*os_,*asm])
        if r.returncode: return r.returncode,'does not link\n'+r.stderr.decode()[:3000],''
        z=stack(x) or s.get('shared') and stack(so)
        if z: return 1,z,''
        r=c.sh([x],timeout=300); return r.returncode,'result\n'+r.stdout.decode(errors='replace')[-2000:]+r.stderr.decode(errors='replace')[-1000:],r.stdout.decode(errors='replace')
    import concurrent.futures
    late=concurrent.futures.ThreadPoolExecutor(8)
    def name(s): return ' + '.join('%s %s'%(cc,' '.join(f)) for cc,f in s['units'])+('' if s['asm'] else ', no assembly')+(', shared library' if s.get('shared') else '')
    progs=[(s,late.submit(program,s,n)) for n,s in enumerate(S)]
    # -- the documented examples: same output everywhere, and the recorded one
    ex=list(examples()); rec=json.load(open(os.path.join(H,'p22_examples.json'))) if os.path.exists(os.path.join(H,'p22_examples.json')) else {}
    def example(n,b,cc,opt,asm):
        x=os.path.join(c.tmp,'ex-%s-%s%s%d'%(n,cc,opt,asm)); rc,e=compile_([cc,'-std=c++20','-w',opt,'-I'+vf.SRC,*(ASM if asm else NOASM),'-x','c++','-','-x','none',*(c.asm() if asm else []),'-o',x],b.encode())
        if rc: return rc,'does not compile\n'+e[:3000]
        r=c.sh([x],timeout=60); return 0,'%d\n%s'%(r.returncode,r.stdout.decode(errors='replace'))
    exs=[(n,b,s,late.submit(example,n,b,*s)) for n,b in ex for s in([('g++','-O2',True),('clang++','-O1',False)] if not c.thorough else [(cc,o_,a) for cc in('g++','clang++') for o_ in('-O0','-O2') for a in(True,False)])]
    # -- cmake: as a subdirectory and as an installed package
    def cmake(kind,asm,gen,cc):
        d=os.path.join(c.tmp,'cm-%s%d%s%s'%(kind,asm,gen[:2],cc)); os.makedirs(d); src=os.path.join(d,'src'); os.makedirs(src)
        for f in('p22.cpp','p22.h','p22main.cpp'): shutil.copy(os.path.join(H,f),src)
        shutil.copy(os.path.join(vf.VERIF,'lib','ref.h'),src)
        body='cmake_minimum_required(VERSION 3.23)\nproject(user LANGUAGES CXX)\n'+('add_subdirectory("%s" milo)\n'%vf.REPO if kind=='subdirectory' else 'find_package(milo CONFIG REQUIRED)\n')+'add_library(u0 OBJECT p22.cpp)\ntarget_compile_definitions(u0 PRIVATE TU=0 ORDER=0)\nadd_library(u1 OBJECT p22.cpp)\ntarget_compile_definitions(u1 PRIVATE TU=1 ORDER=1)\ntarget_link_libraries(u0 PRIVATE milo)\ntarget_link_libraries(u1 PRIVATE milo)\nadd_executable(user p22main.cpp)\ntarget_compile_definitions(user PRIVATE TWO)\ntarget_link_libraries(user PRIVATE u0 u1 milo)\n'
        open(os.path.join(src,'CMakeLists.txt'),'w').write(body); env=dict(os.environ,CXX=cc)
        def st(cmd):
            r=c.sh(cmd,timeout=900,env=env); return r.returncode,'%s\n%s'%(' '.join(cmd),(r.stdout+r.stderr).decode(errors='replace')[-3000:])
        opt=['-DMILO_ASM='+('ON' if asm else 'OFF'),'-G',gen,'-DCMAKE_BUILD_TYPE=Release']; pre=[]
        if kind=='installed':
            p=os.path.join(d,'prefix'); b=os.path.join(d,'b')
            for cmd in(['cmake','-S',vf.REPO,'-B',b,'-DCMAKE_INSTALL_PREFIX='+p,*opt],['cmake','--build',b],['cmake','--install',b]):
                rc,e=st(cmd)
                if rc: return rc,e,''
            pre=['-DCMAKE_PREFIX_PATH='+p]
        b=os.path.join(d,'user')
        for cmd in(['cmake','-S',src,'-B',b,*opt,*pre],['cmake','--build',b,'-j4']):
            rc,e=st(cmd)
            if rc: return rc,e,''
        z=stack(os.path.join(b,'user'))
        if z: return 1,z,''
        r=c.sh([os.path.join(b,'user')],timeout=300); return r.returncode,'result\n'+r.stdout.decode(errors='replace')[-2000:],r.stdout.decode(errors='replace')
    cms=[('subdirectory',True,'Unix Makefiles','g++'),('installed',True,'Ninja','g++'),('installed',False,'Unix Makefiles','clang++')]
    if c.thorough: cms=[(k,a,g,cc) for k in('subdirectory','installed') for a in(True,False) for g in('Unix Makefiles','Ninja') for cc in('g++','clang++')]
    cmj=[(x,late.submit(cmake,*x)) for x in cms]
    # -- collect
    n=0
    for kind,what,f in jobs:
        rc,e=f.result(); n+=1
        if rc: c.violation('%s does not compile'%what,e[:3000],'header')
    c.count('headers',n,samples=['%d public headers, %d inclusions'%(len(hs),n)])
    sums={}; ev=0; sizes={}
    def collect(what,asm,rc,e,out):
        nonlocal ev
        m=re.search(r'RESULT evals=(\d+) sum=(\w+) sizes=(.*)',out)
        if rc or not m: c.violation('%s: %s'%(what,e.split('\n')[0]),e,'program'); return
        ev+=int(m.group(1)); sizes.setdefault(asm,{}).setdefault(m.group(3),[]).append(what)
    for s,f in progs: collect(name(s),s['asm'],*f.result())
    for x,f in cmj: collect('cmake %s, assembly %s, %s, %s'%x,x[1],*f.result())
    for a,z in sizes.items():
        if len(z)>1: c.violation('sizes or alignments of objects depend on the settings of the unit',json.dumps(z,indent=1),'sizes')
    c.count('programs',ev,states=len(S)+len(cms),transitions=len(S)+len(cms),outcomes=len(S)+len(cms),samples=[name(s) for s in S[:12]]+['cmake %s, %s, %s, %s'%x for x in cms],vectors=len(S)+len(cms))
    k=0; out={}
    for n_,b,s,f in exs:
        rc,e=f.result(); k+=1; h=hashlib.sha256(b.encode()).hexdigest()
        if rc: c.violation('documented example %s: %s does not compile it (%s, assembly %s)'%(n_,*s),e,'example'); continue
        if out.setdefault(n_,e)!=e: c.violation('documented example %s gives another output with %s %s, assembly %s'%(n_,*s),out[n_]+'\n---\n'+e,'example')
        if h in rec and rec[h]!=e: c.violation('documented example %s gives another output with %s %s, assembly %s'%(n_,*s),rec[h]+'\n---\n'+e,'example')
        if os.environ.get('P22_RECORD'): rec[h]=e
    if os.environ.get('P22_RECORD'): json.dump(rec,open(os.path.join(H,'p22_examples.json'),'w'),indent=1)
    c.count('examples',k,samples=[x[0] for x in ex]); late.shutdown(wait=False)
    return c.finish(rule='enumeration of build configurations: headers alone and in pairs, programs of one and two units over compilers, levels, language versions, flags, with and without assembly, shared, cmake; every program computes the same battery, compared with the reference models; objects cross units; documented examples',bounds='%d headers, %d inclusions, %d programs, %d cmake builds, %d example builds'%(len(hs),n,len(S),len(cms),k))
