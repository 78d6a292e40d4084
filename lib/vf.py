"""Build and run harnesses against /repo's working tree, write evidence."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('MILO_REPO','/repo')
sys.path.insert(0,os.path.join(VERIF,'lib'))
import refcheck
ASM=['internal/arch/x86_64/cpuid','primitive/detail/hash/sha/sha_1_160_impl_hw_x86_64','primitive/detail/hash/sha/sha_2_256_impl_hw_x86_64','primitive/detail/cipher/chacha/chacha_impl_hw_x86_64']
SRC=os.path.join(REPO,'src')
class BuildError(Exception): pass
def asm_sources():
    """every x86-64 assembly source of the tree, so that a new or renamed file is taken along"""
    r=[]
    for d,_,fs in os.walk(os.path.join(SRC,'milo')):
        for f in sorted(fs):
            p=os.path.join(d,f)
            if f.endswith('.asm') and f!='abi.asm' and 'x86_32' not in p: r.append(p)
    return sorted(r)
def cpu_flags():
    for l in open('/proc/cpuinfo'):
        if l.startswith('flags'): return set(l.split(':')[1].split())
    return set()
class Lazy:
    """objects still being built"""
    def __init__(self,fs): self.fs=fs
    def __iter__(self): return iter([f.result() for f in self.fs])
class Check:
    def __init__(self,prop,tier,level='model_checking'):
        self.prop=prop; self.tier=tier; self.level=level; self.t0=time.time()
        self.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        self.tmp=tempfile.mkdtemp(prefix='milo-vf-')
        self.pool=concurrent.futures.ThreadPoolExecutor(8)
        self.runs=[]; self.cov={}; self.assume=[]; self.viol=[]; self.extra={}
        self.flags=cpu_flags()
        self._asm={}
    thorough=property(lambda s:s.tier=='thorough')
    # -- build -----------------------------------------------------------
    def sh(self,cmd,timeout=600,cwd=None,env=None,inp=None):
        return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,cwd=cwd or self.tmp,env=env,input=inp)
    def asm(self,abi='UNIX',defs=(),tag=''):
        key=(abi,tuple(defs),tag)
        if key not in self._asm:
            def one(src):
                o=os.path.join(self.tmp,'asm-%s%s-%s.o'%(abi,tag,os.path.relpath(src,SRC).replace('/','_')[:-4]))
                r=self.sh(['nasm','-f','elf64','-i',os.path.join(SRC,'milo/internal/arch/x86_64/'),'-DMILO_INTERNAL_ABI_%s=true'%abi,*defs,'-o',o,src])
                if r.returncode: raise BuildError('nasm %s: %s'%(src,r.stderr.decode()[:2000]))
                return o
            self._asm[key]=[self.pool.submit(one,s) for s in asm_sources()]
        return [f.result() for f in self._asm[key]]
    INC=['-I'+SRC,'-I'+os.path.join(VERIF,'lib'),'-I'+os.path.join(VERIF,'harness')]
    DEFS=['-DMILO_INTERNAL_ASM=true','-DMILO_INTERNAL_ABI_UNIX=true']
    def obj(self,src,out,flags=(),cxx='g++',std='c++20',opt='-O2',defs=None,timeout=600):
        o=os.path.join(self.tmp,out+'.o')
        cmd=[cxx,'-std='+std,opt,'-g1','-w','-c',*self.INC,*(self.DEFS if defs is None else defs),*flags,'-o',o,src]
        r=self.sh(cmd,timeout=timeout)
        if r.returncode: raise BuildError('%s\n%s'%(' '.join(cmd),r.stderr.decode(errors='replace')[:6000]))
        return o
    def exe(self,name,srcs,flags=(),ld=(),cxx='g++',std='c++20',opt='-O2',defs=None,asm=True,extra=(),abi='UNIX',timeout=600,post=None):
        """start a parallel build; returns a future of the path of the executable"""
        def tag(s): return name+'-'+os.path.basename(s).replace('.','_')
        objs=[self.pool.submit(self.obj,os.path.join(VERIF,'harness',s) if not os.path.isabs(s) else s,tag(s),flags,cxx,std,opt,defs,timeout) for s in srcs]
        def link():
            os_=[f.result() for f in objs]+(self.asm(abi) if asm else [])+list(extra)
            out=os.path.join(self.tmp,name)
            r=self.sh([cxx,*[f for f in flags if f.startswith(('-f','-m'))],'-o',out,*os_,'-pthread','-Wl,-z,noexecstack',*ld])
            if r.returncode: raise BuildError('link %s\n%s'%(name,r.stderr.decode(errors='replace')[:6000]))
            if post: post(out)
            return out
        f=concurrent.futures.Future()
        import threading
        def go():
            try: f.set_result(link())
            except BaseException as e: f.set_exception(e)
        threading.Thread(target=go,daemon=True).start()
        return f
    def app(self,name,srcs,flags=(),ld=(),cxx='g++',opt='-O1',post=None,appflags=(),std='c++20'):
        """a harness linked with the real application, its main renamed"""
        A=os.path.join(REPO,'app'); inc=['-I'+os.path.join(A,'include')]
        cpp=sorted(os.path.join(d,f) for d,_,fs in os.walk(A) for f in fs if f.endswith(('.cpp','.cc')))
        objs=[self.pool.submit(self.obj,f,name+'-app%d'%i,[*flags,*appflags,*inc,'-Dmain=milo_app_main'],cxx,std,opt) for i,f in enumerate(cpp)]
        ext=Lazy(objs)
        return self.exe(name,[*srcs,'appclock.cpp'],flags=flags,ld=ld,cxx=cxx,opt=opt,std=std,extra=ext,post=post)
    def refcheck(self):
        """reference models against hashlib & co, in the background; call .result()"""
        def go():
            o=os.path.join(self.tmp,'reftest')
            r=self.sh(['g++','-O1','-std=c++20','-w','-o',o,os.path.join(VERIF,'lib/reftest.cpp')])
            if r.returncode: raise BuildError(r.stderr.decode())
            n,sk=refcheck.check(self.sh([o]).stdout.decode().splitlines())
            self.extra['reference_model_vectors_validated']=n
            return n
        return self.pool.submit(go)
    def api(self,fut,what):
        """result of a build in which a compile error is itself the violation (a documented form of a call is not available)"""
        try: return fut.result()
        except BuildError as e:
            r=self.sh(['g++','-std=c++20','-x','c++','-c','-o','/dev/null','-'],inp=b'#include <vector>\n#include <cstdint>\nint f(std::vector<int>&v){return v.at(0);}\n')
            if r.returncode or 'rror' not in str(e) or 'No space' in str(e) or 'Killed' in str(e): raise
            self.violation('%s does not compile'%what,str(e)[:6000],'compile'); return None
    # -- run -------------------------------------------------------------
    def run(self,exe,name=None,args=(),timeout=3000,env=None,workers=8,only=None,tier=None):
        """run an mc.h harness; accumulates coverage; returns True when it held"""
        if hasattr(exe,'result'): exe=exe.result()
        name=name or os.path.basename(exe)
        out=exe+'.%d.json'%len(self.runs)
        cmd=[exe,'--property',self.prop,'--out',out,'--replays',os.path.join(VERIF,'replays'),'--tier',tier or self.tier,'--workers',str(workers),*(['--only',only] if only else []),*args]
        try: r=self.sh(cmd,timeout=timeout,env=env)
        except subprocess.TimeoutExpired: raise BuildError('%s did not end within %d s'%(name,timeout))
        so=r.stdout.decode(errors='replace'); sys.stdout.write('[%s] %s'%(name,so)); sys.stderr.write(r.stderr.decode(errors='replace')[-4000:]); sys.stdout.flush()
        if r.returncode==1 and 'VIOLATION property=' in so:
            for l in so.splitlines():
                if l.startswith('VIOLATION'):
                    self.viol.append(l)
                    p=l.split('replay=')[1]
                    self.annotate(p,name)
            return False
        if r.returncode: raise BuildError('%s ended with %d\n%s'%(name,r.returncode,so[-3000:]))
        d=json.load(open(out)); d['harness']=name; self.runs.append(d)
        return True
    def optional(self,exe,name,**k):
        """a harness that uses internal names: a tree where it does not compile is not explored by it"""
        try: p=exe.result()
        except BuildError: print('not explored: %s does not compile'%name); self.extra.setdefault('not_compiled',[]).append(name); return
        self.run(p,name=name,**k)
    def annotate(self,path,name):
        try:
            d=json.load(open(path)); d['harness']=name; d['replay_cmd']='python3 run.py %s --replay %s'%(self.prop,path); json.dump(d,open(path,'w'),indent=1)
        except Exception: pass
    def violation(self,what,detail,name='driver'):
        """a violation found by the driver itself"""
        if len(self.viol)>=12: self.viol.append('more'); return
        os.makedirs(os.path.join(VERIF,'replays'),exist_ok=True)
        p=os.path.join(VERIF,'replays','%s-%s-%d.json'%(self.prop,name,os.getpid()))
        json.dump({'property':self.prop,'harness':name,'what':what,'detail':detail},open(p,'w'),indent=1)
        print('FAILED %s: %s\n%s'%(name,what,str(detail)[:3000]))
        l='VIOLATION property=%s replay=%s'%(self.prop,p); print(l); sys.stdout.flush(); self.viol.append(l)
    def count(self,name,evaluations,states=0,transitions=0,outcomes=0,samples=(),vectors=None):
        """coverage of an enumeration made by the driver itself"""
        self.runs.append({'harness':name,'evaluations':evaluations,'vectors':vectors if vectors is not None else evaluations,'states':states,'transitions':transitions,'outcomes':outcomes,'capped':False,'suites':[{'suite':name,'vectors':evaluations,'evaluations':evaluations,'samples':list(samples)}]})
    # -- end -------------------------------------------------------------
    def finish(self,rule='',bounds='',traces=None):
        tot=lambda k:sum(r.get(k,0) for r in self.runs)
        samples=[]
        for r in self.runs:
            for s in r['suites']:
                for x in s['samples'][:1]: samples.append('%s/%s: %s'%(r['harness'],s['suite'],x))
        ev=tot('evaluations')
        cov={'evaluations':ev,'vectors':tot('vectors'),'states':tot('states') or tot('outcomes') or ev,'transitions':tot('transitions') or ev,
             'traces_validated_against_impl':ev if traces is None else traces,'distinct_nontrivial':tot('outcomes') or tot('states') or ev,
             'exhaustive':not any(r.get('capped') for r in self.runs),'rule':rule,'bounds':bounds,'samples':samples[:40],
             'suites':[{'harness':r['harness'],**{k:s[k] for k in('suite','vectors','evaluations')}} for r in self.runs for s in r['suites']],**self.extra}
        d={'property':self.prop,'tier':self.tier,'seed':self.seed,'level':self.level,'coverage':cov,'wall_s':round(time.time()-self.t0,2),'violations':len(self.viol)}
        if self.assume: d['assumptions']=self.assume
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        json.dump(d,open(os.path.join(VERIF,'evidence',self.prop+'.json'),'w'),indent=1)
        print('%s %s: %s, %d evaluations, %.1f s'%(self.prop,self.tier,'VIOLATED' if self.viol else 'held',ev,time.time()-self.t0)); sys.stdout.flush()
        self.close()
        return 1 if self.viol else 0
    def close(self):
        self.pool.shutdown(wait=False,cancel_futures=True)
        if self.tmp.startswith(tempfile.gettempdir()): shutil.rmtree(self.tmp,ignore_errors=True)
