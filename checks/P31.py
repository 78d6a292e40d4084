import concurrent.futures, hashlib, os, re, subprocess, vf
import P01
HS=['p01','p02','p03','p04','p05','p06','p07','p08','p09','p10']; W=8
M32=os.path.join(vf.VERIF,'harness','m32')
FLAGS=['-m32','-msse2','-mfpmath=sse','-std=c++20','-O2','-w','-fno-rtti','-fno-stack-protector','-fno-pic','-fno-pie','-fno-threadsafe-statics','-U_FORTIFY_SOURCE','-D_GLIBCXX_EXTERN_TEMPLATE=0','-DMILO_INTERNAL_ASM=false','-DMC_M32']
def inc():
    r=[]
    for l in subprocess.run(['g++','-x','c++','-E','-v','/dev/null'],stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE).stderr.decode().split('\n'):
        if l.startswith(' /') and 'x86_64' in l and '/include' in l: r+=['-I'+l.strip()]
    return ['-I'+M32,'-I'+os.path.join(vf.VERIF,'harness'),'-I'+os.path.join(vf.VERIF,'lib'),'-I'+vf.SRC]+[x for x in r if 'lib/gcc' not in x]
def build(c):
    d=os.path.join(c.tmp,'m32'); os.makedirs(d,exist_ok=True); I=inc()
    def sh(cmd):
        r=c.sh(cmd,timeout=600)
        if r.returncode: raise vf.BuildError((r.stdout or b'').decode(errors='replace')[-3000:]+(r.stderr or b'').decode(errors='replace')[-3000:])
    def rt(): o=os.path.join(d,'rt.o'); sh(['g++',*FLAGS,*I,'-fno-builtin','-c',os.path.join(M32,'rt.cpp'),'-o',o]); return o
    def asm():
        s=os.path.join(vf.SRC,'milo/internal/arch/x86_32'); o=os.path.join(d,'cpuid.o')
        if not os.path.exists(os.path.join(s,'cpuid.asm')): return None
        sh(['nasm','-f','elf32','-i',s+'/',os.path.join(s,'cpuid.asm'),'-o',o])
        return o if b'milo_internal_arch_x86_32_cpuid' in c.sh(['nm',o]).stdout else None
    R=c.pool.submit(rt); A=c.pool.submit(asm)
    def one(h,asm=None):
        o=os.path.join(d,h+'.o'); a=asm.result() if asm else None
        sh(['g++',*FLAGS,*I,*(['-DCPUID32'] if a else []),'-c',os.path.join(vf.VERIF,'harness',h+'.cpp'),'-o',o])
        e=os.path.join(d,h); sh(['g++','-m32','-static','-nostdlib','-no-pie','-Wl,-z,noexecstack',R.result(),o]+([a] if a else [])+['-o',e]); return e
    b={h:c.pool.submit(one,h) for h in HS+['p29']}; b['p31']=c.pool.submit(one,'p31',A)
    return b
def check(c):
    rc=c.refcheck(); path=os.path.join(c.tmp,'longs'); big=(1<<31)+77
    L=concurrent.futures.ThreadPoolExecutor(1).submit(longs,c,big)
    b=build(c); rc.result(); progs={}
    for h in b:
        try: progs[h]=b[h].result()
        except vf.BuildError as e: print('not explored: %s does not compile for 32 bits: %s'%(h,str(e)[-600:])); c.extra.setdefault('not_compiled',[]).append(h)
    def job(h,w,only=None):
        a=[progs[h],str(w),str(W)]+(['only='+only] if only else ['skip=longs'])+(['thorough'] if c.thorough and h not in('p09','p10') else [])
        try: r=c.sh(a,timeout=3000 if c.thorough else 760)
        except subprocess.TimeoutExpired: return h,w,-1,''
        return h,w,r.returncode,r.stdout.decode(errors='replace')
    js=[(h,w) for h in (['p31'] if 'p31' in progs else [])+[h for h in progs if h!='p31'] for w in range(W)]
    with concurrent.futures.ThreadPoolExecutor(W) as p: rs=list(p.map(lambda x:job(*x),js))
    exp=L.result(); got=0
    for h in progs:
        ev=st=ou=tr=ve=0; sam=[]
        for _,w,ret,out in (r for r in rs if r[0]==h):
            for l in out.split('\n'):
                f=l.split(' ')
                if f[0]=='SUITE': ve+=int(f[2]); ev+=int(f[3]); sam+=[' '.join(f[1:2]+f[4:])] if len(f)>4 and f[4] else []
                if f[0]=='END': tr+=int(f[1]); st+=int(f[2]); ou+=int(f[3])
                if f[0]=='LONG':
                    got+=1
                    if exp.get((f[1],int(f[2])))!=f[3]: c.violation('%s of a message of %s bytes on a machine of 32 bits'%(f[1],f[2]),'digest %s, expected %s'%(f[3],exp.get((f[1],int(f[2])))),'m32-long')
                if l.startswith('FAILED'): c.violation('on a machine of 32 bits: '+h,l,'m32-'+h)
            if ret and 'FAILED' not in out: c.violation('on a machine of 32 bits: %s (worker %d of %d) ends with %d'%(h,w,W,ret),out[-2000:],'m32-'+h)
        c.count(h+'-32',ev,st,tr,ou,samples=sam[:4],vectors=ve)
    if 'p31' in progs and not got and not c.viol: raise vf.BuildError('no digest of a long message was reported')
    return c.finish(rule='built for a machine of 32 bits every algorithm gives the bytes of its standard, also for messages longer than its size type can express',
     bounds='the enumerations of P01 to P10 and the memory layer of P29 (%s tier) in 32 bit programs; single calls of more than 2^31 bytes and messages of more than 2^32 bytes in several calls for hashes, poly_1305, cipher and aead (additional data and text); codec calls whose longer side has more than 2^31 bytes; the 32 bit cpuid routine on 1536 leaves'%('thorough' if c.thorough else 'quick'))
def longs(c,big):
    import refcheck
    base=bytes(refcheck.pat(i) for i in range(65521)); per=(base*(P01.PER//65521+1))[:P01.PER]; out={}
    def one(h):
        m=hashlib.new(h); pos=0
        for l in sorted(P01.LEN+[big]):
            while pos<l: o=pos%P01.PER; k=min(l-pos,P01.PER-o); m.update(memoryview(per)[o:o+k]); pos+=k
            out[(h,l)]=m.copy().hexdigest()
    hs=['sha1','sha256','sha512']+(['sha224','sha384','sha512_224','sha512_256'] if c.thorough else [])
    with concurrent.futures.ThreadPoolExecutor(4) as p: list(p.map(one,hs))
    return out
