import os, subprocess, vf, isa
BITS={'sse':1,'sse2':2,'sse3':4,'ssse3':8,'sse4.1':16,'sse4.2':32,'avx':64,'avx2':256,'sha':512}
ASK=['milo_internal_arch_x86_64_cpuid','milo_internal_arch_x86_64_xgetbv']
def build(c):
    objs=c.asm(); fn=isa.functions(objs); d=c.tmp
    syms=sorted(s for s in fn if s not in ASK); need={}
    for s in syms:
        n,k,odd=isa.needs(fn[s],s); other=[x for x in n if x not in BITS]
        need[s]=sum(BITS[x] for x in n if x in BITS)|(4096 if other else 0)
        c.extra.setdefault('instructions',{})[s]={'needs':sorted(n),'distinct_instructions':k,'not_reassembled':odd}
    open(os.path.join(d,'p14_gen.h'),'w').write('#define SYMS(X) '+' '.join('X(%d,"%s",%du)'%(i,s,need[s]) for i,s in enumerate(syms))+'\n')
    open(os.path.join(d,'p14_t.S'),'w').write('.text\n'+''.join('.globl __wrap_%s\n__wrap_%s:\n orq $%d, p14_mask(%%rip)\n jmp __real_%s\n'%(s,s,1<<i,s) for i,s in enumerate(syms))+'.section .note.GNU-stack,"",@progbits\n')
    weak=[]
    for i,o in enumerate(objs):
        w=os.path.join(d,'weak%d.o'%i); r=subprocess.run(['objcopy',*['--weaken-symbol='+a for a in ASK],o,w]); assert r.returncode==0; weak.append(w)
    t=os.path.join(d,'p14_t.o'); assert subprocess.run(['gcc','-c','-o',t,os.path.join(d,'p14_t.S')]).returncode==0
    b={'p14':c.exe('p14',['p14.cpp'],flags=['-I'+d],asm=False,extra=weak+[t],ld=['-static']+['-Wl,--wrap='+s for s in syms]),
       'p14r':c.exe('p14r',['p14r.cpp'])}
    if c.thorough: b['p14-clang']=c.exe('p14-clang',['p14.cpp'],cxx='clang++',flags=['-I'+d],asm=False,extra=weak+[t],ld=['-static']+['-Wl,--wrap='+s for s in syms])
    return b
def check(c):
    b=build(c); rc=c.refcheck(); rc.result()
    for k in b: c.run(b[k])
    return c.finish(rule='in every configuration each backend entered needs only instructions (found by control flow and reassembly of its code) that the configuration reports and the operating system enabled; named backends are the ones used; results equal the reference; the processor is asked correctly',
     bounds='all combinations of 8 feature bits of leaf 1, 2 of leaf 7 and 2 state bits that the real processor can run x highest leaf (0, 1, 6, 7, 32) x all other bits 0 or 1; one process each; 33 selections of algorithm and option')
