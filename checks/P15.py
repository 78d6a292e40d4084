import os, subprocess, vf, isa
def build(c):
    b={}
    for abi in ('UNIX','WIND'):
        objs=c.asm(abi); syms=sorted(isa.functions(objs)); d=os.path.join(c.tmp,abi); os.makedirs(d,exist_ok=True)
        open(os.path.join(d,'p15_gen.h'),'w').write('#define SYMS '+','.join('"%s"'%s for s in syms)+'\n')
        open(os.path.join(d,'t.S'),'w').write('.text\n'+''.join('.globl __wrap_%s\n__wrap_%s:\n lea __real_%s(%%rip),%%rax\n mov $%d,%%r10\n jmp p15_core\n'%(s,s,s,i) for i,s in enumerate(syms))+'.section .note.GNU-stack,"",@progbits\n')
        ex=[]
        for n,s in (('t',os.path.join(d,'t.S')),('core',os.path.join(vf.VERIF,'harness','p15_core.S'))):
            o=os.path.join(d,n+'.o'); r=subprocess.run(['gcc','-c','-D'+abi,'-o',o,s],stderr=subprocess.PIPE); ex.append(o)
            if r.returncode: raise vf.BuildError(r.stderr.decode())
        n='p15-'+abi.lower(); b[n]=c.exe(n,['p15.cpp'],flags=['-I'+d,'-D'+abi],abi=abi,extra=ex,ld=['-no-pie']+['-Wl,--wrap='+s for s in syms])
    return b
def check(c):
    b=build(c); rc=c.refcheck(); rc.result()
    for k in b: c.run(b[k])
    return c.finish(rule='around every call of an assembly function that the library makes: callee-saved registers (and xmm6-15 in the Windows convention), stack pointer, direction flag, mxcsr and x87 control words, x87 registers, upper vector halves and the frame of the caller are as the convention says; results equal the reference in both conventions',
     bounds='every hash and cipher backend in assembly, message lengths to %d with all source alignments, text lengths to %d with alignments of both sides, four settings of the floating-point state; cpuid and xgetbv'%((6400,11000) if c.thorough else (1920,4000)))
