import vf, trace
def build(c):
    m=[('g++','-O2')]
    if c.thorough: m+=[('g++','-O0'),('g++','-O3'),('clang++','-O2'),('clang++','-O0')]
    return {n:c.exe(n,['p20.cpp'],cxx=cc,opt=o,flags=['-fno-pie','-g0'],ld=['-static'],post=lambda x:trace.table(x,x+'.table')) for cc,o in m for n in['p20-%s%s'%(cc.strip('+'),o)]}
def check(c):
    b=build(c)
    for k in b: c.run(b[k])
    return c.finish(rule='a thread is stopped before every instruction of the life of an object (controlled scheduler: single stepping with strict hand-over to a second thread); there the other thread does a whole operation and continues another object; all results, and those of the operations afterwards, equal those of the same operations alone; first uses in fresh processes',bounds='one preemption at every instruction (same kind; strided for pairs of different kinds), grids of two preemptions and all pairs of steps that write shared memory')
