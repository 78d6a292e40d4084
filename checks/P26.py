import os, vf, trace
def build(c):
    m=[('g++','-O2'),('clang++','-O2')]
    if c.thorough: m+=[('g++','-O0'),('g++','-O1'),('g++','-O3'),('g++','-Os'),('g++','-O3 -march=native'),('clang++','-O0'),('clang++','-O1'),('clang++','-O3'),('clang++','-Os'),('clang++','-O3 -march=native')]
    b={}
    for cc,o in m:
        n='p26-%s%s'%(cc.strip('+'),o.replace(' ','')); f=o.split()
        b[n]=c.exe(n,['p26.cpp'],cxx=cc,opt=f[0],flags=['-fno-pie','-g0',*(['-DLIGHT'] if f[0]=='-O0' else []),*f[1:]],ld=['-static'],post=lambda x:trace.table(x,x+'.table'))
    for o in ['-O0','-O1']+(['-O2','-O3'] if c.thorough else []):
        n='p26-cov'+o; b[n]=c.exe(n,['p26.cpp'],cxx='clang++',opt=o,flags=['-DCOV','-fno-vectorize','-fno-slp-vectorize','-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores'])
    return b
def check(c):
    b=build(c)
    for k in b: c.run(b[k])
    return c.finish(rule='the sequence of instructions and of the addresses they access (single-stepped, all backends) and of basic blocks, loads and stores (instrumented, software) of the life of an object is the same in every enumerated world of keys and texts',bounds='%d histories per object; worlds: every value in all bytes, single bits set and clear, single bytes of other values, patterns, Poly1305 corner limbs, every byte value at every place for encoders, as many as a step budget allows; %d compiler settings'%(5 if c.thorough else 3,len(b)))
