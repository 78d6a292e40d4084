import os, vf, trace
def build(c):
    m=[('g++','-O0'),('g++','-O1'),('g++','-O2'),('g++','-O3'),('clang++','-O0'),('clang++','-O2')]
    if c.thorough: m+=[('g++','-Os'),('g++','-O3 -march=native'),('clang++','-O1'),('clang++','-O3'),('clang++','-Os')]
    b={}
    for cc,o in m:
        n='p21-%s%s'%(cc.strip('+'),o.replace(' ','')); f=o.split()
        b[n]=c.exe(n,['p21.cpp'],cxx=cc,opt=f[0],flags=['-fno-pie','-g0',*(['-DLIGHT'] if f[0]=='-O0' else []),*f[1:]],ld=['-static','-Wl,--wrap=__cxa_throw,--wrap=__cxa_allocate_exception'],post=lambda x:trace.table(x,x+'.table'))
    return b
def check(c):
    b=build(c)
    for k in b: c.run(b[k])
    return c.finish(rule='single-stepped: for tags of one size the sequence of instructions and of the addresses they access is the same for all rejected tags, and for all accepted ones',bounds='all single wrong bits, byte values, pairs of bits, subsets of bytes (strided in the quick tier), computed tags of other data, every size to %d; pointer, array, span, vector, throwing and one-line forms; %d compiler settings'%(280 if c.thorough else 48,len(b)))
