import vf
def build(c):
    m=[('g++','-O0'),('g++','-O1'),('g++','-O2'),('g++','-O3'),('clang++','-O0'),('clang++','-O2')]
    if c.thorough: m+=[('g++','-Os'),('g++','-O2 -flto'),('clang++','-O1'),('clang++','-O3'),('clang++','-Os'),('g++','-O3 -march=native'),('g++','-Ofast')]
    b={}
    for cc,o in m:
        n='p16-%s%s'%(cc.strip('+'),o.replace(' ',''));f=o.split()
        b[n]=c.exe(n,['p16.cpp'],cxx=cc,opt=f[0],flags=f[1:])
    return b
def check(c):
    b=build(c)
    for k in b: c.run(b[k])
    return c.finish(rule='the same history is run with different keys, messages, salts and nonces of the same sizes; after destruction (in place, by delete, at the end of a scope, after copy, move, copy and move assignment over another state, self-assignment) the storage must be the same in all of them',bounds='all legal operation sequences of depth %d for every algorithm and backend, %s'%(6 if c.thorough else 5,'13 compiler settings' if c.thorough else 'g++ -O0..-O3 and clang++ -O0, -O2'))
