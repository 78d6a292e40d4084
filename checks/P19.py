import vf
LEVEL='fault_enumeration'
def build(c):
    b={'p19':c.exe('p19',['p19.cpp'],opt='-O1')}
    if c.thorough: b['p19-clang']=c.exe('p19-clang',['p19.cpp'],cxx='clang++',opt='-O2'); b['p19-asan']=c.exe('p19-asan',['p19.cpp'],opt='-O1',flags=['-fsanitize=undefined','-fno-sanitize-recover=all'])
    return b
def check(c):
    rc=c.refcheck(); b=build(c); rc.result()
    for k in b: c.run(b[k])
    return c.finish(rule='the k-th allocation made by a call fails, for every k: the exception of the allocator reaches the caller, no block is leaked, the same object and container give the right result afterwards; pointer and fixed-size forms make no allocation in any legal sequence of operations',bounds='every form with a resizable result (78 with text of 0, 1, 40, 300 bytes and 3 prior sizes) x 5 container types, text literals, bad data in decoders and decryption; all legal operation sequences of depth %d of every object and 40 fixed-size forms'%(5 if c.thorough else 4))
