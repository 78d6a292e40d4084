import vf
SAN=['-fsanitize=address,undefined','-fno-sanitize-recover=all']
OTHER=['p01','p02','p03','p04','p05','p06','p07','p08','p09','p10']
def build(c):
    b={'p11-asan':c.exe('p11-asan',['p11.cpp'],opt='-O0',flags=SAN+(['-DALLMAC'] if c.thorough else [])),
       'p12':c.exe('p12',['p12.cpp'],opt='-O2'),
       'p12-asan':c.exe('p12-asan',['p12.cpp'],opt='-O1',flags=SAN),
       'p12-msan':c.exe('p12-msan',['p12.cpp'],opt='-O1',cxx='clang++',flags=['-fsanitize=memory','-fno-sanitize-recover=all','-DHEAPENV','-D_GLIBCXX_EXTERN_TEMPLATE=0'],defs=['-DMILO_INTERNAL_ASM=false'],asm=False)}
    b['p12-ubsan']=c.exe('p12-ubsan',['p12.cpp'],opt='-O1',cxx='clang++',flags=['-fsanitize=undefined','-fno-sanitize-recover=all','-DHEAPENV'])
    if c.thorough:
        b['p12-clang']=c.exe('p12-clang',['p12.cpp'],opt='-O3',cxx='clang++')
        b['p12-clang-asan']=c.exe('p12-clang-asan',['p12.cpp'],opt='-O2',cxx='clang++',flags=SAN)
        for o in OTHER: b[o+'-asan']=c.exe(o+'-asan',[o+'.cpp'],opt='-O1',flags=SAN)
    return b
def check(c):
    b=build(c)
    for k in ('p12','p12-asan','p12-ubsan','p12-msan','p11-asan'): c.run(b[k])
    if c.thorough:
        for k in ('p12-clang','p12-clang-asan'): c.run(b[k])
        for o in OTHER: c.run(b[o+'-asan'],tier='quick')
    return c.finish(rule='inputs in read-only pages and outputs next to inaccessible pages (both ends), objects likewise; pattern-filled stack and storage give equal results; exact heap blocks under address, undefined-behaviour and memory sanitizers',
     bounds='all legal operation sequences of depth %d (5 sizes) for every algorithm and backend, every size to twice the block with four prefixes, codecs with every size to 300 and broken characters, tags of 0..40 bytes, every container form of P11 under sanitizers'%(6 if c.thorough else 5)+('; the enumerations of P01-P10 under sanitizers' if c.thorough else ''))
