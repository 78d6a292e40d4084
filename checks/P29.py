import vf
BIG=['-U__BYTE_ORDER__','-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__']; CONST=['-D__builtin_is_constant_evaluated()=true']
HS=['p01','p02','p03','p04','p05','p06','p07','p08','p09','p10']
MEM={'memory':[],'memory-constant':CONST,'memory-big':BIG+CONST}
def build(c):
    b={h+'-big':c.exe(h+'-big',[h+'.cpp'],flags=['-w','-DMILO_INTERNAL_ASM=false',*BIG,*CONST]) for h in reversed(HS)}
    for k,f in MEM.items(): b[k]=c.exe(k,['p29.cpp'],opt='-O1',flags=['-w','-DMILO_INTERNAL_ASM=false',*f])
    return b
def check(c):
    rc=c.refcheck(); b=build(c); rc.result()
    for h in HS: c.run(b[h+'-big'],name=h+'-big',args=['--skip','longs'],tier='thorough' if c.thorough and h not in('p09','p10') else 'quick')
    for k in MEM:
        try: p=b[k].result()
        except vf.BuildError: print('not explored: %s does not compile'%k); c.extra.setdefault('not_compiled',[]).append(k); continue
        c.run(p,name=k)
    return c.finish(rule='built for a big endian machine every algorithm gives the bytes of its standard; every load, store and copy of the memory layer equals a byte model of a machine of that order',
     bounds='the enumerations of P01 to P10 (%s tier, without messages of more than 2^32 bytes) on a build whose byte order is big endian and whose memory accesses are those the library writes for constant evaluation; memory layer: 36 pairs of number types x every offset x every partial size x 12 contents x 12 values, arrays of every size to 32 bytes, as built for this machine, for its constant evaluation and for a big endian one'%('thorough' if c.thorough else 'quick'))
