import vf
G=['-fconstexpr-ops-limit=100000000000','-fconstexpr-loop-limit=100000000','-fconstexpr-depth=5000','-fconstexpr-cache-depth=1']
L=['-D_GLIBCXX_EXTERN_TEMPLATE=0','-fconstexpr-steps=2147483647','-fconstexpr-depth=5000','-fbracket-depth=1000']
HS=['p01','p02','p03','p04','p05','p06','p07','p08','p09','p10','p11','p17','p18']  # what these run is what the compiler interprets
def build(c):
    st='-DSTRIDE=%d'%(1 if c.thorough else 7); b={}
    for k in (3,4,5,6,7,8,2,1):
        b['p13-%d'%k]=c.exe('p13-%d'%k,['p13.cpp'],opt='-O1',flags=G+[st,'-DMAXP=20000','-DLIST=L%d'%k]+(['-DDEPTH=5'] if c.thorough and k in(1,2,6,8) else []),timeout=3000)
    for h in HS: b[h+'-const']=c.exe(h+'-const',[h+'.cpp'],flags=['-w','-D__builtin_is_constant_evaluated()=true'],asm=True)
    b['p13-f']=c.exe('p13-f',['p13.cpp'],opt='-O1',flags=G+[st,'-DFORMS'],timeout=3000)
    b['p13-clang-f']=c.exe('p13-clang-f',['p13.cpp'],opt='-O1',cxx='clang++',flags=L+[st,'-DFORMS'],timeout=3000)
    if c.thorough:
        for k in range(1,9): b['p13-clang-%d'%k]=c.exe('p13-clang-%d'%k,['p13.cpp'],opt='-O1',cxx='clang++',flags=L+['-DSTRIDE=7','-DMAXP=20000','-DLIST=L%d'%k],timeout=3000)
    return b
def check(c):
    rc=c.refcheck(); b=build(c); rc.result()
    for k in sorted(b):
        p=c.api(b[k],'a program that evaluates the library in constant expressions (%s)'%k)
        if p: c.run(p,name=k,args=['--skip','longs'],tier='quick' if k[:3]!='p13' else None)
    return c.finish(rule='every program gives the same results when the compiler evaluates it (which also rejects any undefined behaviour in it) and when it runs',
     bounds='all legal operation sequences of %s operations over sizes {0, 5, block+1} for every algorithm and wrapper, message lengths to twice the block, copies of every state by construction, move and assignment over every state, every character at every place of a codec input, every pair of error codes, every character at every place of a literal (which has a value at compile time exactly when it is an encoding), container and one-line forms; and the enumerations of P01 to P11, P17 and P18 (quick tier) run on a build that takes every branch written for constant evaluation, against the reference models, one another and histories without copies'%('4-5' if c.thorough else '4'))
