import vf
H=[('sha_1_160',20),('sha_2_224',28),('sha_2_256',32),('sha_2_384',48),('sha_2_512',64),('sha_2_512_224',28),('sha_2_512_256',32)]
PARTS=['cut_hash','cut_hmac','over_cut','derive','ct_hash']
ALGS=['Sha1','Sha2','Sha224','Sha5','Sha384','Poly']
def build(c):
    b={}
    for h,n in sorted(H,key=lambda x:-x[1]):
        for p in PARTS:
            step=1 if c.thorough or p in('cut_hash','ct_hash') or n==20 else 8 if p=='derive' else 4
            if p=='cut_hmac' and n<=32: step=1
            k='%s-%s'%(p,h); b[k]=c.exe(k,['p27.cpp'],opt='-O1',flags=['-DHASH='+h,'-DPARTF='+p,'-DSTEP=%d'%step]+(['-DPOLY'] if p=='cut_hash' and n==20 else []))
    for a in ALGS:
        k='options-'+a; b[k]=c.exe(k,['p27b.cpp'],opt='-O1',flags=['-DALG='+a,'-DLEN=%d'%(3 if c.thorough else 2)])
    b['options-cipher']=c.exe('options-cipher',['p27c.cpp'],opt='-O1')
    if c.thorough: b['options-clang']=c.exe('options-clang',['p27b.cpp'],cxx='clang++',opt='-O1',flags=['-DALG=Sha2','-DLEN=2'])
    return b
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); n=0
    for k in b:
        try: p=b[k].result()
        except vf.BuildError as e:
            if k.startswith('options'): print('not explored: %s does not compile'%k); c.extra.setdefault('not_compiled',[]).append(k); continue
            p=c.api(b[k],'a program that uses digest sizes 1..native (%s)'%k)
        if p: c.run(p,name=k)
    return c.finish(rule='a digest size option gives the leading bytes of the standard result, and constructions over cut digests equal the standards over a cut hash; of a sequence of options the first of each kind decides, at run time and at compile time',
     bounds='every digest size 1..native of 7 hashes at run time and at compile time, poly 1305 (1..16) and HMAC; HMAC over every cut hash (quick: every fourth size of some), HKDF and PBKDF2 over cut HMAC, over HMAC of a cut hash and both (quick: every eighth size), drawn in every chunk size; all sequences of up to 2 (3) of 8 options x 6 algorithms, with implementations that count their uses; the same for the cipher, sequences of up to 2; cipher implementations of the user that make 1..8 blocks at once: all sequences of 4 (5) calls of 10 sizes, also over the wrap of the counter, and in the AEAD')
