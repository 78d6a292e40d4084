import hashlib, os, concurrent.futures
import vf, refcheck
LEN=[(1<<29)-1,1<<29,(1<<29)+64,(1<<32)-3,(1<<32)+131]; PER=1<<24
def longs(c,path):
    base=bytes(refcheck.pat(i) for i in range(65521))
    per=(base*(PER//65521+1))[:PER]
    def one(h):
        m=hashlib.new(h); pos=0; out=[]
        for i,l in enumerate(LEN):
            while pos<l:
                o=pos%PER; k=min(l-pos,PER-o); m.update(memoryview(per)[o:o+k]); pos+=k
            out.append('%s %d %s\n'%(h,i,m.copy().hexdigest()))
        return ''.join(out)
    hs=['sha1','sha256','sha512']+(['sha224','sha384','sha512_224','sha512_256'] if c.thorough else [])
    with concurrent.futures.ThreadPoolExecutor(8) as p: r=list(p.map(one,hs))
    open(path,'w').write(''.join(r))
def build(c): return {'p01':c.exe('p01',['p01.cpp']),'p01-huge':c.exe('p01-huge',['p01c.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); path=os.path.join(c.tmp,'longs')
    l=c.pool.submit(longs,c,path); rc.result(); l.result()
    c.run(b['p01'],env=dict(os.environ,LONGS=path))
    c.optional(b['p01-huge'],'p01-huge')
    return c.finish(rule='digest of every enumerated message and call history equals the FIPS 180-4 reference',
        bounds='17 types (run-time selection, software, hardware); lengths 0..5 blocks at all 64 alignments, 0..4200; all update sequences within 3 blocks with the stated update sizes (visited-state search, no depth bound); every byte value in the first block; all histories of 5 (7) operations; 2^29-1, 2^29, 2^29+64, 2^32+131 bytes; one update of every size to 20000 (66000) against smaller ones, requested results of every size; every run and pair of particular byte values in messages; 66000 calls, 66000 uses of one object; with a block function that counts: lengths around every power of two and its half to 2^61 - 1 (32 bit words) and past 2^65 (64 bit words), in calls of 4 sizes of up to 2^45 bytes')
