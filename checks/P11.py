import vf
def build(c): return {'p11':c.exe('p11',['p11.cpp'],opt='-O1',flags=(['-DALLMAC'] if c.thorough else [])),'p11b':c.exe('p11b',['p11b.cpp'],opt='-O1'),'p11-user':c.exe('p11-user',['p11c.cpp'],opt='-O1')}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result()
    for k,w in (('p11','a program that uses every documented form of every call'),('p11b','a program that uses every form with a resizable result')):
        p=c.api(b[k],w)
        if p: c.run(p)
    c.optional(b['p11-user'],'p11-user')
    return c.finish(rule='every overload called with every container kind and size gives the reference bytes, the documented size and changes nothing else',
     bounds='hash, mac, kdf, cipher, aead, codec: all overloads; 11 kinds of inputs, 10 kinds of resizable and view outputs x 7 prior sizes, 11 fixed outputs; requested sizes 0..digest+20, array results of every size; resizable forms with text of 255 bytes to 200 kB (1.1 MB) x 6 prior sizes x 2 capacities; the forms of a cipher, an AEAD and a codec of the user whose size functions give bounds only, texts of 0..63 and up to 6 kB, 4 containers x 6 prior sizes')
