"""Validates lib/ref.h against hashlib, hmac, base64 and plain big-integer python."""
import base64, hashlib, hmac, struct
M=(1<<64)-1
def pat(i,salt=0):
    x=((i+1)*0x9e3779b97f4a7c15+salt*0xd1342543de82ef95)&M
    x^=x>>29; x=(x*0xbf58476d1ce4e5b9)&M; x^=x>>32
    return (x>>13)&255
def P(n,s=0): return bytes(pat(i,s) for i in range(n))
HN={'sha1':'sha1','sha224':'sha224','sha256':'sha256','sha384':'sha384','sha512':'sha512','sha512_224':'sha512_224','sha512_256':'sha512_256'}
AV=hashlib.algorithms_available
def block(key,ctr,nonce):
    s=list(struct.unpack('<4I',b'expand 32-byte k'))+list(struct.unpack('<8I',key))+[ctr&0xffffffff]+list(struct.unpack('<3I',nonce))
    x=s[:]
    def q(a,b,c,d):
        def r(v,n): return ((v<<n)|(v>>(32-n)))&0xffffffff
        x[a]=(x[a]+x[b])&0xffffffff; x[d]=r(x[d]^x[a],16)
        x[c]=(x[c]+x[d])&0xffffffff; x[b]=r(x[b]^x[c],12)
        x[a]=(x[a]+x[b])&0xffffffff; x[d]=r(x[d]^x[a],8)
        x[c]=(x[c]+x[d])&0xffffffff; x[b]=r(x[b]^x[c],7)
    for _ in range(10):
        q(0,4,8,12);q(1,5,9,13);q(2,6,10,14);q(3,7,11,15)
        q(0,5,10,15);q(1,6,11,12);q(2,7,8,13);q(3,4,9,14)
    return struct.pack('<16I',*[(a+b)&0xffffffff for a,b in zip(x,s)])
def ks(key,ctr,nonce,n):
    return b''.join(block(key,ctr+i,nonce) for i in range((n+63)//64))[:n]
def poly(k,m):
    r=int.from_bytes(k[:16],'little')&0x0ffffffc0ffffffc0ffffffc0fffffff
    s=int.from_bytes(k[16:32],'little'); a=0; p=(1<<130)-5
    for i in range(0,len(m),16): a=(a+int.from_bytes(m[i:i+16]+b'\1','little'))*r%p
    return ((a+s)%(1<<128)).to_bytes(16,'little')
def hkdf(h,ikm,salt,info,n):
    prk=hmac.new(salt or b'\0'*hashlib.new(h).digest_size,ikm,h).digest(); t=b'';o=b'';i=1
    while len(o)<n:
        t=hmac.new(prk,t+info+bytes([i]),h).digest(); o+=t; i+=1
    return o[:n]
def rfc():
    k=bytes(range(0x80,0xa0)); n=bytes.fromhex('070000004041424344454647'); aad=bytes.fromhex('50515253c0c1c2c3c4c5c6c7')
    pt=b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."
    ct=bytes(a^b for a,b in zip(pt,ks(k,1,n,len(pt))))
    pad=lambda b:b+b'\0'*(-len(b)%16)
    tag=poly(ks(k,0,n,32),pad(aad)+pad(ct)+struct.pack('<QQ',len(aad),len(ct)))
    assert tag.hex()=='1ae10b594f09e26a7e902ecbd0600691' and ct[:8].hex()=='d31a8d34648e60db'
def check(lines):
    rfc(); n=0; skipped=0
    for l in lines:
        w=l.split(' ')
        k=w[0]
        if k in('hash','hmac','pbkdf2','hkdf') and w[1] not in AV: skipped+=1; continue
        if k=='hash': e=[hashlib.new(w[1],P(int(w[2]))).hexdigest()]
        elif k=='hmac': e=[hmac.new(P(int(w[2]),1),P(int(w[3])),w[1]).hexdigest()]
        elif k=='pbkdf2':
            pw,salt,it,m=P(9,1),P(12,2),int(w[2]),int(w[3]); o=b''; i=1
            while len(o)<m:
                u=hmac.new(pw,salt+struct.pack('>I',i),w[1]).digest(); t=int.from_bytes(u,'big')
                for _ in range(it-1): u=hmac.new(pw,u,w[1]).digest(); t^=int.from_bytes(u,'big')
                o+=t.to_bytes(len(u),'big'); i+=1
            e=[o[:m].hex()]
        elif k=='hkdf': e=[hkdf(w[1],P(40,1),P(int(w[3]),2),P(30,3),int(w[2])).hex()]
        elif k=='chacha': e=[ks(P(32,1),int(w[1]),P(12,2),int(w[2])).hex()]
        elif k=='poly':
            f,m=int(w[1]),int(w[2]); e=[poly(*((P(32,1),P(m)) if f==0 else (bytes([255 if f==1 else 2])*32,b'\xff'*m))).hex()]
        elif k=='aead':
            a,m=int(w[1]),int(w[2]); key,no=P(32,1),P(12,2)
            ct=bytes(x^y for x,y in zip(P(m,3),ks(key,1,no,m))); pad=lambda b:b+b'\0'*(-len(b)%16)
            e=[ct.hex(),poly(ks(key,0,no,32),pad(P(a,4))+pad(ct)+struct.pack('<QQ',a,m)).hex()]
        elif k=='codec': m=P(int(w[1])); e=[base64.b64encode(m).hex(),m.hex().encode().hex(),'1']
        elif k=='pat': i=int(w[1]); e=[str(pat(i)),str(pat(i,3))]
        else: raise SystemExit('reference model self-check: unknown line '+l)
        if w[-len(e):]!=e: raise SystemExit('reference model self-check failed: %s expected %s'%(l,e))
        n+=1
    return n,skipped
