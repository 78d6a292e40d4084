# vectors of every scheme of the code generator, from independent references
import hashlib, hmac, struct, base64
def pat(n,s): return bytes((i*(2*s+3)+(i>>3)*7+(i>>7)*29+s*11)&255 for i in range(n))
def rol(x,n): return ((x<<n)|(x>>(32-n)))&0xffffffff
def block(key,ctr,nonce):
    st=list(struct.unpack('<4I',b'expand 32-byte k')+struct.unpack('<8I',key)+(ctr&0xffffffff,)+struct.unpack('<3I',nonce)); w=st[:]
    def q(a,b,c,d):
        w[a]=(w[a]+w[b])&0xffffffff; w[d]=rol(w[d]^w[a],16); w[c]=(w[c]+w[d])&0xffffffff; w[b]=rol(w[b]^w[c],12); w[a]=(w[a]+w[b])&0xffffffff; w[d]=rol(w[d]^w[a],8); w[c]=(w[c]+w[d])&0xffffffff; w[b]=rol(w[b]^w[c],7)
    for _ in range(10):
        for x in ((0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14)): q(*x)
    return struct.pack('<16I',*((a+b)&0xffffffff for a,b in zip(w,st)))
def chacha(key,ctr,nonce,m): return bytes(x^y for i in range(0,len(m),64) for x,y in zip(m[i:i+64],block(key,ctr+i//64,nonce)))
def poly(key,m):
    r=int.from_bytes(key[:16],'little')&0x0ffffffc0ffffffc0ffffffc0fffffff; s=int.from_bytes(key[16:32],'little'); a=0
    for i in range(0,len(m),16): a=(a+int.from_bytes(m[i:i+16]+b'\1','little'))*r%((1<<130)-5)
    return ((a+s)&((1<<128)-1)).to_bytes(16,'little')
def aead(key,iv,aad,pt):
    ct=chacha(key,1,iv,pt); z=lambda b:b+bytes(-len(b)%16)
    return ct,poly(block(key,0,iv)[:32],z(aad)+z(ct)+struct.pack('<QQ',len(aad),len(ct)))
def hkdf(h,ikm,salt,info,n):
    L=hashlib.new(h).digest_size; prk=hmac.new(salt or bytes(L),ikm,h).digest(); t=o=b''; i=1
    while len(o)<n: t=hmac.new(prk,t+info+bytes([i]),h).digest(); o+=t; i+=1
    return o[:n]
SIZES=[0,1,2,15,16,17,31,32,33,47,48,49,63,64,65,79,80,81,127,128,129,200]
def hx(**k): return {a:b.hex() if isinstance(b,bytes) else b for a,b in k.items()}
def b16(n): return hx(a=pat(n,3))['a']
# scheme -> (namespace of test vectors, implementations, vectors, which field is the expected one)
def vectors(scheme):
    P='test-primitive-'; v=[]
    for i,n in enumerate(SIZES):
        m=SIZES[-1-i]; key=pat(32,i+1); iv=pat(12,i+2); x=pat(n,i)
        if scheme==P+'hash': v.append(hx(message=x,digest=hashlib.sha256(x).digest()))
        elif scheme==P+'mac': v.append(hx(key=pat(m,5),message=x,digest=hmac.new(pat(m,5),x,'sha256').digest()))
        elif scheme==P+'mac/poly': v.append(hx(key=key,message=x,digest=poly(key,x)))
        elif scheme==P+'kdf-hkdf': v.append(hx(ikm=x,salt=pat(m,6),info=pat((n*5)%131,7),key=hkdf('sha256',x,pat(m,6),pat((n*5)%131,7),SIZES[(i*5)%22])))
        elif scheme==P+'kdf-pbkdf-2': v.append(hx(ikm=x,salt=pat(m,6),iterations=1+i%4,key=hashlib.pbkdf2_hmac('sha256',x,pat(m,6),1+i%4,SIZES[(i*5)%22] or 1)))
        elif scheme==P+'cipher-encrypt' or scheme==P+'cipher-decrypt': v.append(hx(key=key,iv=struct.pack('<I',i*i)+iv,plaintext=x,ciphertext=chacha(key,i*i,iv,x)))
        elif scheme==P+'aead-encrypt' or scheme==P+'aead-decrypt': c,t=aead(key,iv,pat(m,8),x); v.append(hx(key=key,iv=iv,aad=pat(m,8),plaintext=x,ciphertext=c,digest=t))
        elif scheme==P+'codec-encode': v.append({'from':x.hex(),'to':base64.b64encode(x).decode()})
        elif scheme==P+'codec-decode': v.append({'from':base64.b64encode(x).decode(),'to':x.hex()})
        elif scheme==P+'codec-encode/16': v.append({'from':x.hex(),'to':x.hex()})
        elif scheme==P+'codec-decode/16': v.append({'from':x.hex().upper() if i%2 else x.hex(),'to':x.hex()})
    return v
P='test-primitive-'
IMPL={P+'hash':['hash_sha_2_256','hash_sha_2_256_sw'],P+'mac':['mac_hmac_sha_2_256','mac_hmac_sha_2_256_sw'],P+'mac/poly':['mac_poly_1305','mac_poly_1305_sw'],P+'kdf-hkdf':['kdf_hkdf_hmac_sha_2_256'],P+'kdf-pbkdf-2':['kdf_pbkdf_2_hmac_sha_2_256'],P+'cipher-encrypt':['cipher_chacha_20','cipher_chacha_20_sw'],P+'cipher-decrypt':['cipher_chacha_20','cipher_chacha_20_sw'],P+'aead-encrypt':['aead_chacha_20_poly_1305','aead_chacha_20_sw_poly_1305_sw'],P+'aead-decrypt':['aead_chacha_20_poly_1305','aead_chacha_20_sw_poly_1305_sw'],P+'codec-encode':['codec_base_64'],P+'codec-decode':['codec_base_64'],P+'codec-encode/16':['codec_base_16'],P+'codec-decode/16':['codec_base_16']}
# an implementation that computes something else (of the same interface), for the lists with one wrong entry
WRONG={P+'hash':'hash_p28_wrong',P+'mac':'mac_hmac_sha_2_512_256',P+'kdf-hkdf':'kdf_hkdf_hmac_sha_1_160',P+'kdf-pbkdf-2':'kdf_pbkdf_2_hmac_sha_1_160',P+'codec-encode':'codec_base_16',P+'codec-decode':'codec_base_16'}
def config(scheme,vs,runtime=None,cpltime=(),include=(),ids=None,groups=1):
    r=IMPL[scheme] if runtime is None else runtime; data=[dict({'id':(ids[i] if ids else i+1)},**v) for i,v in enumerate(vs)]; k=max(1,-(-len(data)//groups))
    return {'scheme':scheme.split('/')[0],'payload':{'impl':{'cpltime':list(cpltime),'runtime':list(r)},'include':['<milo/primitive/detail/alias.h>',*include],'vectors':[{'data':data[i:i+k]} for i in range(0,len(data),k)] or [{'data':[]}]}}
def flip(h,at=0): b=bytearray.fromhex(h); b[at]^=1; return bytes(b).hex()
def fields(scheme): return [k for k in vectors(scheme)[0] if k!='iterations']
