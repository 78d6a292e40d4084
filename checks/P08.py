def build(c): return {'p08':c.exe('p08',['p08.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p08'])
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='an enumerated corruption is rejected by every overload and the genuine tag is accepted by every overload'
BOUNDS='20 overloads x 3 prior error states; every single bit of key, nonce, aad, ciphertext and tag for 6 size pairs; tag lengths 0..300; every byte value, every pair of bits, equal and opposite two-byte changes, byte subsets; tags with a zero byte at each place; all sequences of 5 (6) verifications and digests'
