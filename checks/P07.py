def build(c): return {'p07':c.exe('p07',['p07.cpp']),'p07-huge':c.exe('p07-huge',['p07c.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p07']); c.optional(b['p07-huge'],'p07-huge')
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='ciphertext, plaintext and tag of every enumerated input and call sequence equal the RFC 8439 construction'
BOUNDS='4 types (run-time selection, software, ssse3, avx2), both classes, both directions, in place or not; aad 0..50 (200) x text 0..90 (600) and larger ones; all call sequences with the stated sizes (visited-state search over aad given, text given, object); all histories of 5 (6) operations; single calls of more than 2^32 bytes for aad, encrypt and decrypt; data and texts of sizes around every power of two to 2^18 (2^22); one call of every size to 20000 (66000), keys and nonces of every size to 20000; keys, nonces, additional data and texts with every run and pair of particular byte values; 66000 calls, 66000 uses of one object; with a cipher and a mac that count: additional data of lengths around every power of two to 2^64 - 1, texts to 2^38 - 64'
