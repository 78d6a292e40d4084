def build(c): return {'p06':c.exe('p06',['p06.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p06'])
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='every output byte of every enumerated input and call sequence equals input xor RFC 8439 keystream'
BOUNDS='4 types; 64x64 alignments; all call sequences with the stated sizes within 1400 (2600) bytes for 4 start counters (visited-state search); counters around every byte carry and the wrap; every byte value at every place of key and iv; all histories of 4 (6) operations, both classes; one call of more than 2^32 bytes; calls of sizes around every power of two to 2^20 (2^23); one call of every size to 20000 (66000), keys and ivs of every size to 20000; keys, ivs and texts with every run and pair of particular byte values; 66000 calls, 66000 uses of one object'
