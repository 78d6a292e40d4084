def build(c): return {'p03':c.exe('p03',['p03.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p03'])
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='tag of every enumerated key, message and call history equals the RFC 8439 number computed with plain big integers'
BOUNDS='key lengths 0..50, message lengths 0..97; all update sequences within 7 (12) blocks; 43 corner numbers for r, 6 for s, all pairs (triples) of blocks; accumulators around the prime; all histories of 4 (6) operations, both classes; keys and messages of sizes around every power of two to 2^19 (2^23); one update of every size to 20000 (66000), keys of every size to 10100 (40000); every run and pair of particular byte values in keys and messages; 66000 calls, 66000 uses of one object'
