def build(c): return {'p02':c.exe('p02',['p02.cpp']),'p02-huge':c.exe('p02-huge',['p01c.cpp'],flags=['-DHM'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p02']); c.optional(b['p02-huge'],'p02-huge')
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='tag of every enumerated key, message and call history equals the RFC 2104 reference'
BOUNDS='17 types; key lengths 0..3 blocks+2, message lengths 0..6 blocks; all update sequences within 2-3 blocks (visited-state search) for three keys; byte values at every place of key and message; all histories of 4 (6) operations incl. re-initialization with 5 key lengths, both classes; keys and messages of sizes around every power of two to 2^19 (2^23); one update of every size to 20000 (66000), keys of every size to 10100 (40000); every run and pair of particular byte values in keys and messages; 66000 calls, 66000 uses of one object; with a block function that counts: messages of lengths around every power of two to 2^61 - 1 and 2^65 bytes'
