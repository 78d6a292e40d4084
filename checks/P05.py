def build(c): return {'p05':c.exe('p05',['p05.cpp']),'p05-huge':c.exe('p05-huge',['p05c.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p05']); c.optional(b['p05-huge'],'p05-huge')
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='every derived byte of every enumerated input and draw sequence equals the RFC 8018 stream'
BOUNDS='17 types; password/salt lengths 0..2 blocks+1; iterations 1..1100 (4000), 65533..65540; all draw sequences within 5 blocks (visited-state search); block counters over 2^8 and 2^16; all histories of 4 (6) operations, both classes; each input of sizes around every power of two to 2^17 (2^21); each input of every size to 4200 (20000), one draw of every size to 5040; every run and pair of particular byte values in passwords and salts; 66000 calls and uses of one object; with a pseudo random function of the user: iterations 2^10..2^24 (2^30) and one less and more, at least 300000 uses for every power of two to 2^32 - 1 (full: 2^31 + 1, 2^32 - 1), 2^24 + 3000 (2^32 - 1) blocks'
