def build(c): return {'p04':c.exe('p04',['p04.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p04'])
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='every derived byte of every enumerated input and draw sequence equals the RFC 5869 stream'
BOUNDS='17 types; ikm/salt lengths 0..2 blocks+1, five info lengths; all draw sequences within 5 blocks and at the 255 block limit (visited-state search); 255 blocks in equal parts of every size up to 2 (6) blocks; all histories of 4 (6) initialize/derive operations, both classes; each input of sizes around every power of two to 2^17 (2^21); each input of every size to 4200 (20000), one draw of every size to 5040; every run and pair of particular byte values in keys, salts and informations; 66000 uses of one object'
