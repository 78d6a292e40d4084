def build(c): return {'p09':c.exe('p09',['p09.cpp'])}
def check(c):
    rc=c.refcheck(); b=build(c); rc.result(); c.run(b['p09'])
    return c.finish(rule=RULE,bounds=BOUNDS)
RULE='outcome (bytes, sizes, error) of every enumerated encode and decode call equals the reference'
BOUNDS='encode: all strings of 0..3 bytes, every byte value at every place to 50 (130) bytes, all lengths to 3000; decode: all strings of 0..3 characters, four-character strings (all 2^32 in thorough), every character at every place of encodings to 42 (110) bytes, all strings over 8 (4) character classes to 7 (9) characters; every power of two a size can hold; one call of more than 2^32 bytes; sizes around every power of two to 2^18 (2^22); every size to 20000 (60000) encoded, decoded, with one bad character, one character short; 64 x 64 alignments of source and destination; every run and pair of particular byte values in 24 bytes'
