import vf
def build(c):
    b={'p18':c.exe('p18',['p18.cpp'],opt='-O1')}
    if c.thorough: b['p18-clang']=c.exe('p18-clang',['p18.cpp'],cxx='clang++',opt='-O2')
    return b
def check(c):
    rc=c.refcheck(); b=build(c); rc.result()
    for k in b:
        if c.api(b[k],'a program that uses every form of the calls that can fail'): c.run(b[k])
    return c.finish(rule='with an error object nothing is thrown and the object holds exactly the outcome of the last call whatever it held before; without one the same error is thrown; a container that fails in any form never ends the program; the error class equals a model with one integer',
     bounds='13+15 decoder overloads x 2 codecs, 13+13 verification overloads x 7 previous codes x every damaged character/length/tag bit enumerated; all sequences of %d calls over 14; all sequences of %d operations on error objects; 78 forms x 3 containers x every failing allocation'%((6,7) if c.thorough else (5,6)))
