import vf
def calls(c,prop=None):
    return c.app('calls',['p24c.cpp'],flags=['-finstrument-functions','-finstrument-functions-exclude-file-list=mc.h,app.h,appclock.cpp,p24c.cpp'],opt='-O0')
def build(c):
    return {'p24':c.app('p24',['p24.cpp'],flags=['-D_GLIBCXX_ASSERTIONS']),'calls':calls(c)}
def check(c):
    b=build(c)
    for k in b: c.run(b[k])
    return c.finish(rule='the application itself (its main, in a child process under a virtual clock): exit status, standard error and the whole report of every enumerated argument list are those of a model of the documented parameterization tree; calls of every function between the clock readings are those of direct calls of the algorithm named, with the sizes given',
        bounds='six tokens at all 6^6 places; all lists of up to %d of %d tokens; all tails and option lists up to %d; all malformed values with any one character, all values to %d; all near-miss names; all orders; every benchmark with 3 to 6 size tuples and 7 repeat pairs'%((6,11,5,1100) if c.thorough else (5,9,4,300)))
