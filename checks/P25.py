import vf, P24
def build(c):
    return {'p25':c.app('p25',['p25.cpp'],flags=['-D_GLIBCXX_ASSERTIONS']),'calls':P24.calls(c)}
def check(c):
    b=build(c)
    for k in b: c.run(b[k])
    return c.finish(rule='the application itself under a virtual clock: its whole output, read by a strict JSON reader, equals a model of the report for every enumerated duration, number of repeats, size and clock frequency; argument strings come back byte for byte; calls of every function before and between the clock readings are the requested numbers of calls of the algorithm named',
        bounds='36 durations from 0 to 9e18 ns x 9 repeats x 12 clocks x 5 sizes (%s); every pair of bytes and all strings of up to %d of 20 special characters as arguments; every benchmark with 3 to 6 size tuples and 7 repeat pairs'%(('all',4) if c.thorough else ('half',3)))
