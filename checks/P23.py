import vf
def build(c):
    return {'p23':c.app('p23',['p23.cpp'],flags=['-D_GLIBCXX_ASSERTIONS'])}
def check(c):
    b=build(c); c.run(b['p23'])
    return c.finish(rule='the application itself (its main, in a child process under a virtual clock): list output with and without --advanced; for every enumerated expression the names reported are those of the list whose whole name it matches by a reference matcher; every subset of parameters for expressions that select one or more kinds',
        bounds='all expressions of up to %d of 8 characters; every name with one edit, every prefix and suffix; every substring up to %d characters between stars; all subsets of parts of every name replaced by stars; all pairs of parts; all 256 parameter subsets for 24 expressions'%((6,12) if c.thorough else (4,5)))
