import vf
def build(c):
    b={'p17':c.exe('p17',['p17.cpp'])}
    if c.thorough: b['p17-clang']=c.exe('p17-clang',['p17.cpp'],cxx='clang++',opt='-O3'); b['p17-asan']=c.exe('p17-asan',['p17.cpp'],opt='-O1',flags=['-fsanitize=address,undefined','-fno-sanitize-recover=all'])
    return b
def check(c):
    b=build(c)
    for k in b:
        if c.api(b[k],'copying, moving and assigning objects'): c.run(b[k],tier='quick' if k=='p17-asan' else None)
    return c.finish(rule='an object that was copied (construction, assignment over another state, move, swap, vector growth and insertion, by value, optional, self-assignment) and its copy continue as one that was never copied, whatever is done with the other one and in every order',bounds='all legal histories of depth %d x prior states of the target of depth 2 x continuations of depth %d x 4 fates of the other object x 3 orders, every algorithm and backend'%((4,2) if c.thorough else (3,2)))
