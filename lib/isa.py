"""Instruction set extensions needed by each assembly function: control flow from its symbol over the disassembly,
each reachable instruction reassembled under growing architecture levels."""
import re, subprocess
LEVELS=['sse3','ssse3','sse4.1','sse4.2','avx','avx2']
def functions(objs):
    r={}
    for o in objs:
        for l in subprocess.run(['nm',o],stdout=subprocess.PIPE).stdout.decode().splitlines():
            p=l.split()
            if len(p)==3 and p[1]=='T': r[p[2]]=o
    return r
def disasm(obj):
    ins={};order=[];labels={}
    for l in subprocess.run(['objdump','-d','-w','--no-show-raw-insn',obj],stdout=subprocess.PIPE).stdout.decode().splitlines():
        m=re.match(r'([0-9a-f]+) <(.*)>:',l)
        if m: labels[m.group(2)]=int(m.group(1),16); continue
        m=re.match(r'\s*([0-9a-f]+):\s*(.*?)\s*(#.*)?$',l)
        if m: a=int(m.group(1),16); ins[a]=m.group(2).strip(); order.append(a)
    nxt={a:b for a,b in zip(order,order[1:])}
    return ins,nxt,labels
def reach(obj,sym):
    ins,nxt,labels=disasm(obj); seen=set(); todo=[labels[sym]]
    while todo:
        a=todo.pop()
        if a in seen or a not in ins: continue
        seen.add(a); t=ins[a]; op=t.split()[0] if t else ''
        m=re.search(r'\b(?:j\w+|call\w*|loop\w*)\s+([0-9a-f]+)\b',t)
        if op.startswith('j') and '*' in t: todo+=list(ins)           # computed jump: everything
        if m: todo.append(int(m.group(1),16))
        if op not in('ret','retq','jmp','jmpq','ud2','hlt') and a in nxt: todo.append(nxt[a])
    return [ins[a] for a in sorted(seen)]
def assemble_fails(lines,arch):
    src=arch+''.join('%s\n'%l for l in lines); base=arch.count('\n')
    r=subprocess.run(['as','-o','/dev/null','-'],input=src.encode(),stdout=subprocess.PIPE,stderr=subprocess.PIPE)
    bad=set()
    for l in r.stderr.decode().splitlines():
        m=re.match(r'.*?:(\d+): Error',l)
        if m: bad.add(int(m.group(1))-1-base)
    return bad
def needs(obj,sym):
    """set of extension names ('other' for any that is not in the list); SSE2 is part of x86-64"""
    lines=sorted({re.sub(r'<[^>]*>','',t) for t in reach(obj,sym) if t and not re.match(r'(j|call|loop|ret|nop|data16|cs nop|xchg\s+%ax,%ax)',t)})
    left=list(lines); n=set(); arch='.arch generic64\n.arch .nosse3\n'
    # everything that the assembler itself does not take back from its disassembler is no evidence
    odd=assemble_fails(left,'.arch generic64\n'+''.join('.arch .%s\n'%x for x in['avx2','sha','sse4.2','bmi','bmi2','adx','aes','pclmul','fma','f16c','movbe','popcnt','lzcnt','avx512f','avx512vl','avx512bw','avx512dq','gfni','vaes','vpclmulqdq','rdrnd','rdseed','xsave']))
    n_odd=[left[i] for i in odd]; left=[l for i,l in enumerate(left) if i not in odd]
    def drop(arch):
        nonlocal left
        bad=assemble_fails(left,arch); ok=[l for i,l in enumerate(left) if i not in bad]; left=[l for i,l in enumerate(left) if i in bad]; return ok
    drop('.arch generic64\n.arch .nosse3\n.arch .nosse4\n.arch .noavx\n.arch .sse2\n')
    for k,x in enumerate(LEVELS):
        if drop('.arch generic64\n'+''.join('.arch .%s\n'%y for y in LEVELS[:k+1])): n.add(x)
    if drop('.arch generic64\n.arch .sse2\n.arch .sha\n'): n.add('sha')
    if left: n.add('other:'+left[0])
    return n,len(lines),n_odd
