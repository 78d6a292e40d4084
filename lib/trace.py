"""table of the memory operands of every instruction of an executable, for lib/trace.h"""
import re, struct, subprocess
REG={}
for i,n in enumerate(['r8','r9','r10','r11','r12','r13','r14','r15','di','si','bp','bx','dx','ax','cx','sp','ip']):
    if n.startswith('r'): REG[n]=i; REG[n+'d']=i
    else: REG['r'+n]=i; REG['e'+n]=i
READS={'cmp','test','bt','call','jmp','push','mul','div','idiv','ptest','vptest','ucomiss','ucomisd','comiss','comisd','vucomiss','vucomisd','fld','fild','ldmxcsr','vldmxcsr','fldcw','notrack','bnd','fadd','fmul','fsub','fdiv','fcom','fcomp','cmpb'}
NONE=('lea','nop','prefetch','data16','cs','xchg   ax,ax','endbr','clflush','nopw','nopl')
INS=re.compile(r'^\s*([0-9a-f]+):\t(.*)$')
MEM=re.compile(r'(?:(fs|gs|ds|es|ss|cs):)?\[([^\]]*)\]')
ABS=re.compile(r'\b(fs|gs|ds):0x([0-9a-f]+)')
PRE={'rep','repz','repnz','lock','bnd','notrack','data16','rex.W','xacquire','xrelease','repe','repne'}
def expr(e):
    b=i=-1;s=1;d=0
    for t in re.findall(r'[+-]?[^+-]+',e.replace(' ','')):
        neg=t.startswith('-'); t=t.lstrip('+-')
        if '*' in t:
            r,k=t.split('*')
            if r in('riz','eiz'): continue
            i=REG.get(r,-2); s=int(k)
        elif t in REG:
            if b<0: b=REG[t]
            else: i=REG[t]
        elif t.startswith('0x') or t.isdigit(): d=int(t,0)*(-1 if neg else 1)
        elif t in('riz','eiz'): pass
        else: raise ValueError(e)
    return b,i,s,d
def operands(m,text):
    """list of (base,index,scale,disp,seg,write)"""
    w=text.split(None,1); 
    while w and w[0] in PRE and len(w)>1: text=w[1]; w=text.split(None,1)
    if not w: return []
    mn=w[0]; ops=w[1] if len(w)>1 else ''; ops=ops.split('#')[0].split(' <')[0]
    r=[]
    if mn.startswith(NONE): return r
    pos=[x for x in MEM.finditer(ops)]
    for x in pos:
        try: b,i,s,d=expr(x.group(2))
        except ValueError: continue
        if i==-2: continue
        first=',' not in ops[:x.start()]
        wr=first and mn not in READS and not mn.startswith(('f','cmp'))or (first and mn.startswith(('fst','fist','fnst','cmpxchg')))
        if mn.startswith(('cmps','scas','lods')): wr=False
        r.append((b,i,s,d,{'fs':1,'gs':2}.get(x.group(1),0),1 if wr else 0))
    for x in ABS.finditer(ops):
        first=',' not in ops[:x.start()]
        r.append((-1,-1,1,int(x.group(2),16),{'fs':1,'gs':2}.get(x.group(1),0),1 if first and mn not in READS else 0))
    if mn in('push','call','pushf'): r.append((15,-1,1,-8,0,1))
    elif mn in('pop','ret','popf'): r.append((15,-1,1,0,0,0))
    elif mn=='leave': r.append((10,-1,1,0,0,0))
    return r[:2]
def table(exe,out):
    t=subprocess.run(['objdump','-d','-M','intel','--no-show-raw-insn',exe],stdout=subprocess.PIPE,check=True).stdout.decode()
    ins=[]
    for l in t.splitlines():
        x=INS.match(l)
        if x: ins.append((int(x.group(1),16),x.group(2).strip()))
    lo=ins[0][0]; hi=ins[-1][0]+16
    # the address of the next instruction, for operands relative to rip
    recs=[(0,)*0]; idx={}
    tab=bytearray(4*(hi-lo)); out_recs=bytearray(struct.pack('<bbbBBBBBq',-1,-1,1,0,0,0,0,0,0)*2)
    n=1
    for k,(a,x) in enumerate(ins):
        nxt=ins[k+1][0] if k+1<len(ins) else a
        ops=operands(x.split(None,1)[0] if x else '',x)
        if not ops: struct.pack_into('<I',tab,4*(a-lo),0xffffffff); continue
        rec=b''
        for b,i,s,d,seg,w in ops:
            if b==16: b=-1; d+=nxt
            d=(d+2**63)%2**64-2**63
            rec+=struct.pack('<bbbBBBBBq',b,i,s,1,seg,w,0,0,d)
        if len(ops)==1: rec+=struct.pack('<bbbBBBBBq',-1,-1,1,0,0,0,0,0,0)
        if rec not in idx: idx[rec]=n; out_recs+=rec; n+=1
        struct.pack_into('<I',tab,4*(a-lo),idx[rec])
    with open(out,'wb') as f: f.write(struct.pack('<QQQ',lo,hi,n)); f.write(tab); f.write(out_recs)
    return len(ins)
