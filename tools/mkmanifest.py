#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC='model_checking'
T={
'P01':('explicit-state search over update sequences and exhaustive enumeration of lengths, alignments and call histories on the real code, against a FIPS 180-4 reference model',MC),
'P02':('explicit-state search over update sequences and exhaustive enumeration of key/message lengths and call histories on the real code, against an RFC 2104 reference model',MC),
'P03':('explicit-state search over update sequences, exhaustive corner-number products and call histories on the real code, against a big-integer reference model',MC),
'P04':('explicit-state search over derive sequences (stream offset x object state) on the real code, against an RFC 5869 reference model',MC),
'P05':('explicit-state search over derive sequences (stream offset x object state) on the real code, against an RFC 8018 reference model',MC),
'P06':('explicit-state search over call sequences (stream offset x object state), exhaustive alignment and counter products on the real code, against an RFC 8439 reference model',MC),
'P07':('explicit-state search over aad/text call sequences, exhaustive enumeration of lengths and operation orders on the real code, against an RFC 8439 reference model',MC),
'P08':('exhaustive fault enumeration: every single-bit and length corruption of every input, through every overload, on the real code',MC),
'P09':('exhaustive enumeration of inputs (every character at every place, every byte string up to a bound) on the real code, against a reference model',MC),
'P10':('exhaustive enumeration of inputs (every character at every place, all class strings up to a bound) on the real code, against a reference model',MC),
'P11':('exhaustive enumeration of overloads x container kinds x prior sizes x requested sizes on the real code, against a reference model',MC),
'P12':('exhaustive enumeration of sizes, alignments and chunkings between guard pages and under sanitizers on the real code',MC),
'P13':('exhaustive enumeration of bounded programs evaluated by the compiler and at run time, compared with each other and a reference model',MC),
'P14':('exhaustive enumeration of processor configurations (cpuid leaves, feature bits, os state) driving the real selection code',MC),
'P15':('exhaustive enumeration of calls (block counts, alignments) of every assembly function through register-checking thunks, both conventions',MC),
'P16':('exhaustive enumeration of call histories with a noninterference check of object storage after destruction, per compiler and optimization level',MC),
'P17':('exhaustive enumeration of pairs of object states x copy operations x continuations on the real code',MC),
'P18':('exhaustive enumeration of overloads x inputs x prior error states on the real code',MC),
'P19':('exhaustive fault injection: every allocation of every call fails once',"fault_enumeration"),
'P20':('exhaustive schedule exploration: preemption at every instruction of one thread by operations of another, on the real code',MC),
'P21':('exhaustive enumeration of tag differences with comparison of single-stepped instruction and address traces',MC),
'P22':('exhaustive enumeration of build configurations of the real library with comparison of results',MC),
'P23':('exhaustive enumeration of expressions up to a bound, run by the real application, against a reference matcher',MC),
'P24':('exhaustive enumeration of argument lists up to a bound, run by the real application, against a model of the documented tree',MC),
'P25':('exhaustive enumeration of measured durations and configurations under a virtual clock in the real application, against a model of the report',MC),
'P26':('exhaustive enumeration of secret values with comparison of single-stepped instruction and address traces',MC),
'P31':('explicit-state search and exhaustive enumeration of the whole library built for a 32 bit machine, against reference models',MC),
'P30':('exhaustive enumeration of calls x types, each decided by compiling it against the real headers, against a model of the documented types',MC),
'P29':('explicit-state search and exhaustive enumeration of the whole library built for a big endian machine, against reference models; memory layer against a byte model',MC),
'P28':('exhaustive enumeration of changed vectors and of single faults of an implementation, and of generated programs, on the real code against references',MC),
'P27':('exhaustive enumeration of digest sizes and of option sequences on the real code against reference models',MC),
}
LEVEL=json.load(open(os.path.join(V,'tools','levels.json'))) if os.path.exists(os.path.join(V,'tools','levels.json')) else {}
NA=json.load(open(os.path.join(V,'tools','na.json'))) if os.path.exists(os.path.join(V,'tools','na.json')) else {}
checks=[];na=[]
for p in sorted(T):
    if os.path.exists(os.path.join(V,'checks',p+'.py')) and p not in NA:
        checks.append({'property':p,'quick_cmd':'python3 run.py %s quick'%p,'thorough_cmd':'python3 run.py %s thorough'%p,'evidence_file':'evidence/%s.json'%p,'technique':T[p][0],'level':T[p][1],'level_note':LEVEL.get(p,'exhaustive within the bounds stated in DESIGN.md and in the evidence file; the deciding executions are those of the real code built from /repo')})
    else: na.append({'property':p,'reason':NA.get(p,'check not built yet')})
m={'version':1,'setup_cmd':'python3 tools/setup.py','checks':checks,'not_applicable':na,'notes':'run.py PROPERTY quick|thorough; replay a violation with run.py PROPERTY --replay FILE. Known findings and repaired defects: known-findings.txt'}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks,',len(na),'not claimed')
