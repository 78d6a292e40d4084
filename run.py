#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] | run.py PROPERTY --replay FILE"""
import importlib, json, os, sys, traceback
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'lib'))
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'checks'))
sys.dont_write_bytecode=True
import vf
def main():
    prop=sys.argv[1]
    m=importlib.import_module(prop)
    if len(sys.argv)>3 and sys.argv[2]=='--replay':
        d=json.load(open(sys.argv[3])); c=vf.Check(prop,d.get('tier','quick'))
        if 'choices' not in d: print(json.dumps(d,indent=1)); print('replay: run the check again'); return 0
        f=m.build(c)[d['harness']]
        r=c.sh([f.result() if hasattr(f,'result') else f,'--replay',os.path.abspath(sys.argv[3])],timeout=600)
        print(r.stdout.decode(errors='replace')); c.close(); return r.returncode
    tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    c=vf.Check(prop,tier,getattr(m,'LEVEL','model_checking'))
    try: r=m.check(c)
    except vf.BuildError as e:
        if c.viol: r=c.finish()
        else:
            print('check error: '+str(e)); c.close(); return 2
    except Exception:
        traceback.print_exc(); c.close(); return 1 if c.viol else 2
    return r
if __name__=='__main__':
    r=main(); sys.stdout.flush(); os._exit(r)
