"""MIR printer for debugging: python3 -m eng.show dump.json path"""
import sys, json
from .interp import Program
def main():
    p=Program(sys.argv[1])
    for i in p.find(sys.argv[2]):
        x=p.inst[i]; print(i,x['name'])
        b=x.get('body')
        if not b: continue
        for n,l in enumerate(b['locals']): print('  _%d: %s %s'%(n,p.tname(l),''))
        for n,(ss,t,sp) in enumerate(b['blocks']):
            print(' bb%d:'%n)
            for s in ss: print('   ',json.dumps(s)[:300])
            t=list(t)
            if t[0]=='call': t[2]=p.tname(t[2])[:200]
            print('   ->',json.dumps(t)[:300], p.span(sp))
main()
