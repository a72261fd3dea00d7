#!/usr/bin/env python3
"""Compact print of one body (debug aid)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
from load import *
def P(p): 
    s='_%d'%p[0]
    for e in p[1]:
        s += '.*' if e=='*' else '.'+'/'.join(map(str,e)) 
    return s
def O(o):
    if o[0]=='k':
        k=o[1]
        return 'fn '+k['fn'] if isinstance(k,dict) else 'K'+str(k)[:100]
    return o[0]+' '+P(o[1])
if __name__=='__main__':
    pr=Prog()
    D=sys.argv[1]
    for f in sorted(os.listdir(D)):
        if 'Rlib' in f: pr.load(os.path.join(D,f))
    for bid in pr.find(sys.argv[2]):
        B=pr.bodies[bid]
        print(bid,'args',B.argc,'up',B.upvars,'cor',B.coroutine, 'spread',B.spread)
        for i,l in enumerate(B.locals): print('  _%d %s: %s'%(i,B.names[i],str(l)[:110]))
        for i,(st,t,c) in enumerate(B.blocks):
            if c: continue
            print(' bb%d:'%i)
            for s in st:
                if s[0]=='=':
                    r=s[2]; 
                    print('   ',P(s[1]),'=',r[0],*[ (O(x) if isinstance(x,tuple) and x and x[0] in('c','m','k','copy','move') else P(x) if isinstance(x,tuple) and len(x)==2 and isinstance(x[0],int) else str(x)[:90]) for x in r[1:]])
            x={k:v for k,v in t.items() if k not in('k','l','f','a','d','p','o','ty','dt','u','fl')}
            print('   ',t['k'], P(t['d'])+' =' if 'd' in t else '', O(t['f']) if 'f' in t else '', [O(a) for a in t.get('a',())], P(t['p']) if 'p' in t else '', O(t['o']) if 'o' in t else '', x)
