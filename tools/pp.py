#!/usr/bin/env python3
"""pretty print the dumped MIR of functions matching a pattern"""
import json,sys,re,glob
D=sys.argv[1]; pat=sys.argv[2]
for f in sorted(glob.glob(D+'/*.json')):
    j=json.load(open(f)); T=j['types']
    def ts(i,d=0):
        t=T[i]; k=t['k']
        if d>3: return '..'
        if k=='adt': return t['path'].split('::')[-1]+('<'+','.join(ts(a,d+1) for a in t['args'])+'>' if t.get('args') else '')
        if k in('ref','ptr'): return ('&' if k=='ref' else '*')+('mut ' if t.get('m') else '')+ts(t.get('t',t.get('ty')),d+1)
        if k=='tuple': return '('+','.join(ts(a,d+1) for a in t['ts'])+')' if 'ts' in t else str(t)
        return k+':'+str(t.get('name') or t.get('n') or t.get('path') or '')
    for fn in j['fns']:
        if not re.search(pat,fn['path']): continue
        print('=====',fn['path'],{k:v for k,v in fn.items() if k not in('body','promoted','path')})
        b=fn['body']
        if not b: continue
        for i,t in enumerate(b['locals']):
            print('  _%d: %s'%(i,json.dumps(T[t])[:150]), )
        print('  names',b['names'])
        for i,bl in enumerate(b['blocks']):
            if bl.get('cleanup'): continue
            print('  bb%d:'%i)
            for s in bl['s']: 
                print('     ',json.dumps(s)[:400])
            print('     ->',json.dumps(bl['t'])[:700])
