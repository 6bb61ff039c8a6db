#!/usr/bin/env python3
"""list the callees of non-test functions in a MIR dump"""
import json,sys,glob,collections
D=sys.argv[1]; C=collections.defaultdict(set)
for f in sorted(glob.glob(D+'/*.json')):
    j=json.load(open(f)); T=j['types']
    for fn in j['fns']:
        b=fn['body']
        if not b or '::fmt' in fn['path'] : continue
        for bl in b['blocks']:
            t=bl['t']
            if bl.get('cleanup') or t['k']!='call': continue
            fo=t['f']
            if fo['k']=='const' and 'fn' in fo['c']:
                r=fo['c']['fn']; C[(r['crate'],r['path'],r.get('resolved') if r.get('resolved')!=r['path'] else None)].add(fn['name'] or fn['path'])
for k in sorted(C,key=str): print(k,sorted(C[k],key=str)[:4])
