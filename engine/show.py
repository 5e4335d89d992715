"""show.py DUMP name-regex : prints MIR of matching functions"""
import sys,json,re
d=json.load(open(sys.argv[1])); T=d['types']
for i,f in enumerate(d['fns']):
    if re.search(sys.argv[2],f['name']):
        print('==',i,f['name'],f['kind'],'cut' if f.get('cut') else '','intr:'+f['intr'] if 'intr' in f else '')
        if 'blocks' not in f or '-b' not in sys.argv: continue
        for n,l in enumerate(f['locals']): print('   _%d: %s'%(n,T[l]['s']))
        for n,b in enumerate(f['blocks']):
            print('  bb%d:'%n)
            for s in b['s']: print('     ',json.dumps(s)[:300])
            t=b['t']
            if t[0]=='call' and t[1].get('o')=='k':
                ty=T[t[1]['c']['t']]; print('      CALL',ty.get('def'),ty.get('inst'),'->',d['fns'][ty['inst']]['name'] if ty.get('inst') is not None else None)
            print('     ',json.dumps(t)[:300])
