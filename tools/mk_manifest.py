"""writes MANIFEST.json from properties.jsonl, contracts/groups.txt and the notes below"""
import json
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
groups={l.split(':')[0]:l.split(':')[1].split() for l in open(V+'/contracts/groups.txt')}
T='contract-based deductive verification of the real code: contracts in Rust over the MIR rustc generates from /repo, obligations discharged by polynomial normalisation and z3 (cvc5 cross-check in the thorough tier)'
REAL='f64 arithmetic is treated as exact real arithmetic (NaN and infinities kept), partial correctness, no drops'
NOTE={}
NA={}
exec(open(V+'/tools/notes.py').read())
m={'version':1,'setup_cmd':'bash tools/setup.sh','checks':[],'hooks':{'guard':'none','enable':'no hooks: the contracts live in /verif/contracts and reach the real code through its public traits','source_commits':[]},'not_applicable':[],'notes':'see DESIGN.md'}
for p in props:
    i=p['id']
    if i in groups:
        m['checks'].append({'property':i,'quick_cmd':f'python3-vt engine/check.py {i}','thorough_cmd':f'python3-vt engine/check.py {i} --tier thorough','technique':T,'level':'proof','level_note':NOTE.get(i,'')+(' ' if i in NOTE else '')+REAL+'.'})
    else:
        m['not_applicable'].append({'property':i,'reason':NA[i]})
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks',[x['property'] for x in m['not_applicable']])
