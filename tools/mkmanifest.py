import json,sys
sys.path.insert(0,'/verif/tools')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH='contract-based deductive verification of the real code: contracts on the extracted functions, discharged by Verus; Kani/CBMC proofs and native execution of contracts as labelled stand-ins'
try: LEVEL=json.load(open('/verif/tools/levels.json'))
except FileNotFoundError: LEVEL={}
checks=[]
for p in props:
    i=p['id']
    l,n=LEVEL.get(i,('other','contracts proved by Kani/CBMC for stated instantiations and bounds, and executed natively'))
    checks.append({'property':i,'quick_cmd':f'python3 check.py {i} quick','thorough_cmd':f'python3 check.py {i} thorough','technique':TECH,'level':l,'level_note':n})
json.dump({'version':1,'setup_cmd':'python3 setup.py','hooks':{'guard':'','enable':'','source_commits':[]},'checks':checks,'not_applicable':[]},open('/verif/MANIFEST.json','w'),indent=1)
