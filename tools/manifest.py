import json,re,importlib,sys,os
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
L=[json.loads(l) for l in open('/verif/properties.jsonl')]
import matplotlib; matplotlib.use('Agg')
checks=[]
for d in L:
    mod=importlib.import_module('mc.checks.'+d['id'].lower())
    histories='histories' in d['quantifier']['over']
    tech=("explicit-state exploration of call histories on the real objects, compared step by step with a reference model" if histories
          else "bounded exhaustive enumeration of inputs and options on the real code, compared with a reference model")
    if d['id']=='C28': tech="exhaustive exploration of call histories in forked processes, compared with fresh-process results"
    if d['id']=='C14': tech="exhaustive enumeration of axes, spectra and (stubbed) random phase draws, compared with a reference model"
    if d['id']=='C29': tech="stateless model checking: every schedule of two real threads with one or two preemptions under a controlled scheduler"
    if d['id']=='C30': tech="exhaustive fault injection: a failure at every failing point of every call, later histories compared with a fresh process"
    if d['id']=='C24': tech="exhaustive enumeration of a symmetry group acting on bounded inputs, relations checked on the real code"
    checks.append({"property":d['id'],"quick_cmd":f"bash bin/check {d['id']} quick","thorough_cmd":f"bash bin/check {d['id']} thorough",
      "technique":tech,"level":"model_checking",
      "level_note":"Every case of the listed finite spaces is executed on the code in /repo and compared with an independent model: "
        +"; ".join(f"{s.name}: {re.sub(' +',' ',s.bound)}" for s in mod.SPACES)+". Assumes: "+"; ".join(mod.ASSUMPTIONS)+". Nothing is claimed for values outside these spaces."})
m={"version":1,"setup_cmd":"bash bin/setup","checks":checks,"not_applicable":[],
   "notes":"All checks explore the real Python code; no hooks in /repo are needed. bin/replay FILE replays a violation. known_findings.jsonl lists the repaired defects (fixed: lines); there are no open findings."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
