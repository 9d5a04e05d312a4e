import json,sys
sys.path.insert(0,'/verif')
from props import PROPS
titles=[json.loads(l) for l in open('/verif/properties.jsonl')]
note=("Exhaustive TLC model checking of the TLA+ specification within its constants, and validation by TLC of every "
 "recorded implementation event against it; holds on the inputs explored. Trusts TLC, the decimal arithmetic of spec/java/Real.java "
 "(self-tested) and the shim of the crate `spaces` that the repository does not carry.")
NA=json.load(open('/verif/na.json')) if __import__('os').path.exists('/verif/na.json') else {}
m=dict(version=1,setup_cmd="./check --setup",checks=[],not_applicable=[],
 notes="TLA+ specifications in spec/, executors in harness/, runner in check, per-property configuration in props.py.")
for t in titles:
    i=t['id']
    if i in PROPS:
        m['checks'].append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
          evidence_file=f"evidence/{i}.json",technique="TLA+ specification: TLC model checking, model-generated inputs replayed into the code, trace validation by TLC",
          level="model_checking",level_note=note))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"not claimed yet: its part of the specification is not built")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
