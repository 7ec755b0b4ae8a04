#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
claims=json.load(open(os.path.join(here,'claims.json')))
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    c=claims['checks'].get(p['id'])
    if c:
        checks.append({'property':p['id'],'quick_cmd':f"bash check.sh {p['id']}",
          'thorough_cmd':f"VERIF_TIER=thorough bash check.sh {p['id']}",
          'technique':c['technique'],'level':'model_checking','level_note':c['note']})
    else:
        na.append({'property':p['id'],'reason':claims['na'].get(p['id'],'no check built yet')})
m={'version':1,'setup_cmd':'bash build.sh; bash build_real.sh','hooks':{'guard':'cfg(ced_verif = "editor"), cfg(ced_verif = "server")',
   'enable':'RUSTFLAGS=\'--cfg ced_verif="editor" --cfg ced_verif="server"\' (set by /verif/build.sh)','source_commits':claims['hooks']},
   'checks':checks,'not_applicable':na}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
print(len(checks),'checks',len(na),'not claimed')
