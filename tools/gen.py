import json,re,os
from catalog import P
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try: from catalog import NA
except ImportError: NA=[]
with open(R+'/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        assert p['statement'].count('. ')<=2,(p['id'],'sentences')
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['q']),why_tests_cant=p['why'],
          anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']],**({'observe_at':p['observe']} if p['observe'] else {}),hook_needed=None)),ensure_ascii=False)+'\n')
na={p for p,_ in NA}
checks=[dict(property=p['id'],quick_cmd=f"./check {p['id']}",thorough_cmd=f"./check {p['id']} --tier thorough",technique="property-based testing with shrinking (fast-check) against an independent oracle",level="exploration",level_note=p['note']) for p in P if p['id'] not in na]
json.dump(dict(version=1,setup_cmd="./setup",checks=checks,not_applicable=[dict(property=a,reason=b) for a,b in NA]),open(R+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
d=open(R+'/tools/design_head.md').read()+'\n## Properties and how each is decided\n\n'
for p in P: d+=f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n*Quantifies over:* {p['q']}. *Anchored in:* {', '.join(f'`{x}`' for x in p['files'])}.\n\n*Decided by:* {p['decide']}\n\n*Why tests cannot:* {p['why']}\n\n*Trust and limits:* {p['note']}\n\n"
d+=open(R+'/tools/design_tail.md').read()
open(R+'/DESIGN.md','w').write(d)
print(len(P),'properties')
