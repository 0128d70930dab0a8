"""Confirm a planted change in a scratch copy and store it under seeded/<id>/.
  plant.py SPEC.py     SPEC defines: ID, PROP, EDITS=[(file, old, new)], DEMO (body of demo.mts), NEEDS, BREAKS, [TESTS='dirs' to run first]
demo.mts gets `repo(path)` = dynamic import from the tree under test and must exit non-zero on the broken behaviour."""
import sys,os,subprocess,json,shutil,runpy
V='/verif';C='/tmp/plant/repo'
def sh(c,cwd=C,t=600): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
if not os.path.exists(C): os.makedirs('/tmp/plant',exist_ok=True); subprocess.run(['cp','-a','/repo',C],check=True)
head=sh('git rev-parse HEAD','/repo').stdout.strip()
sh('git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard '+head)
PRE='''import { join } from "node:path";
const repo = (p: string): Promise<any> => import(join(process.cwd(), p));
const check = (ok: unknown, what: string): void => { if (!ok) { console.error("FAILED: " + what); process.exit(1); } };
'''
RUN='''#!/bin/bash
# run with cwd = the repository root; exits non-zero when the behaviour is broken
D="$(cd "$(dirname "$0")" && pwd)"
for L in "$PWD/node_modules/tsx/dist/loader.mjs" /opt/veriftools/node/node_modules/tsx/dist/loader.mjs; do [ -e "$L" ] && break; done
export TMPDIR="$(mktemp -d)"; trap 'rm -rf "$TMPDIR"' EXIT
timeout 250 node --no-warnings --import "file://$L" "$D/demo.mts"
'''
def one(spec):
    s=runpy.run_path(spec); id=s['ID']; d=f'{V}/seeded/{id}'
    os.makedirs(d,exist_ok=True)
    if './tree.ts' in s['DEMO']: shutil.copy(V+'/lib/tree.ts',d+'/tree.ts')
    open(d+'/demo.mts','w').write(PRE+s['DEMO']); open(d+'/demo.sh','w').write(RUN); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=s['PROP'],needs=s['NEEDS'],what_it_breaks=s['BREAKS']),open(d+'/meta.json','w'),indent=1)
    r=sh(f'bash {d}/demo.sh')
    if r.returncode!=0: print(id,'DEMO FAILS ON CLEAN TREE',r.stdout[-800:],r.stderr[-1500:]); return False
    for f,o,n in s['EDITS']:
        t=open(f'{C}/{f}').read()
        if t.count(o)!=1: print(id,'edit matches',t.count(o),'times in',f); return False
        open(f'{C}/{f}','w').write(t.replace(o,n))
    diff=sh('git diff').stdout; open(d+'/patch.diff','w').write(diff)
    r=sh(f'bash {d}/demo.sh'); ok=r.returncode!=0
    if not ok: print(id,'DEMO DOES NOT FAIL WITH THE PATCH'); return False
    print(id,'demo:',r.stderr.strip()[-200:])
    ty=sh('npx --no-install tsc --noEmit -p .').stdout
    bad=[l for l in ty.splitlines() if any(l.startswith(f+'(') for f,_,_ in s['EDITS'])]
    if bad: print(id,'TYPES',bad[:5]); return False
    if s.get('QUICK'):
        r=sh('npx --no-install vitest run '+s['QUICK']); 
        if r.returncode: print(id,'TESTS FAIL',r.stdout[-1500:]); return False
    r=sh('. /opt/vp/install/env.sh; cd '+C+'; rm -f /tmp/plant/v.json; npx --no-install vitest run --reporter=json --outputFile=/tmp/plant/v.json; python3 /opt/vp/results.py /tmp/plant/r.json jest:/tmp/plant/v.json')
    res=json.load(open('/tmp/plant/r.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    strip=lambda x:x.replace('../tmp/plant/repo/','')
    miss=sorted(st-set(map(strip,res['passed'])))
    if miss: print(id,'STABLE TESTS NOT PASSING',len(miss),miss[:6]); return False
    print(id,'CONFIRMED'); return True
def catch(id,prop):
    # run the check, as it stands in /verif, against the scratch copy with the change applied
    D='/tmp/plant/v'; subprocess.run(['rm','-rf',D]); os.makedirs(D)
    sh(f'cp -a check lib checks known-findings.txt package.json properties.jsonl MANIFEST.json {D}/',V)
    sh("grep -rlE '/repo' lib checks | xargs sed -i 's#/repo/#/tmp/plant/repo/#g; s#\"/repo\"#\"/tmp/plant/repo\"#g'",D)
    r=sh(f'git apply {V}/seeded/{id}/patch.diff')
    if r.returncode: print(id,'apply failed',r.stderr); return
    try: r=sh(f'VERIF_SEED=1 VERIF_TIER=quick timeout 300 ./check {prop}',D); print(id,'CAUGHT' if r.returncode==1 and f'VIOLATION property={prop}' in r.stdout else f'MISSED (exit {r.returncode})', [l for l in r.stdout.splitlines() if 'cases' in l][-1:],flush=True)
    finally: sh('git checkout -q -- .')
for spec in sys.argv[1:]:
    if spec.startswith('catch:'):
        id=spec[6:]; catch(id,json.load(open(f'{V}/seeded/{id}/meta.json'))['property']); continue
    s=runpy.run_path(spec)
    ok=False
    try: ok=one(spec)
    finally: sh('git checkout -q -- .')
    if ok: catch(s['ID'],s['PROP'])
    else: shutil.rmtree(f"{V}/seeded/{s['ID']}",ignore_errors=True)
