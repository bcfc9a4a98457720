#!/bin/bash
# prove.sh NAME [SECS]: one proof against a prepared extraction in /tmp/w/src
python3-vt - "$@" <<'P'
import sys,os,json,subprocess,shutil,time
sys.path[:0]=['/verif/conc','/verif/ortv','/verif/specs']
import tools,cfront
d=os.environ.get('SRC','/tmp/w/src')
if not os.path.exists(d):
    t=tools.Tools('/repo'); cfront.extract(t.dir,d)
for n in sys.argv[1:]:
    t0=time.time()
    if os.path.exists(os.environ.get('PR','/tmp/w/pr.json')): os.unlink(os.environ.get('PR','/tmp/w/pr.json'))
    subprocess.run([sys.executable,'/verif/specs/worker.py',d,n,os.environ.get('PR','/tmp/w/pr.json'),"300"])
    r=json.load(open(os.environ.get('PR','/tmp/w/pr.json')))
    print(n,r['status'],r['why'],len(r['obl']),'obl %.1fs'%(time.time()-t0),r['stats'], 'inl',r.get('inlined'))
    for o in r['obl']:
        if not o['ok']: print('  FAIL',o['fn'],o['name'],o.get('line'),o['info'][:600])
P
