"""usage: seed.py spec.py  -- spec defines list SEEDS of dicts id, property, file, edits[(old,new)], demo, needs, breaks"""
import sys,os,subprocess,json,shutil
spec={}
exec(open(sys.argv[1]).read(),spec)
only=set(sys.argv[2:])
WT='/tmp/wt'
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    shutil.rmtree(WT,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',WT],check=True)
    for f,old,new in s['edits']:
        p=f'{WT}/src/mssm/{f}'; t=open(p).read()
        n=t.count(old)
        if n!=1: print(s['id'],'EDIT COUNT',n,old[:60]); break
        open(p,'w').write(t.replace(old,new))
    else:
        d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        diff=subprocess.run(['git','-C',WT,'diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write(s['demo'].lstrip())
        open(d+'/demo.sh','w').write('''#!/bin/bash
# run with the repository as working directory
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
PYTHONPATH="$PWD/src" TMPDIR="$scratch" SCRATCH="$scratch" timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        a=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
        if s.get('build'):
            bs=open('/opt/vp/build.sh').read().replace('/repo',WT).split('cd /\n')[0]
            print(subprocess.run(['bash','-c',bs],capture_output=True,text=True).stderr[-300:])
        b=subprocess.run(['bash',d+'/demo.sh'],cwd=WT,capture_output=True,text=True)
        print(s['id'],s['property'],'clean',a.returncode,'bug',b.returncode,'' if a.returncode==0 and b.returncode else (a.stderr+a.stdout+b.stdout+b.stderr)[-400:])
        if s.get('check',1):
            c=subprocess.run(['python3-vt','/verif/run.py',s['property'],'--repo',WT],capture_output=True,text=True)
            v=[l for l in c.stdout.splitlines() if 'VIOLATION' in l or l.startswith('undecided') or '.py:' in l]
            print('   check rc',c.returncode,'|'.join(v)[:300],c.stderr[-200:])
shutil.rmtree(WT,ignore_errors=True)
