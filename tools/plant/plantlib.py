import json,os,subprocess,sys
SH='''#!/bin/bash
# run in the repository's root
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY "$(dirname "$0")/demo.py"
'''
HEAD='''import os
import sys
sys.path.insert(0, os.getcwd())
'''
def run(d,dd):
    return subprocess.run(['bash',os.path.join(d,'demo.sh')],cwd=dd,capture_output=True,text=True)
def plant(id,prop,file,edits,needs,breaks,demo):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w='/tmp/w/'+id
    subprocess.run(['rm','-rf',w]);subprocess.run(['cp','-a','/repo',w],check=True)
    if isinstance(file,str): edits=[(file,o,n) for o,n in edits]
    for f,o,n in edits:
        s=open(w+'/'+f).read()
        if s.count(o)!=1:
            print(id,'FAIL: count',s.count(o),repr(o)); return
        open(w+'/'+f,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(HEAD+demo.lstrip('\n'))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    a=run(d,'/repo'); b=run(d,w)
    print(id,'clean rc',a.returncode,'patched rc',b.returncode, (a.stderr[-300:] if a.returncode else ''), b.stderr.strip().splitlines()[-1:] )
TINY=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'tiny.py')).read()
_p=plant
def plant(id,prop,file,edits,needs,breaks,demo):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    if 'from tiny import' in demo:
        open(d+'/tiny.py','w').write(TINY)
        demo='sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'+demo
    _p(id,prop,file,edits,needs,breaks,demo)
