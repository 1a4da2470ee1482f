"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS : record a planted bug as a patch against /repo's HEAD (scratch copy /tmp/sw)"""
import sys,os,subprocess,json
def mk(id,prop,edits,needs,breaks,demo):
    sw='/tmp/sw'; subprocess.check_call(['git','-C',sw,'checkout','-q','--','.'])
    for f,o,n in edits:
        p=os.path.join(sw,f); s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o)); open(p,'w').write(s.replace(o,n))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',sw,'diff'],text=True))
    subprocess.check_call(['git','-C',sw,'checkout','-q','--','.'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d+'/demo.py','w').write(demo)
