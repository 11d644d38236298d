import sys, os, json, subprocess, shutil, glob
R='/tmp/plant/repo'
def sh(*a, **k): return subprocess.run(a, cwd=R, **k)
def make(id, prop, needs, breaks, edits, demo):
    sh('git','checkout','-q','--','.')
    for f, old, new in edits:
        p=R+'/'+f
        s=open(p,newline='').read().replace('\r\n','\n')
        assert s.count(old)==1, (id, f, s.count(old), old)
        s=s.replace(old,new).replace('\n','\r\n')
        open(p,'w',newline='').write(s)
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','diff'],cwd=R,stdout=subprocess.PIPE,check=True).stdout
    # the removed lines have to be lines of the original repository
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.py','w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom common import *\n'+demo.lstrip('\n'))
    shutil.copy('/verif/tools/plant/common.py',d+'/common.py'); shutil.copy('/verif/tools/plant/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    sh('git','checkout','-q','--','.')
if __name__=='__main__':
    want=sys.argv[1:]
    ns={}
    for f in sorted(glob.glob('/verif/tools/plant/bugs/*.py')):
        id=os.path.basename(f)[:-3]
        if want and id not in want: continue
        g={}; exec(open(f).read(),g)
        make(id,g['prop'],g['needs'],g['breaks'],g['edits'],g['demo'])
        print('made',id)
