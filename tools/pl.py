import subprocess,sys,json,os,tempfile,shutil
# dev helper: plant(id, [(file, old, new)...], property, needs, breaks) writes seeded/<id>/patch.diff + meta.json (edits a scratch copy)
def plant(id, edits, prop, needs, breaks):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True); w=tempfile.mkdtemp()
    try:
        subprocess.run(f'git clone -q /repo {w}/r',shell=True,check=True)
        for f,old,new in edits:
            p=f'{w}/r/'+f; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old)); open(p,'w').write(s.replace(old,new))
        open(d+'/patch.diff','w').write(subprocess.run(f'git -C {w}/r diff',shell=True,capture_output=True,text=True).stdout)
    finally: shutil.rmtree(w)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
