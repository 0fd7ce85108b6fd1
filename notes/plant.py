# plant(id, prop, file, [(old,new)...], needs, breaks, demo): edit the scratch copy, write the seed
import subprocess,os,sys
W=os.environ.get("W","/tmp/wt")
only=set(sys.argv[1:])
def plant(id,prop,edits,needs,breaks,demo):
    if only and id not in only: return
    if not only and os.path.exists(f"/verif/seeded/{id}/patch.diff"): return
    subprocess.run(["git","-C",W,"checkout","-q","--","."],check=True)
    for f,old,new in edits:
        p=f"{W}/packages/{f}"; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    subprocess.run(["bash","/verif/notes/mkseed.sh",id,prop,needs,breaks],input=demo,text=True,check=True)
    print(id)
