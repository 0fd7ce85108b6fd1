# mkprop.py: read property definitions from notes/props/*.json-ish python dicts
import json,sys,os
def prop(id,title,statement,over,text,why,files,mech,note,level="proof",state=None,na=None):
    over=[{"faults":"fault_sequences","crash-points":"crash_points"}.get(o,o) for o in over]
    assert len(title)<=80,(id,len(title))
    d={"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":m.split("@")[0],"where":m.split("@")[1] if "@" in m else files[0]} for m in mech]},
       "level":level,"level_note":note}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if na: d["not_applicable"]=na
    os.makedirs(f"/verif/props/{id}",exist_ok=True)
    json.dump(d,open(f"/verif/props/{id}/property.json","w"),indent=1)
