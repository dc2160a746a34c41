#!/usr/bin/env python3
# Source of properties.jsonl: edit here, run, commit both.
import json,os
P=[]
def p(id,title,statement,qtext,over,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
exec(open(os.path.join(os.path.dirname(__file__),"props_data.py")).read())
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
