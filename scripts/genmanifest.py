import json,os,sys
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
AI="abstract interpretation of the SSA form (symbolic linear domain, joins and widening)"
claimed={
"C01":(AI+": every index, slice, nil, assertion, division and panic site is a proof obligation","Sound for all inputs over the modelled Go subset; library models and the Go type checker are trusted."),
}
na={}
extra=os.path.join(here,"scripts","claims.json")
if os.path.exists(extra):
    d=json.load(open(extra)); claimed={k:tuple(v) for k,v in d["claimed"].items()}; na=d["na"]
    claimed={k:(v[0].replace("@AI",AI),v[1]) for k,v in claimed.items()}
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,"setup_cmd":"./check.sh setup","checks":[],"not_applicable":[],
"notes":"No hooks: the checks read /repo's source only. gzcheck/ is the analyser; check.sh builds it when needed."}
for i in ids:
    if i in claimed:
        t,n=claimed[i]
        m["checks"].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"check not built yet")})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"claimed",len(m["not_applicable"]),"n/a")
