"""Writes MANIFEST.json: every property with a module in sim/props is claimed."""
import json, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
NA={"N01":"A response is a pure function of the filter's coefficients and the frequency: no schedule, clock, I/O, network, crash or history can change it, so a simulator has nothing to decide; it calls for input-space techniques.",
"N02":"Parsing a date text is a pure function of the text: nothing in a simulated environment can influence it (the clock and zone independence of what is read is covered by C14).",
"N03":"Conversions of angles and unit names are pure functions of their argument; nothing in a simulated environment can influence them (their use inside file round trips is covered by C02-C05)."}
try:
    from importlib.machinery import SourceFileLoader
    notes=SourceFileLoader("levels",R+"/tools/levels.py").load_module().NOTES
except FileNotFoundError:
    notes={}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in notes and os.path.exists(f"{R}/sim/props/{i.lower()}.py"):
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough",
          "technique":notes[i]["technique"],"level":"exploration","level_note":notes[i]["note"],"evidence_file":f"evidence/{i}.json"})
    else:
        na.append({"property":i,"reason":NA.get(i,"Not claimed yet: its simulation is not built.")})
m={"version":1,"setup_cmd":"./setup","hooks":{"guard":"none","enable":"No hooks in /repo: every seam is outside it (libc shim, http.client, sys.monitoring); checks import /repo's working tree directly.","source_commits":[]},
   "checks":checks,"not_applicable":na,
   "notes":"Seeded simulation; see DESIGN.md. Known findings: known_findings.json."}
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
