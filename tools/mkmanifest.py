#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the table below; keeps it in step with properties.jsonl.
import json, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
T="deterministic simulation with fault injection"
checks={}
exec(open(R+'/tools/checks.py').read())
NA={
'C15':"pure function of text, lexicon and matrix: no schedule, clock, fault or history in it",
'C16':"pure function of text and rewrite definition: no schedule, clock, fault or history in it",
'C17':"pure function of text, mode and dictionary (that concurrent or later splits do not disturb it is C01/C03)",
'C18':"pure function of text and rewrite definition: no schedule, clock, fault or history in it",
'C19':"pure function of text and definitions: no schedule, clock, fault or history in it",
'C20':"pure function of the path: no schedule, clock, fault or history in it",
'C21':"pure function of key set and query (that a dictionary file gives back its headwords through builds, conversions and restarts is C08)",
'C22':"pure function of the settings documents (half-read settings are C06, failing loads C14)",
}
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: the simulator instruments a generated copy of /repo's sources (see DESIGN.md)."}
for p in props:
    i=p['id']
    if i in checks:
        m['checks'].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash /verif/check.sh {i}",
        "evidence_file":f"evidence/{i}.json","technique":T+": "+checks[i][0],"level":"exploration","level_note":checks[i][1]})
    else:
        m['not_applicable'].append({"property":i,"reason":NA.get(i,"check under construction")})
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
