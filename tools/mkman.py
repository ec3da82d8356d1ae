import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=sorted(f[2:-3].upper() for f in os.listdir('/verif/sim') if f.startswith('w_'))
tech="deterministic simulation with fault injection"
notes=json.load(open('/verif/tools/notes.json')) if os.path.exists('/verif/tools/notes.json') else {}
na=[]; checks=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":tech,"level":"exploration","level_note":"seeded search over simulated histories, schedules and faults; no exhaustiveness claimed"})
    elif i=="C16":
        na.append({"property":i,"reason":"Rewriting one operator word is a pure, single-threaded function of its arguments: no schedule, clock, I/O, history or fault can influence it, so a simulator has nothing to decide. What a program observes of it (identity of moments, whatever was looked up before) is C15."})
    else:
        na.append({"property":i,"reason":"check under construction"})
json.dump({"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
