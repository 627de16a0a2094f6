import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for c in e['coverage']['contracts']: print(c['contract'],c.get('wall_s'),c['strength'],c['note'],'gen',c.get('generated'),'und',c.get('undecided'),'ub',c.get('undecided_branches'),'cases',c.get('cases'),'runs',c.get('concrete_runs'),'complete',c.get('complete'))
