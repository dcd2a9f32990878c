import json,sys
R=json.load(open(f'/verif/target/{sys.argv[1]}.json'))
for f,v in R['functions'].items(): print(f,v['tasks'],v['tasks_full'],'paths',v['paths'],'ob',v['obligations'],'unk',v['ob_unknown'],'tol',v['ob_tol'],'t',v['time'],v['slow'][:3] if v.get('slow') else '',v.get('cut_list',[])[:2])
