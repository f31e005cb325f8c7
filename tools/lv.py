import json,sys
L=json.load(open('/verif/tools/levels.json')); L[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(L,open('/verif/tools/levels.json','w'),indent=1)
