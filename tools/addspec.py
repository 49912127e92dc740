import json,sys
p='/verif/props/specs.json'; s=json.load(open(p))
s[sys.argv[1]]=json.loads(sys.argv[2])
json.dump({k:s[k] for k in sorted(s)},open(p,'w'),indent=1)
