import json,sys
from collections import Counter
c=Counter()
for f in json.load(open('/verif/work/%s/replay.json'%sys.argv[1])):
    r=f['record']
    key=(tuple(f['clauses']), r.get('kind'), r.get('case') or (r.get('tag') or '').split('_')[0])
    c[key]+=1
    if len(sys.argv)>2 and c[key]<=int(sys.argv[2]) and len(c)<6: print(json.dumps(f)[:1500])
for k,n in c.most_common(25): print(n,k)
print(len(c),'groups')
