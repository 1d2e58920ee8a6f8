import json,sys
for p in sys.argv[1:]:
    c=json.load(open('/verif/evidence/%s.json'%p))['coverage']
    for x in c['samples']: print(x[:220])
