import json, sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
for s in d['coverage']['samples'][:int(sys.argv[2]) if len(sys.argv)>2 else 12]:
    print(s['task'], s['wall'], s['stats']['paths'], s['stats']['solver_s'])
