"""open.py KEY-REGEX: drop matching keys from open.json (development aid)"""
import json, re, sys
p = '/verif/overlay/open.json'
d = json.load(open(p))
n = {k: v for k, v in d.items() if not re.search(sys.argv[1], k)}
print('removed', sorted(set(d) - set(n)))
json.dump(n, open(p, 'w'), indent=0)
