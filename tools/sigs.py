"""Short list of the violations of a check's last run: sigs.py ID [tier [WIDTH]]"""
import json, sys, os, time
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
w = int(sys.argv[3]) if len(sys.argv) > 3 else 120
p = f"/verif/.build/replay/{sys.argv[1]}-{tier}.json"
if not os.path.exists(p) or time.time() - os.path.getmtime(p) > 30: sys.exit("no recent violations")
for x in json.load(open(p)):
    print(x['count'], x['sig'], '|', x['msg'][:w])
