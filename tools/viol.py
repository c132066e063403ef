"""Print the violations of a check's last run: viol.py ID [tier [TAIL]]"""
import json, sys, os, time
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
p = f"/verif/.build/replay/{sys.argv[1]}-{tier}.json"
if not os.path.exists(p) or (time.time() - os.path.getmtime(p) > 20 and len(sys.argv) < 4): sys.exit("no recent violations")
r = json.load(open(p))
for v in r:
    v = v.get("violation", v)
    m = str(v.get("msg", v.get("what")))
    if len(m) > 1100:
        m = m[:300] + " ..... " + m[-800:]
    print(v.get("count"), v.get("id", v.get("case")), v.get("sig"), "|", m, "|", str(v.get("desc"))[:140])
