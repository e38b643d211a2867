"""catches.py < output of runseeds.sh: remembers which planted bugs the checks catch"""
import json, os, re, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "catches.json")
d = json.load(open(f)) if os.path.exists(f) else {}
for l in sys.stdin:
    m = re.match(r"(\S+) rc=(\d+) (\d+)s", l)
    if m:
        d[m[1]] = "caught" if m[2] == "1" else "missed"
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
