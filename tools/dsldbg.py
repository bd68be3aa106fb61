"""dsldbg.py <replay.json>: shows the program and data of the rejected execution."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import re
r = json.load(open(sys.argv[1]))
t = json.load(open(r["detail"]["trace"]))
i = re.search(r'test \|-> "([^"]+)"', r["what"]).group(1)
for x in t:
    if x["id"] == i:
        ev = int(re.search(r'event \|-> (\d+)', r["what"]).group(1))
        print(r["what"]); print(json.dumps(x["sh"])); print("s", x["s"])
        for e in x["events"][:ev]:
            print(json.dumps(e["stms"]))
        print("before", x["mem"] if ev == 1 else x["events"][ev - 2]["post"]); print("after", x["events"][ev - 1]["post"])
