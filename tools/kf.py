"""kf.py PROP HASH 'what failed' -- record a fixed defect"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
prop, h, what = sys.argv[1:4]
d.append({"property": prop, "fixed": True,
          "entry": f"fixed: property={prop} {h} {what}", "what": what})
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
