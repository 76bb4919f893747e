"""kf.py P key commit what: append a 'fixed' entry."""
import json, sys
p, key, commit, what = sys.argv[1:5]
open('/verif/known_findings.jsonl', 'a').write(json.dumps({"property": p, "status": "fixed", "key": key, "commit": commit, "what": "fixed: property=%s %s %s" % (p, commit, what)}, separators=(',', ':')) + "\n")
