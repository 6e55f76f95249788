#!/usr/bin/env python3
# tools/fixed.py PROP COMMIT "what failed": records a repaired defect
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p)); d.setdefault("fixed",[]).append("fixed: property=%s %s %s"%tuple(sys.argv[1:4])); json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
