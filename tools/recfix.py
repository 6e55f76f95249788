#!/usr/bin/env python3
# tools/recfix.py DEFAULTPROP [word=PROP ...]: records every "fix:" commit of /repo that known_findings.json misses
import json,subprocess,sys
p='/verif/known_findings.json'; d=json.load(open(p)); txt=json.dumps(d)
for l in reversed(subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()):
    h,s=l.split(' ',1)
    if s.startswith('fix:') and h not in txt:
        pr=sys.argv[1]
        for a in sys.argv[2:]:
            w,q=a.split('=')
            if w in s: pr=q
        d.setdefault("fixed",[]).append("fixed: property=%s %s %s"%(pr,h,s[5:])); print(d["fixed"][-1])
json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
