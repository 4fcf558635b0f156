#!/bin/bash
# fixed.sh <property> <what> "<commit subject>": commit the working change of /repo as a fix and record it.
cd /repo && bash /verif/tools/repotest.sh | grep -q 'missing \[\]' || { echo "tests fail"; exit 1; }
git commit -qam "fix: $3" && python3 - "$1" "$(git log -1 --format=%h)" "$2" <<'P'
import sys,json
p='/verif/known-findings.json'; s=open(p).read()
i=s.rindex('"\n ]'); s=s[:i+1]+',\n  "fixed: property=%s %s %s"'%tuple(sys.argv[1:])+s[i+1:]
json.loads(s); open(p,'w').write(s)
P
tail -4 /verif/known-findings.json
