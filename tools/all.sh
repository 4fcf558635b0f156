#!/bin/bash
# Runs every registered check; prints the last line and the time of each.  Arguments: properties (default: all claimed)
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;[print(c['property']) for c in json.load(open('MANIFEST.json'))['checks']]" 2>/dev/null || python3 -c "
import json;m=json.load(open('MANIFEST.json'));print(' '.join(c.get('property') or c.get('property_id') or c['id'] for c in m['checks']))")}; do
  s=$(date +%s); o=$(timeout 900 python3 check.py $p 2>&1); r=$?
  echo "$p rc=$r $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-160)"
done
