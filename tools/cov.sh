#!/bin/bash
# prints the label distribution of the last run
for i in "$@"; do python3 -c "
import json,sys
d=json.load(open('$(dirname "$0")/../evidence/$i.json')); c=d['coverage']
print('$i',c['evaluations'],c['distinct_nontrivial'],d['wall_s'],'s',c.get('truncated',''),c.get('notes',''))
for k,v in c['scenarios'].items(): print('  ',k,v)"; done
