#!/bin/bash
# usage: tools/show.sh <property> <seed> <case>: what a failing case was about
cd "$(dirname "$0")/.." && ./check "$1" quick --seed "$2" --case "$3" 2>&1 | python3 -c "
import sys,json
t=sys.stdin.read()
if '{\n' not in t: print(t); sys.exit()
i=t.index('{\n')
try: d=json.JSONDecoder().raw_decode(t[i:])[0]
except Exception: print(t[:9000]); sys.exit()
print(d.get('what')); print(json.dumps(d.get('detail'))[:2500]); inf=d.get('info',{})
for k in inf:
    if k=='world':
        print(inf[k]['dialect'])
        for a,b in inf[k]['tables'].items(): print('  ',a,json.dumps(b))
    else: print(k, json.dumps(inf[k])[:2500])
print(d.get('trace','')[-1800:])
"
