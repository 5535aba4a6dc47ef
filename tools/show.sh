#!/bin/bash
# show the replay files of a property
for f in $(dirname "$0")/../evidence/replay/$1-*.json; do python3 - $f <<'PY'
import json,sys
d=json.load(open(sys.argv[1])); print('=====',d['sig'],'case',d['case'],d['what'][:1500])
for f in d['files']: print('---',f['path']); print(f['text'][:2500])
PY
done
