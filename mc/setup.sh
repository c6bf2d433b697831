#!/bin/sh
# Everything is rebuilt per check from /repo's working tree; here only verify that the tools are present.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence/replay
command -v clang >/dev/null && command -v clang++ >/dev/null && command -v python3 >/dev/null
python3 - <<'P'
import sys; sys.dont_write_bytecode=True
sys.path.insert(0,'mc')
import specs, json
m=json.load(open('MANIFEST.json'))
for c in m['checks']: assert c['property'] in specs.SPECS, c['property']
print('setup ok,', len(m['checks']), 'checks')
P
