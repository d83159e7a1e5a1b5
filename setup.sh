#!/bin/bash
# Builds the front end and fills the cache of parsed units. Offline.
set -e
cd "$(dirname "$0")"
bash tool/build.sh
python3 - <<'P'
import sys
sys.path.insert(0, 'engine')
import front
p = front.Program(front.all_units())
print('%d units, %d functions, %d records' % (len(front.all_units()), len(p.fns), len(p.recs)))
P
