#!/bin/bash
# replay.sh FILE: run a recorded counterexample against /repo's current code
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python - "$1" "$here" <<'P'
import json, sys
sys.path.insert(0, sys.argv[2])
from dv import realmain
r = realmain.replay(json.load(open(sys.argv[1])))
print(r)
sys.exit(1 if r and r.get('status') == 'violation' else 0)
P
