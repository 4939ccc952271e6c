#!/bin/bash
# newseed.sh ID PROPERTY "needs" "what it breaks" : makes seeded/ID from the uncommitted diff in the scratch copy /tmp/wt and /tmp/demo.py
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
test -s $D/patch.diff
cp /tmp/demo.py $D/demo.py; cp /verif/tools/demolib.py $D/demolib.py
cat > $D/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
PYTHONPATH=$PWD:$D exec /opt/venv/bin/python "$D/demo.py"
X
python3 - "$@" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
X
(cd /repo && bash $D/demo.sh >/tmp/demo.base 2>&1) && echo "base ok" || { echo "BASE DEMO FAILS"; tail -5 /tmp/demo.base; }
(cd /tmp/wt && bash $D/demo.sh >/tmp/demo.bug 2>&1) && echo "DEMO MISSES BUG" || { echo "bug shown"; tail -1 /tmp/demo.bug; }
git -C /tmp/wt checkout -q -- .
