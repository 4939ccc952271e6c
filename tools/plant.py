"""plant.py ID PROP FILE 'needs' 'breaks' <<< OLD\n====\nNEW\n====\nDEMO : plants one bug in the scratch copy /tmp/wt and keeps it as seeded/ID"""
import subprocess, sys
i, prop, f, needs, breaks = sys.argv[1:6]
old, new, demo = sys.stdin.read().split("\n====\n")
p = "/tmp/wt/" + f
s = open(p).read()
n = s.count(old)
k = int(sys.argv[6]) if len(sys.argv) > 6 else 0
assert n == 1 or (k and n >= k), "found %d times" % n
if n == 1:
    s = s.replace(old, new)
else:
    parts = s.split(old)
    s = old.join(parts[:k]) + new + old.join(parts[k:])
open(p, "w").write(s)
open("/tmp/demo.py", "w").write("from demolib import *\n" + demo)
sys.exit(subprocess.call(["bash", "/verif/tools/newseed.sh", i, prop, needs, breaks]))
