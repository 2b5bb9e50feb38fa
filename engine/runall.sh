# runall.sh backend prop...   (development aid)
be=$1; shift
for p in $@; do echo "### $p"; python3-vt pool.py "$(python3-vt - $be $p <<'P'
import sys, json; sys.path.insert(0,'.')
import tasks
print(json.dumps([t for t in tasks.tasks(sys.argv[2],'quick') if t['be']==sys.argv[1]]))
P
)" $p 600 > /tmp/o/$be.$p.txt; grep -v "'discharged': [0-9]*} " /tmp/o/$be.$p.txt | cut -c1-600 | head -${LINES_:-24}; grep -c ' done ' /tmp/o/$be.$p.txt; done
