#!/bin/bash
# tools/demo/mk.sh ID PROPERTY : lays down seeded/ID with tlib.py and demo.sh; patch.diff is the diff of the tree in $1
d=/verif/seeded/$1; mkdir -p $d; cp /verif/tools/demo/tlib.py $d/
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec python3 "$here/demo.py"
X
