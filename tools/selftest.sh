#!/bin/bash
# The simulator tested on itself (harness/self.cpp): correct programs with every OpenMP construct, lock and
# atomic stay quiet over many seeds; programs with one defect each are found. Not a registered check.
set -eu
cd "$(dirname "$0")/.."
T=$(mktemp -d /tmp/simself.XXXXXX)
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
cat > "$T/build.py" <<'P'
import sys, shutil
sys.path.insert(0, "driver")
import check
shutil.copy(check.build_world("self", "team"), sys.argv[1])
P
python3 "$T/build.py" "$T/self"
n=0
for p in OK RACE1 RACE2 RACE3 RACE4 RACE5 RACE6 RACE7 RACE8 ORDER LOST DEAD OUT UNINIT; do
    k=60; [ $p = OK ] && k=${1:-3000}
    "$T/self" batch $p 1 1 $k 300 "$T/o" >/dev/null
    v=$(wc -l < "$T/o.viol")
    if { [ $p = OK ] && [ "$v" != 0 ]; } || { [ $p != OK ] && [ "$v" = 0 ]; }; then
        echo "FAILED: $p: $v violations"
        head -3 "$T/o.viol"
        n=$((n + 1))
    else
        echo "ok: $p: $v violations"
    fi
done
exit $((n > 0))
