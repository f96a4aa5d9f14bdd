#!/bin/bash
# mutant.sh FILE N CHECK... : the complete quick checks on one mutant of tools/mutate.py
F=$1; N=$2; shift 2
D=/tmp/mutant$$; mkdir -p $D; cp -r /repo/tensorD $D/
/opt/venv/bin/python -B - $F $N $D <<'P'
import sys; sys.path.insert(0, '/verif/tools')
import mutate
f, n, d = sys.argv[1], int(sys.argv[2]), sys.argv[3]
for k, what, src in mutate.mutants('/repo/tensorD/' + f):
    if k == n:
        open(d + '/tensorD/' + f, 'w').write(src); print(f, n, what)
P
for c in "$@"; do RTM_REPO=$D RTM_EVIDENCE=$D/ev /opt/venv/bin/python -B /verif/rtm/run.py $c | cut -c1-150 | grep -m1 -E "^(HELD|VIOLATION|INCONCL)"; done
rm -rf $D
