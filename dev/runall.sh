#!/bin/bash
# runall.sh DIR [checks...]: run all checks on the tree DIR, three at a time
d=$1; shift
cd "$(dirname "$0")/.."
ls ${@:-checks/c*.py} | xargs -P 3 -I{} bash -c 'f={}; o=$(VERIF_REPO='$d' VERIF_EVIDENCE='$d'/ev python3 $f 2>&1); rc=$?; echo "== $f rc=$rc"; [ $rc = 0 ] || echo "$o" | grep -v "^OK" | cut -c1-400 | head -12'
