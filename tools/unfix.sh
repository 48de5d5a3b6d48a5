#!/bin/bash
# unfix.sh <ID> <commit>...: runs a check with a fix commit taken back (working tree only), then restores
id=$1; shift
for c in "$@"; do
  git -C /repo show $c | git -C /repo apply -R || { echo "cannot unapply $c"; continue; }
  echo "== without $(git -C /repo log -1 --format='%h %s' $c)"
  python3 /verif/tools/check.py $id 2>&1 | cut -c1-600 | tail -4
  git -C /repo checkout -q -- .
done
