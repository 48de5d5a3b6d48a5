#!/bin/bash
# mut.sh <check id> <sed expression> <file>: apply a one-line mutation to /repo, run the check, undo
cd /repo && cp "$3" /tmp/mut.bak && sed -i -E "$2" "$3" && git diff --stat | tail -1
if git diff --quiet; then echo "NO CHANGE"; fi
( cd /verif && timeout 900 python3 tools/check.py $1 | cut -c1-400 | tail -4 )
cp /tmp/mut.bak "$3"; git diff --quiet || echo DIRTY
