#!/bin/bash
# tools/revert.sh COMMIT PROP...: undo one fix commit in /repo's tree, run the quick checks, restore.
c=$1; shift
git -C /repo show $c --format= | git -C /repo apply -R --3way - 2>/dev/null || { git -C /repo checkout -q -- . ; git -C /repo reset -q --hard; echo "$c cannot be reverted alone"; exit 0; }
git -C /repo reset -q
for p in "$@"; do timeout 900 python3 -m sim check $p >/tmp/rv.out 2>&1; echo "$c $p rc=$? $(grep -m1 -o 'C[0-9][0-9]:[^ ]*' /tmp/rv.out)"; done
git -C /repo checkout -q -- .
