#!/bin/bash
# mut.sh PROP FILE 's/old/new/' : apply a perl substitution to /repo/src/wax/FILE, run the quick check, restore.
P=$1; F=/repo/src/wax/$2; E=$3
cd /verif
cp "$F" /tmp/mut.bak
perl -0pi -e "$E" "$F"
if cmp -s "$F" /tmp/mut.bak; then echo "NO CHANGE $P $2 $E"; exit 3; fi
timeout 800 python3 -m sim check "$P" --tier quick > /tmp/mut.out 2>&1; rc=$?
cp /tmp/mut.bak "$F"
echo "$P $2 rc=$rc  $(grep -c VIOLATION /tmp/mut.out) $(grep VIOLATION /tmp/mut.out | head -1)  $(tail -1 /tmp/mut.out)   [$E]"

