#!/bin/bash
# mut.sh FILE PROOF SEDEXPR...: does the proof notice each edit?
f=$1; p=$2; shift 2
for e in "$@"; do
  d=$(mktemp -d /tmp/w/mut.XXXX); cp /tmp/w/src/* $d/
  sed -i "$e" $d/$f
  if cmp -s $d/$f /tmp/w/src/$f; then echo "NOCHANGE $e"; else
  echo "== $e"; SRC=$d /verif/tools/prove.sh $p 2>&1 | cut -c1-300 | head -3; fi
  rm -rf "$d"
done
