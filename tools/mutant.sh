#!/bin/bash
# Tries a change to the crate in a private copy: mutant.sh PATCH [PROPERTY...] -- prints which checks catch it.
# Everything happens in /tmp/mut/NAME, shown as /repo and /verif in a private mount namespace.
patch=$(readlink -f "$1"); shift
name=$(basename $(dirname "$patch"))-$(basename "$patch" .diff)
w=/tmp/mut/$name
rm -rf /tmp/mut/$name; mkdir -p $w
cp -a /repo $w/repo; mkdir $w/verif; cp -a /verif/. $w/verif/ ; rm -rf $w/verif/build/bin.*
unshare -Urm bash -c '
mount --bind '$w'/repo /repo && mount --bind '$w'/verif /verif || exit 9
cd /repo && git apply '"$patch"' || { echo "does not apply"; exit 8; }
. /opt/vp/env.sh
cd /verif
for p in "$@"; do s=$(date +%s); python3 run/check.py $p quick > /tmp/mut/'$name'.$p.out 2>&1; rc=$?; echo "'$name' $p rc=$rc $(( $(date +%s) - s ))s $(grep -B1 ^VIOLATION /tmp/mut/'$name'.$p.out | head -1 | cut -c1-150)"; done
' _ "$@"
rm -rf /tmp/mut/$name
