#!/bin/bash
# debugging helper: run a property, print a short form of the failure
cd /verif; VF_SHRINK=${S:-6} python3 vrun.py $1 ${2:-quick} 2>/tmp/dbg.$1 | cut -c1-300
if grep -aq "^FAILURE" /tmp/dbg.$1; then sed -n '/^FAILURE/,$p' /tmp/dbg.$1 | grep -av "libc_start\|_start\|sanitizer/" | sed 's/==[0-9]*==//; s/ 0x[0-9a-f]* in / /' | head -${L:-14} | cut -c1-${W:-600}; fi
